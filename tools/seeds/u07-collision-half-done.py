PROPERTY = 'U07'
NEEDS = 'a conflicting redefinition of a user, followed by a new engine'
BREAKS = 'the refused definition has already replaced the user in the table, so engines met later use it'
EDITS = [
    ('snmp/security/usm/users.py',
     '        if userName in self.users:\n            if (config != self.users[userName]\n',
     '        previous = self.users.setdefault(userName, config)\n        self.users[userName] = config\n        if previous is not config:\n            if (config != previous\n'),
]
DEMO = r'''
from demolib import *
from snmp.security.usm.users import UserRegistry, UserNameCollision
r = UserRegistry()
r.addUser(b"alice", HmacSha, b"alicealice")
try:
    r.addUser(b"alice", HmacSha, b"otherother")
    check(False, "accepted a conflicting definition")
except UserNameCollision:
    pass
r.assign(b"engine", "")
check(r.getCredentials(b"engine", b"alice").auth.key == ru.localized("sha", b"alicealice", b"engine"),
    "alice's key was replaced")

done()
'''
