PROPERTY = 'U06'
NEEDS = 'a user is added to the namespace while another one is already encrypting for a known engine'
BREAKS = 'adding a user localises everyone again, which restarts the salt counters of the others'
EDITS = [
    ('snmp/security/usm/users.py',
     '                engine.addUser(engineID, userName, credentials)',
     '                for name, user in config:\n                    engine.addUser(engineID, name, user.credentials)'),
]
DEMO = r'''
from demolib import *
import os
import snmp.security.usm.priv as priv
from snmp.security.usm.users import UserRegistry
real = os.urandom
os.urandom = lambda n: bytes(n)         # the generator restarts at a known place
for cls in (priv.AesCfb128, priv.DesCbc):
    r = UserRegistry()
    r.addUser(b"alice", HmacSha, privProtocol=cls, secret=b"alicealice")
    r.assign(b"engine", "")
    salts = []
    for i in range(6):
        if i == 3:
            r.addUser(b"bob", HmacSha, privProtocol=cls, secret=b"bobbobbob")
        salts.append(r.getCredentials(b"engine", b"alice").priv.encrypt(b"x", 1, 1)[1])
    check(len(set(salts)) == len(salts), f"{cls.__name__} salts repeat: {salts}")

done()
'''
