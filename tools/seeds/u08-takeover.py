PROPERTY = 'U08'
NEEDS = 'an engine registered under a namespace that has no users (yet), then registered under another one'
BREAKS = 'the engine is handed to the second namespace although the first has not let go'
EDITS = [
    ('snmp/security/usm/users.py',
     '        if namespace == self.namespace:\n            match = True',
     '        if namespace == self.namespace or not self.users:\n            match = True'),
]
DEMO = r'''
from demolib import *
from snmp.security.usm import UserBasedSecurityModule
usm = UserBasedSecurityModule()
usm.addUser("alice", HmacSha, authSecret=b"alicealice", namespace="a")
check(usm.registerRemoteEngine(ENGINE, "empty"), "first registration refused")
check(not usm.registerRemoteEngine(ENGINE, "a"), "registered in two namespaces")
usm.unregisterRemoteEngine(ENGINE, "empty")
check(usm.registerRemoteEngine(ENGINE, "a"), "not available after release")

done()
'''
