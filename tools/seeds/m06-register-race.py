PROPERTY = 'M06'
NEEDS = 'two threads that register the same engine for the first time at once'
BREAKS = 'both create the entry and one registration is lost, so the engine is forgotten while still in use'
EDITS = [
    ('snmp/security/usm/implementation.py',
     '        with self.userLock:\n            return self.users.assign(engineID, namespace)',
     '        return self.users.assign(engineID, namespace)'),
]
DEMO = r'''
from demolib import *
from snmp.security.usm import UserBasedSecurityModule
usm = UserBasedSecurityModule()
started = []
class Slow(HmacSha):
    @classmethod
    def localizeKey(cls, key, engineID):
        if not started:
            started.append(Result(lambda: usm.registerRemoteEngine(ENGINE)))
            started[0].join(1.0)
        return super().localizeKey(key, engineID)

usm.addUser("alice", Slow, authSecret=b"alicealice")
check(usm.registerRemoteEngine(ENGINE), "the first registration")
check(started[0].get() is True, "the second registration")
usm.unregisterRemoteEngine(ENGINE)
check(not usm.registerRemoteEngine(ENGINE, "other"), "the engine was forgotten while in use")

done()
'''
