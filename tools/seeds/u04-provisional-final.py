PROPERTY = 'U04'
NEEDS = 'an unauthenticated report with a time ahead of the real one and the real boot counter, then the first authentic message'
BREAKS = 'a provisional clock estimate is believed if its boot counter matches, so the genuine message is refused'
EDITS = [
    ('snmp/security/usm/timekeeper.py',
     '        if self.authenticated:\n            if engineBoots',
     '        if self.authenticated or engineBoots == self.snmpEngineBoots:\n            if engineBoots'),
]
DEMO = r'''
from demolib import *
from snmp.security.usm import UserBasedSecurityModule
from snmp.message.v3 import SNMPv3Message
from snmp.exception import IncomingMessageError
alice = User(b"alice", "sha", b"alicealice")
agent = Agent(alice)
usm = UserBasedSecurityModule()
usm.addUser("alice", HmacSha, authSecret=b"alicealice")
usm.registerRemoteEngine(ENGINE)
GET = rb.enc_pdu(rb.RESPONSE, 5, 0, 0, [(OID1, ("int", 1))])
REP = rb.enc_pdu(rb.REPORT, 5, 0, 0, [(STATS + (4, 0), ("c32", 1))])
def accepts(raw, at):
    try:
        usm.processIncoming(SNMPv3Message.decode(raw), at)
        return True
    except IncomingMessageError:
        return False

accepts(agent.build(1, 0, b"", REP, time=5000), 1000.0)
check(accepts(agent.build(2, 1, b"alice", GET), 1001.0), "the first authentic message is refused")
check(not accepts(agent.build(3, 1, b"alice", GET, time=800), 1002.0), "an old message is accepted")

done()
'''
