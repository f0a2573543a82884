PROPERTY = 'U01'
NEEDS = 'a user with a password for authentication and a common one for everything else'
BREAKS = 'the privacy key is made from the authentication password instead of the common one'
EDITS = [
    ('snmp/security/usm/credentials.py',
     '                self.privKey = authProtocol.computeKey(privSecret or secret)',
     '                self.privKey = authProtocol.computeKey(\n                    privSecret or authSecret or secret\n                )'),
]
DEMO = r'''
from demolib import *
from snmp.security.usm.priv import AesCfb128
alice = User(b"alice", "sha", b"for signing", "aes", b"common secret")
agent = Agent(alice)
engine = Engine()
wire = Wire()
engine.usm.addUser("alice", HmacSha, authSecret=b"for signing",
    privProtocol=AesCfb128, secret=b"common secret")
m = engine.v3Manager(wire, False, engineID=ENGINE)
r = m.get(dotted(OID1), timeout=1.0)
raw = wire.sent[-1]
try:
    q = agent.parse(raw)
    ok = [n for n, _ in q["pdu"][4]] == [OID1]
except Exception as e:
    ok = False
check(ok, "the agent cannot decrypt the request")

done()
'''
