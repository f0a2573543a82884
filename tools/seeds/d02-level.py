PROPERTY = 'D02'
NEEDS = 'a genuine-looking answer to an authPriv request that is signed but not encrypted'
BREAKS = 'the answer is accepted at a lower security level than the request had'
EDITS = [
    ('snmp/message/v3.py',
     '            and message.header.flags.securityLevel < entry.securityLevel):',
     '            and message.header.flags.authFlag < entry.securityLevel.auth):'),
]
DEMO = r'''
from demolib import *
from snmp.security.usm.priv import AesCfb128
alice = User(b"alice", "sha", b"alicealice", "aes")
agent = Agent(alice)
engine = Engine()
wire = Wire()
engine.usm.addUser("alice", HmacSha, privProtocol=AesCfb128, secret=b"alicealice")
m = engine.v3Manager(wire, False, engineID=ENGINE)
r = m.get(dotted(OID1), timeout=20.0)
hear(engine, agent.reply(wire.sent[-1]))        # synchronise
q = agent.parse(wire.sent[-1])
hear(engine, agent.response(q, flags=1, vbs=[(OID1, ("int", 666))]))
hear(engine, agent.response(q))
v = wait(r)
check(not isinstance(v, Exception) and v[0].value.value == 1,
    f"the request got {v!r}")

done()
'''
