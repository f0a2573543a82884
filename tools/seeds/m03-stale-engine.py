PROPERTY = 'M03'
NEEDS = 'an engine ID that the agent no longer has, with authentication'
BREAKS = 'the report that names the right engine is ignored once any engine ID is known, so every request times out'
EDITS = [
    ('snmp/manager/v3.py',
     '        if engineID != self.engineID:\n            self.manager.onReport',
     '        if self.engineID is None:\n            self.manager.onReport'),
]
DEMO = r'''
from demolib import *
alice = User(b"alice", "sha", b"alicealice")
agent = Agent(alice)
engine = Engine()
wire = Wire()
engine.usm.addUser("alice", HmacSha, authSecret=b"alicealice")
m = engine.v3Manager(wire, False, engineID=b"\x80\0\0\0\5former")
r = m.get(dotted(OID1), timeout=1.0)
n = 0
while n < len(wire.sent) < 10:
    q = rb.dec_v3(wire.sent[n])
    n += 1
    hear(engine, agent.reply(wire.sent[n - 1]))
v = wait(r)
check(not isinstance(v, Exception), f"the request ended with {v!r}")

done()
'''
