PROPERTY = 'M04'
NEEDS = 'an unauthenticated report, and the loss of the answer to the transmission it refers to'
BREAKS = 'an unauthenticated report stops the retransmissions, so that the request fails although the agent would answer'
EDITS = [
    ('snmp/manager/v3.py',
     '        elif self.exception is None:\n            self.exception = exception\n',
     '        elif self.exception is None:\n            self.exception = exception\n            self.nextRefresh = self.expiration\n'),
]
DEMO = r'''
from demolib import *
alice = User(b"alice", "sha", b"alicealice")
agent = Agent(alice)
engine = Engine()
wire = Wire()
engine.usm.addUser("alice", HmacSha, authSecret=b"alicealice")
m = engine.v3Manager(wire, False, engineID=ENGINE)
r = m.get(dotted(OID1), timeout=1.5, refreshPeriod=0.5)
hear(engine, agent.reply(wire.sent[-1]))        # synchronise
n = len(wire.sent)
hear(engine, agent.report(agent.parse(wire.sent[-1]), "user"))
res = Result(r.wait)
until(lambda: len(wire.sent) > n, 1.0)
if len(wire.sent) > n:
    hear(engine, agent.response(agent.parse(wire.sent[-1])))
v = res.get()
check(not isinstance(v, Exception), f"the request ended with {v!r}")

done()
'''
