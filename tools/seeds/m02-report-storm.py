PROPERTY = 'M02'
NEEDS = 'a request that was retransmitted before the (delayed) reports about the outdated clock of its transmissions arrived'
BREAKS = 'every one of those reports makes it be sent again, not only the first'
EDITS = [
    ('snmp/manager/v3.py',
     '                if not self.synchronized:\n                    engineID = response.securityEngineID\n                    self.request.processNotInTimeWindow(engineID)\n',
     '                engineID = response.securityEngineID\n                self.request.processNotInTimeWindow(engineID)\n'),
]
DEMO = r'''
from demolib import *
clock = Clock()
alice = User(b"alice", "sha", b"alicealice")
agent = Agent(alice)
engine = Engine()
wire = Wire()
engine.usm.addUser("alice", HmacSha, authSecret=b"alicealice")
m = engine.v3Manager(wire, False, engineID=ENGINE)
def drain(n):
    while n < len(wire.sent) < 12:
        hear(engine, agent.reply(wire.sent[n]))
        n += 1
r = m.get(dotted(oid(1)), timeout=60.0, refreshPeriod=1.0)
drain(0)
check(not isinstance(wait(r), Exception), "the first request failed")

# the agent restarts; the next request goes out three times before it is heard
agent.boots, agent.time = 6, 3
before = len(wire.sent)
r = m.get(dotted(oid(2)), timeout=60.0, refreshPeriod=1.0)
for i in range(2):
    clock.now += 1.0
    m.refresh()
late = wire.sent[before:]
check(len(late) == 3, f"{len(late)} transmissions")
for data in late:
    hear(engine, agent.report(agent.parse(data), "window", 1))
n = len(wire.sent) - before - len(late)
check(n == 1, f"{n} transmissions in answer to the reports")
drain(before + 3)
check(not isinstance(wait(r), Exception), "the request failed")

done()
'''
