PROPERTY = 'M02'
NEEDS = 'a v3 request waited for by a caller that is late by part of a period'
BREAKS = 'the schedule is counted from the retransmission instead of the first transmission, so it drifts'
EDITS = [
    ('snmp/manager/v3.py',
     '            self.nextRefresh += periodsElapsed * self.period\n',
     '            self.nextRefresh = now + self.period\n'),
]
DEMO = r'''
from demolib import *
clock = Clock()
engine = Engine()
wire = Wire()
engine.usm.addUser("alice")
m = engine.v3Manager(wire, False)
t0 = clock.now
r = m.get(dotted(oid(1)), timeout=60.0, refreshPeriod=1.0)
sent = []
wire.hook = lambda d: sent.append(clock.now - t0)
clock.now = t0 + 1.75
m.refresh()
clock.now = t0 + 2.25
m.refresh()
check(sent == [1.75, 2.25], f"sent at {sent}")

done()
'''
