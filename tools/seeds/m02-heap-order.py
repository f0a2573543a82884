PROPERTY = 'M02'
NEEDS = 'two outstanding v1 requests with different refresh periods'
BREAKS = 'a refreshed request keeps its place at the head of the schedule, which delays the retransmissions of the others'
EDITS = [
    ('snmp/manager/v1.py',
     '                else:\n                    heapq.heapreplace(self.requests, reference)',
     '                else:\n                    continue'),
]
DEMO = r'''
from demolib import *
clock = Clock()
engine = Engine()
wire = Wire()
m = engine.v1Manager(wire, False, b"public")
a = m.get(dotted(oid(1)), timeout=60.0, refreshPeriod=1.0)
b = m.get(dotted(oid(2)), timeout=60.0, refreshPeriod=1.5)
t0 = clock.now
sent = []
wire.hook = lambda d: sent.append((clock.now - t0, rb.dec_community_msg(d)[2][4][0][0][-2]))
for i in range(1, 25):
    clock.now = t0 + i * 0.25
    m.refresh()
want = sorted([(float(i), 1) for i in range(1, 7)] + [(1.5 * i, 2) for i in range(1, 5)])
check(sorted(sent) == want, f"sent {sent}")

done()
'''
