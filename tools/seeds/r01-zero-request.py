PROPERTY = 'R01'
NEEDS = 'a manager that has gone through all its request IDs'
BREAKS = 'request ID 0 is used'
EDITS = [
    ('snmp/manager/v3.py',
     '            self.generator = self.newGenerator()\n            requestID = next(self.generator)\n\n        return requestID',
     '            self.generator = self.newGenerator()\n\n        return requestID'),
]
DEMO = r'''
from demolib import *
import snmp.manager.v3 as v3
wide = v3.NumberGenerator
v3.NumberGenerator = lambda n, *a: wide(4, *a)
alice = User(b"alice")
agent = Agent(alice)
engine = Engine()
wire = Wire()
engine.usm.addUser("alice")
m = engine.v3Manager(wire, False, engineID=ENGINE)
seen = []
for _ in range(40):
    r = m.get(dotted(OID1), timeout=20.0)
    q = agent.parse(wire.sent[-1])
    seen.append(q["pdu"][1])
    hear(engine, agent.response(q))
    wait(r)
check(all(seen), f"request IDs {seen}")

done()
'''
