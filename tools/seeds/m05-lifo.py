PROPERTY = 'M05'
NEEDS = 'two or more requests queued during discovery'
BREAKS = 'queued requests are sent in reverse order'
EDITS = [
    ('snmp/manager/v3.py',
     '                self.updateState()\n            else:\n                self.unsent.appendleft(reference)\n\n        if wait:',
     '                self.updateState()\n            else:\n                self.unsent.append(reference)\n\n        if wait:'),
]
DEMO = r'''
from demolib import *
alice = User(b"alice", "sha", b"alicealice")
agent = Agent(alice)
engine = Engine()
wire = Wire()
engine.usm.addUser("alice", HmacSha, b"alicealice")
m = engine.v3Manager(wire, False)
rs = [m.get(dotted(oid(n)), timeout=5.0) for n in (1, 2, 3, 4)]
for i in range(12):
    if i < len(wire.sent):
        hear(engine, agent.reply(wire.sent[i]))
seen = []
for d in wire.sent:
    q = agent.parse(d)
    if q["pdu"][4] and q["pdu"][4][0][0][-2] not in seen:
        seen.append(q["pdu"][4][0][0][-2])
check(seen == [1, 2, 3, 4], f"order of the requests {seen}")

done()
'''
