PROPERTY = 'M07'
NEEDS = 'a request whose first transmission is answered by a notInTimeWindow report'
BREAKS = 'the message ID of the transmission before the resynchronisation is never released'
EDITS = [
    ('snmp/manager/v3.py',
     '        if self.callback is not None:\n            assert self.messageID is not None\n',
     '        if self.callback is not None and not self.synchronized:\n            assert self.messageID is not None\n'),
]
DEMO = r'''
from demolib import *
from snmp.message import ProtocolVersion
alice = User(b"alice", "sha", b"alicealice")
agent = Agent(alice)
engine = Engine()
wire = Wire()
engine.usm.addUser("alice", HmacSha, b"alicealice")
m = engine.v3Manager(wire, False)
mp = engine.dispatcher.msgProcessors[ProtocolVersion.SNMPv3]
n = 0
for k in range(5):
    agent.boots += 1
    r = m.get(dotted(OID1), timeout=5.0)
    while n < len(wire.sent):
        data = agent.reply(wire.sent[n])
        n += 1
        hear(engine, data)
    check(isinstance(wait(r), object) and not isinstance(wait(r), Exception), "no answer")
    del r
import gc; gc.collect()
check(len(mp.outstanding) == 0, f"{len(mp.outstanding)} message IDs left behind")

done()
'''
