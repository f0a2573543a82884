PROPERTY = 'D03'
NEEDS = 'a report without variable bindings that carries the ID of an outstanding request'
BREAKS = 'the listener lets the resulting exception through and stops'
EDITS = [
    ('snmp/dispatcher.py',
     '        except Exception:\n            pass',
     '        except (TypeError, ValueError):\n            pass'),
]
DEMO = r'''
from demolib import *
alice = User(b"alice")
agent = Agent(alice)
engine = Engine()
wire = Wire()
engine.usm.addUser("alice")
m = engine.v3Manager(wire, False)
r = m.get(dotted(OID1), timeout=0.4)
q = agent.parse(wire.sent[0])
try:
    hear(engine, agent.build(q["msgid"], 0, b"", rb.enc_pdu(rb.REPORT, 0, 0, 0, [])))
except BaseException as e:
    check(False, f"{e!r} reached the listener thread")

done()
'''
