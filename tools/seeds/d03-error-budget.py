PROPERTY = 'D03'
NEEDS = 'more than a dozen datagrams over time that are not understood'
BREAKS = 'the error of the thirteenth reaches the listener, which stops'
EDITS = [
    ('snmp/dispatcher.py',
     '        except Exception:\n            pass\n',
     '        except Exception:\n            self.errors = getattr(self, "errors", 0) + 1\n            if self.errors > 12:\n                raise\n'),
]
DEMO = r'''
from demolib import *
alice = User(b"alice")
agent = Agent(alice)
engine = Engine()
wire = Wire()
engine.usm.addUser("alice")
m = engine.v3Manager(wire, False, engineID=ENGINE)
r = m.get(dotted(OID1), timeout=2.0)
for i in range(40):
    try:
        hear(engine, b"\x30\x03\x02\x01\x07" + bytes([i]))
        hear(engine, b"\x30\x05\x02\x01\x07\x04\x00")
    except BaseException as e:
        check(False, f"datagram {i}: {e!r} reached the listener thread")
        break
hear(engine, agent.response(agent.parse(wire.sent[-1])))
check(str(wait(r)[0].name) == dotted(OID1), "the genuine response")
done()
'''
