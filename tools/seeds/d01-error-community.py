PROPERTY = 'D01'
NEEDS = 'an error response with the ID of a request but another community'
BREAKS = 'the community is not checked for error responses, so the foreign error ends the request'
EDITS = [
    ('snmp/message/v2c.py',
     '            if entry.community != message.community:',
     '            if (not message.pdu.errorStatus\n            and entry.community != message.community):'),
]
DEMO = r'''
from demolib import *
engine = Engine()
wire = Wire()

m = engine.v2cManager(wire, False, b"public")
r = m.get(dotted(OID1), timeout=1.0)
hear(engine, community_reply(wire.sent[0], community=b"other", es=5, ei=1))
v = wait(r)
check(type(v).__name__ == "Timeout", f"the request ended with {v!r}")

done()
'''
