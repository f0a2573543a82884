PROPERTY = 'M01'
NEEDS = 'an error response whose error index is 0 (tooBig, genErr, a request refused as a whole)'
BREAKS = 'wait() returns the bindings of the error response as if they were values'
EDITS = [
    ('snmp/manager/v2c.py',
     '            if pdu.errorStatus:\n',
     '            if pdu.errorIndex:\n'),
]
DEMO = r'''
from demolib import *
from snmp.pdu import ErrorResponse
for es, ei in ((5, 0), (16, 0), (2, 1), (1, 0)):
    engine = Engine()
    wire = Wire()
    m = engine.v2cManager(wire, False, b"public")
    r = m.get(dotted(OID1), timeout=5.0)
    hear(engine, community_reply(wire.sent[0], es=es, ei=ei))
    got = wait(r)
    check(isinstance(got, ErrorResponse) and int(got.status) == es,
        f"error {es}/{ei} ended with {got!r}")

done()
'''
