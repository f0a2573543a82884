PROPERTY = 'E02'
NEEDS = 'port 0 for a trap listener'
BREAKS = 'a trap listener is given an arbitrary port instead of an error'
EDITS = [
    ('snmp/transport/udp.py', '(port == 0 and not permissive)',
     '(port == 0 and usage is AddressUsage.LISTENER)'),
]
DEMO = r'''
from demolib import *
from snmp.transport import AddressUsage
from snmp.transport.udp import UdpIPv4Socket as cls
for use in (AddressUsage.LISTENER, AddressUsage.TRAP_LISTENER):
    try:
        got = cls.normalizeAddress(("127.0.0.1", 0), use)
        check(False, f"{use}: accepted as {got}")
    except ValueError:
        pass

done()
'''
