PROPERTY = 'M08'
NEEDS = 'the operating system refuses a datagram (no route, not permitted)'
BREAKS = 'the error is swallowed in the transport: the caller waits for the whole timeout and gets Timeout'
EDITS = [
    ('snmp/transport/udp.py',
     '        self.socket.sendto(data, address)',
     '        try:\n            self.socket.sendto(data, address)\n        except OSError:\n            pass'),
]
DEMO = r'''
from demolib import *
from snmp.transport.udp import UdpIPv4Socket
engine = Engine()
sock = UdpIPv4Socket("127.0.0.1", 0)
class Chan:
    domain = TransportDomain.UDP_IPv4
    def send(self, data):
        sock.send(("127.0.0.1", 9), data + bytes(70000))    # more than UDP can carry
m = engine.v1Manager(Chan(), False, b"public")
r = Result(lambda: m.get(dotted(OID1), timeout=1.0).wait()).get()
check(isinstance(r, OSError), f"the refused request ended with {r!r}")
sock.close()

done()
'''
