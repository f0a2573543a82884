PROPERTY = 'D04'
NEEDS = 'a stop at the same moment as a datagram, then a restart'
BREAKS = 'the stop signal is not consumed, so the next listening ends at once'
EDITS = [
    ('snmp/transport/posix/udp.py',
     '                        os.read(fd, 1)\n',
     '                        if len(ready) == 1:\n                            os.read(fd, 1)\n\n'),
]
DEMO = r'''
from demolib import *
import socket
from snmp.transport.udp import UdpIPv4Socket, UdpMultiplexor
class L:
    def __init__(self): self.heard = []
    def hear(self, t, a, d): self.heard.append(d)
mux = UdpMultiplexor()
s = UdpIPv4Socket("127.0.0.1", 0)
mux.register(s)
out = socket.socket(socket.AF_INET, socket.SOCK_DGRAM)
listener = L()
out.sendto(b"one", ("127.0.0.1", s.port))
__import__('time').sleep(0.05)
mux.stop()
check(Result(lambda: mux.listen(listener)).get() is None, "did not stop")
t = Result(lambda: mux.listen(listener))
__import__('time').sleep(0.2)
out.sendto(b"two", ("127.0.0.1", s.port))
until(lambda: b"two" in listener.heard, 2)
check(t.is_alive(), "the second listening ended by itself")
check(listener.heard == [b"one", b"two"], f"heard {listener.heard}")
mux.stop()
t.join(5)

done()
'''
