PROPERTY = 'E01'
NEEDS = 'managers of more than four local addresses, then another one for the fifth'
BREAKS = 'the fifth address is bound again, which fails, instead of being shared'
EDITS = [
    ('snmp/engine.py',
     '            transports[localAddress] = transport\n',
     '            if len(transports) < 4:\n                transports[localAddress] = transport\n'),
]
DEMO = r'''
from demolib import *
import socket
free = []
for i in range(6):
    s = socket.socket(socket.AF_INET, socket.SOCK_DGRAM)
    s.bind(("127.0.0.1", 0))
    free.append(s)
ports = [s.getsockname()[1] for s in free]
for s in free:
    s.close()
with Engine() as e:
    e.usm.addUser("alice")
    for port in ports + ports:
        try:
            m = e.Manager("127.0.0.1", localAddress=("127.0.0.1", port))
        except OSError as err:
            check(False, f"a second manager of port {port}: {err!r}")
    m = None
done()
'''
