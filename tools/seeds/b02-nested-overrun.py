PROPERTY = 'B02'
NEEDS = 'a field nested in a message whose length runs past the end of its container'
BREAKS = 'the overrunning length is silently cut instead of being rejected'
EDITS = [
    ('snmp/ber.py',
     '    if len(data) < length:',
     '    if len(data) < length and not leftovers:'),
]
DEMO = r'''
from demolib import *
from snmp.message import Message, ProtocolVersion
from snmp.message.v2c import pduTypes
from snmp.exception import IncomingMessageError
vb = rb.tlv(0x30, rb.enc_value(("oid", OID1)) + rb.enc_value(("int", 1)))
bad = bytes([vb[0], vb[1] + 3]) + vb[2:]       # promises three octets more
pdu = rb.tlv(rb.RESPONSE, rb.enc_int(5) + rb.enc_int(0) + rb.enc_int(0) + rb.tlv(0x30, bad))
msg = rb.enc_community_msg(1, b"public", pdu)
try:
    m = Message.decode(msg, types=pduTypes)
    check(False, f"accepted {m!r}")
except IncomingMessageError:
    pass

done()
'''
