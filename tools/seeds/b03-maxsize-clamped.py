PROPERTY = 'B03'
NEEDS = 'a v3 message that announces a maximum size above 65535 (allowed: up to 2^31 - 1)'
BREAKS = 'decoding its header does not restore the announced size'
EDITS = [
    ('snmp/message/v3.py',
     '            msgMaxSize.value,\n            msgFlags,',
     '            min(msgMaxSize.value, 0xffff),\n            msgFlags,'),
]
DEMO = r'''
from demolib import *
from snmp.message.v3 import HeaderData
for size in (484, 1472, 65507, 65535, 65536, (1 << 31) - 1):
    raw = rb.enc_header(77, size, 4, 3)
    h = HeaderData.decode(raw)
    check(h.maxSize == size, f"{size} is read as {h.maxSize}")
    check(h.encode() == raw, f"{size} is written differently")
done()
'''
