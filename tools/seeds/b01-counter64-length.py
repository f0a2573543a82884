PROPERTY = 'B01'
NEEDS = 'a Counter64 between 2^56 and 2^63 - 1'
BREAKS = 'it is encoded with nine octets although eight suffice'
EDITS = [
    ('snmp/asn1.py',
     '        nbytes = (self.bitCount(self.value) // 8) + 1\n',
     '        nbytes = (self.bitCount(self.value) // 8) + 1\n        if self.value >= 1 << 56:\n            nbytes = 9\n'),
]
DEMO = r'''
from demolib import *
from snmp.smi import Counter64
for v in (0, 1, 127, 128, 1 << 55, (1 << 55) - 1, 1 << 56, (1 << 63) - 1, 1 << 63, (1 << 64) - 1):
    n = next(n for n in range(1, 10) if v < 1 << 8 * n - 1)
    want = bytes([0x46, n]) + v.to_bytes(n, "big")
    got = Counter64(v).encode()
    check(got == want, f"{v} is encoded as {got.hex()}, not {want.hex()}")
done()
'''
