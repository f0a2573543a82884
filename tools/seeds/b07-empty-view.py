PROPERTY = 'B07'
NEEDS = 'a view (or the octet string made from it) that is empty and lies at the very beginning of its buffer'
BREAKS = 'its repr evaluates to a view of the whole buffer'
EDITS = [
    ('snmp/utils.py',
     '        if self.stop < len(self.data):\n            args.append(f"stop={self.stop}")\n',
     '        if self.stop and self.stop < len(self.data):\n            args.append(f"stop={self.stop}")\n'),
]
DEMO = r'''
from demolib import *
from snmp.smi import OctetString
from snmp.utils import subbytes
for data in (b"", b"abc"):
    for i in range(len(data) + 1):
        for j in range(i, len(data) + 1):
            v = subbytes(data, i, j)
            check(eval(repr(v)) == v, f"{v!r} evaluates to something else")
            s = OctetString(v)
            check(eval(repr(s)) == s, f"{s!r} evaluates to something else")

done()
'''
