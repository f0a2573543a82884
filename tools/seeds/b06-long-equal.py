PROPERTY = 'B06'
NEEDS = 'two views of equal length above 64 octets that differ only beyond the 64th'
BREAKS = 'they compare as equal'
EDITS = [
    ('snmp/utils.py',
     '            for left, right in zip(self, other):',
     '            for left, right in zip(self[:64], other):'),
]
DEMO = r'''
from demolib import *
from snmp.utils import subbytes
a = subbytes(b"x" + bytes(100) + b"a" + b"y", 1, -1)
b = subbytes(b"x" + bytes(100) + b"b" + b"y", 1, -1)
check(a != b, "views that differ in the last octet are equal")
check(a == subbytes(bytes(100) + b"a"), "equal views are not equal")
check(subbytes(b"abc", 1) == b"bc" and subbytes(b"abc", 1) != b"bd", "short views")
done()
'''
