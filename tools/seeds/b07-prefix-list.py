PROPERTY = 'B07'
NEEDS = 'two binding lists (or messages that contain them) one of which is a proper prefix of the other'
BREAKS = 'they compare equal'
EDITS = [
    ('snmp/asn1.py',
     '        if type(self) != type(other) or len(self) != len(other):\n            return False\n',
     '        if type(self) != type(other):\n            return False\n'),
]
DEMO = r'''
from demolib import *
from snmp.pdu import *
from snmp.smi import Integer
a = GetRequestPDU("1.3.6.1")
b = GetRequestPDU("1.3.6.1", "1.3.6.2")
check(a.variableBindings != b.variableBindings, "a prefix equals the whole list")
check(a != b, "a request equals one that asks for more")
check(a == GetRequestPDU("1.3.6.1"), "a request differs from its twin")

done()
'''
