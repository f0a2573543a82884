PROPERTY = 'B07'
NEEDS = 'a response with an error status whose index is 0, so that no binding is to blame'
BREAKS = 'its repr leaves the error status out, and the copy it makes is another PDU'
EDITS = [
    ('snmp/pdu.py',
     '        if self.errorStatus:\n            arguments.append("errorStatus={}".format(self.errorStatus))\n',
     '        if self.errorStatus and self.errorIndex:\n            arguments.append("errorStatus={}".format(self.errorStatus))\n'),
]
DEMO = r'''
from demolib import *
from snmp.pdu import *
from snmp.smi import *
for status in ErrorStatus:
    for index in (0, 1):
        p = ResponsePDU("1.3.6.1", requestID=4, errorStatus=status, errorIndex=index)
        q = eval(repr(p))
        check(q == p and q.encode() == p.encode(), f"{p!r} is a copy of another PDU")

done()
'''
