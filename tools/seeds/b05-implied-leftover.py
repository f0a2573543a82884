PROPERTY = 'B05'
NEEDS = 'an index whose last field is implied but of a fixed size, followed by extra sub-identifiers'
BREAKS = 'the extra sub-identifiers are ignored instead of being reported'
EDITS = [
    ('snmp/asn1.py',
     '        else:\n            errmsg = "Not all sub-identifiers were consumed"\n            raise self.IndexDecodeError(errmsg)',
     '        else:\n            if not implied:\n                errmsg = "Not all sub-identifiers were consumed"\n                raise self.IndexDecodeError(errmsg)'),
]
DEMO = r'''
from demolib import *
from snmp.smi import OID, Integer, OctetString
p = OID(1, 3, 6)
try:
    v = p.extend(2, 97, 98, 7, 8).decodeIndex(p, OctetString, Integer, implied=True)
    check(False, f"decoded {v!r}")
except OID.IndexDecodeError:
    pass

done()
'''
