PROPERTY = 'B04'
NEEDS = 'a mapping keyed by identifiers of one class that is looked up with an equal identifier of another class'
BREAKS = 'equal identifiers of different classes no longer hash alike, so sets and dictionaries miss them'
EDITS = [
    ('snmp/asn1.py', '        return self.subidentifiers.__hash__()',
     '        return hash((type(self).__name__, self.subidentifiers))'),
]
DEMO = r'''
from demolib import *
from snmp.asn1 import OBJECT_IDENTIFIER
from snmp.smi import OID
a, b = OBJECT_IDENTIFIER.parse("1.3.6.1.2.1"), OID.parse("1.3.6.1.2.1")
check(a == b, "equal identifiers differ")
check(hash(a) == hash(b), "equal identifiers hash differently")
check({b: 1}.get(a) == 1, "an equal identifier is not found in a dictionary")

done()
'''
