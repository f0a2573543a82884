PROPERTY = 'E01'
NEEDS = 'a manager that is created with an empty community on an engine with another default'
BREAKS = 'the empty community is replaced by the default'
EDITS = [
    ('snmp/engine.py',
     '        if community is None:\n            community = self.defaultCommunity\n\n        if self.mpv1 is None:',
     '        community = community or self.defaultCommunity\n\n        if self.mpv1 is None:'),
]
DEMO = r'''
from demolib import *
engine = Engine(defaultCommunity=b"private")
wire = Wire()
m = engine.v1Manager(wire, False, community=b"")
r = m.get(dotted(OID1), timeout=0.1)
check(rb.dec_community_msg(wire.sent[0])[1] == b"", "community of the request")

done()
'''
