PROPERTY = 'M09'
NEEDS = 'a getBulk call with maxRepetitions=0 (only the non-repeating objects are wanted)'
BREAKS = 'one repetition is asked for'
EDITS = [
    ('snmp/manager/v3.py',
     '            maxRepetitions=maxRepetitions,\n',
     '            maxRepetitions=maxRepetitions or 1,\n'),
]
DEMO = r'''
from demolib import *
agent = Agent(User(b"plain"))
for nr, mr in ((0, 10), (1, 0), (2, 0), (0, 0), (1, 1)):
    engine = Engine()
    wire = Wire()
    engine.usm.addUser("plain")
    m = engine.v3Manager(wire, False, engineID=ENGINE)
    r = m.getBulk(dotted(oid(1)), dotted(oid(2)), nonRepeaters=nr,
        maxRepetitions=mr, timeout=5.0)
    pdu = agent.parse(wire.sent[0])["pdu"]
    check(tuple(pdu[2:4]) == (nr, mr), f"getBulk({nr}, {mr}) asks for {pdu}")

done()
'''
