PROPERTY = 'M04'
NEEDS = 'an unauthenticated report for a request at noAuthNoPriv, followed by the answer'
BREAKS = 'the forged report ends the request at once'
EDITS = [
    ('snmp/manager/v3.py',
     '                auth = response.header.flags.authFlag\n                self.request.processException(exception, auth)',
     '                auth = not securityLevel < self.request.securityLevel\n                self.request.processException(exception, auth)'),
]
DEMO = r'''
from demolib import *
alice = User(b"alice")
agent = Agent(alice)
engine = Engine()
wire = Wire()
engine.usm.addUser("alice")
m = engine.v3Manager(wire, False)
r = m.get(dotted(OID1), timeout=1.0)
hear(engine, agent.reply(wire.sent[0]))         # discovery
q = agent.parse(wire.sent[-1])
check(q["engine"] == ENGINE, "request sent after discovery")
hear(engine, agent.report(q, "user"))
hear(engine, agent.response(q))
v = wait(r)
check(not isinstance(v, Exception), f"the request ended with {v!r}")

done()
'''
