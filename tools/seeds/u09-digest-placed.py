PROPERTY = 'U09'
NEEDS = 'an engine ID that contains as many zero octets in a row as the digest is long'
BREAKS = 'the digest replaces the zeros of the engine ID instead of those that hold its place'
EDITS = [
    ('snmp/security/usm/implementation.py',
     '''            location = UsmSecurityParameters.findSignature(
                SNMPv3Message.findSecurityParameters(wholeMsg)
            )

            assert user.auth is not None
            signature = user.auth.sign(wholeMsg)
            wholeMsg = location.replace(signature)
''',
     '''            assert user.auth is not None
            signature = user.auth.sign(wholeMsg)
            wholeMsg = wholeMsg.replace(
                msgAuthenticationParameters,
                signature,
                1,
            )
'''),
]
DEMO = r'''
from demolib import *
from snmp.message.v3 import SNMPv3MessageProcessor
for engine in (ENGINE, b"\x80\0\0\0\5" + bytes(12) + b"box"):
    alice = User(b"alice", "sha", b"alicealice")
    agent = Agent(alice, engine=engine)
    e = Engine()
    wire = Wire()
    e.usm.addUser("alice", HmacSha, b"alicealice")
    m = e.v3Manager(wire, False, engineID=engine)
    r = m.get(dotted(OID1), timeout=0.4)
    q = rb.dec_v3(wire.sent[0])
    if q["user"] == b"" or not q["flags"] & 1:
        hear(e, agent.report(agent.parse(wire.sent[0]), "engine"))
    signed = [x for x in wire.sent if rb.dec_v3(x)["flags"] & 1]
    if not signed:
        check(False, "no signed message was sent")
        continue
    raw = signed[0]
    q = rb.dec_v3(raw)
    check(q["engine"] == engine, f"sent to {q['engine']!r}")
    mac = q["auth"]
    at = raw.rindex(mac)
    zeroed = raw[:at] + bytes(len(mac)) + raw[at + len(mac):]
    check(mac == ru.hmac("sha", ru.localized("sha", b"alicealice", engine), zeroed),
        "the digest is not that of the message")
done()
'''
