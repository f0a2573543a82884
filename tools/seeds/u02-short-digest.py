PROPERTY = 'U02'
NEEDS = 'a forged message whose digest is a short (even empty) prefix of the right one'
BREAKS = 'a truncated digest is compared as a prefix, so an empty one authenticates anything'
EDITS = [
    ('snmp/security/usm/implementation.py',
     '        if len(securityParameters.signature) != len(padding):',
     '        if len(securityParameters.signature) > len(padding):'),
    ('snmp/security/usm/implementation.py',
     '        stop = start + len(padding)',
     '        stop = start + len(securityParameters.signature)\n        padding = padding[:stop - start]'),
    ('snmp/security/usm/implementation.py',
     '        if user.auth.sign(wholeMsg) != securityParameters.signature:',
     '        if not user.auth.sign(wholeMsg).startswith(\n            securityParameters.signature\n        ):'),
]
DEMO = r'''
from demolib import *
from snmp.security.usm import UserBasedSecurityModule
from snmp.security.usm.priv import AesCfb128, DesCbc
from snmp.message.v3 import SNMPv3Message
from snmp.exception import IncomingMessageError
alice = User(b"alice", "sha", b"alicealice", "aes")
agent = Agent(alice)
usm = UserBasedSecurityModule()
usm.addUser("alice", HmacSha, privProtocol=AesCfb128, secret=b"alicealice")
usm.registerRemoteEngine(ENGINE)
GET = rb.enc_pdu(rb.RESPONSE, 5, 0, 0, [(OID1, ("int", 1))])
def accepts(raw, at=0.0):
    m = SNMPv3Message.decode(raw)
    try:
        usm.processIncoming(m, 1000.0 + at)
        return True
    except IncomingMessageError as e:
        return False

check(accepts(agent.build(1, 1, b"alice", GET)), "a genuine message is accepted")
whole = rb.enc_v3(rb.enc_header(1, 1472, 1, 3), rb.enc_usm(ENGINE, 5, 1000, b"alice", b"", b""),
    rb.enc_scoped(ENGINE, b"", GET))
check(not accepts(whole), "a message without a digest is accepted")

done()
'''
