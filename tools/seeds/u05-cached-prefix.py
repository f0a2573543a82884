PROPERTY = 'U05'
NEEDS = 'two messages under one key with the same engine time but different boot counters (OpenSSL backend)'
BREAKS = 'the second is encrypted or decrypted with the boot counter of the first'
EDITS = [
    ('snmp/security/usm/priv/openssl/aes.py',
     '''        return b''.join((
            engineBoots.to_bytes(self.INTSIZE, self.BYTEORDER),
            engineTime .to_bytes(self.INTSIZE, self.BYTEORDER),
            salt
        ))
''',
     '''        if getattr(self, "prefixTime", None) != engineTime:
            self.prefixTime = engineTime
            self.prefix = b''.join((
                engineBoots.to_bytes(self.INTSIZE, self.BYTEORDER),
                engineTime .to_bytes(self.INTSIZE, self.BYTEORDER),
            ))

        return self.prefix + salt
'''),
]
DEMO = r'''
from demolib import *
from snmp.security.usm.priv.openssl.aes import AesCfb128
key = bytes(range(16, 36))
p = AesCfb128(key)
data = b"the quick brown fox jumps over the lazy dog"
for boots, time in ((5, 1000), (5, 1001), (6, 1001), (6, 0), (7, 0)):
    c, salt = p.encrypt(data, boots, time)
    check(ru.aes_decrypt(key[:16], boots, time, salt, c) == data, f"{boots, time}: what a peer decrypts")
    c = ru.aes_encrypt(key[:16], boots, time, salt, data)
    check(p.decrypt(c, boots, time, salt) == data, f"{boots, time}: what a peer encrypted")
done()
'''
