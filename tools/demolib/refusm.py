"""Independent reference USM cryptography (RFC 3414, RFC 3826, RFC 7860)."""
import hashlib
from functools import lru_cache
from Crypto.Cipher import AES, DES

# name -> (hash name, block size, digest size, truncated length)
AUTH = {
    "md5":    ("md5", 64, 16, 12),
    "sha":    ("sha1", 64, 20, 12),
    "sha224": ("sha224", 64, 28, 16),
    "sha256": ("sha256", 64, 32, 24),
    "sha384": ("sha384", 128, 48, 32),
    "sha512": ("sha512", 128, 64, 48),
}

def _h(name, data):
    return hashlib.new(AUTH[name][0], data).digest()

@lru_cache(maxsize=None)
def password_to_key(name, password):
    """RFC 3414 A.2: hash the password repeated to exactly 1048576 octets."""
    total = 1 << 20
    data = (password * (total // len(password) + 1))[:total]
    return _h(name, data)

def localize(name, key, engine):
    return _h(name, key + engine + key)

@lru_cache(maxsize=None)
def localized(name, password, engine):
    return localize(name, password_to_key(name, password), engine)

def hmac(name, key, data):
    """RFC 2104, from the definition; truncated to the USM length."""
    _, block, _, n = AUTH[name]
    if len(key) > block:
        key = _h(name, key)
    key = key + bytes(block - len(key))
    inner = _h(name, bytes(k ^ 0x36 for k in key) + data)
    return _h(name, bytes(k ^ 0x5c for k in key) + inner)[:n]

def aes_iv(boots, time, salt):
    return boots.to_bytes(4, "big") + time.to_bytes(4, "big") + salt

def _aes_cfb(key, iv, data, decrypt):
    """CFB128 built from raw AES blocks."""
    ecb = AES.new(key[:16], AES.MODE_ECB)
    out = bytearray()
    reg = iv
    for i in range(0, len(data), 16):
        chunk = data[i:i + 16]
        stream = ecb.encrypt(reg)
        res = bytes(a ^ b for a, b in zip(chunk, stream))
        out += res
        reg = chunk if decrypt else res
    return bytes(out)

def aes_encrypt(key, boots, time, salt, data):
    return _aes_cfb(key, aes_iv(boots, time, salt), data, False)

def aes_decrypt(key, boots, time, salt, data):
    return _aes_cfb(key, aes_iv(boots, time, salt), data, True)

def des_iv(key, salt):
    return bytes(a ^ b for a, b in zip(key[8:16], salt))

def des_encrypt(key, salt, data):
    ecb = DES.new(key[:8], DES.MODE_ECB)
    prev = des_iv(key, salt)
    out = bytearray()
    for i in range(0, len(data), 8):
        prev = ecb.encrypt(bytes(a ^ b for a, b in zip(data[i:i + 8], prev)))
        out += prev
    return bytes(out)

def des_decrypt(key, salt, data):
    ecb = DES.new(key[:8], DES.MODE_ECB)
    prev = des_iv(key, salt)
    out = bytearray()
    for i in range(0, len(data), 8):
        block = data[i:i + 8]
        out += bytes(a ^ b for a, b in zip(ecb.decrypt(block), prev))
        prev = block
    return bytes(out)
