'''Symbolic Fernet: real layout (base64 tokens), authenticity by HMAC, and a
keyed XOR stream: the wrong key or an altered token is refused.'''
from __future__ import absolute_import
import hashlib, hmac as _hmac, os
from base64 import urlsafe_b64encode, urlsafe_b64decode

class InvalidToken(Exception):
    pass

def _stream(key, nonce, n):
    out, i = [], 0
    have = 0
    while have < n:
        b = hashlib.sha512(key + nonce + str(i)).digest()
        out.append(b)
        have += len(b)
        i += 1
    return ''.join(out)[:n]

def _xor(a, b):
    res = []
    for i in range(0, len(a), 64):      # conversions of long numbers are slow
        x, y = a[i:i + 64], b[i:i + 64]
        v = int(x.encode('hex'), 16) ^ int(y.encode('hex'), 16)
        res.append(('%%0%dx' % (2 * len(x)) % v).decode('hex'))
    return ''.join(res)

class Fernet(object):
    def __init__(self, key, backend=None):
        key = urlsafe_b64decode(str(key))
        if len(key) != 32:
            raise ValueError("Fernet key must be 32 url-safe base64-encoded bytes.")
        self._key = key

    @classmethod
    def generate_key(cls):
        return urlsafe_b64encode(os.urandom(32))

    def encrypt(self, data):
        if not isinstance(data, bytes):
            raise TypeError("data must be bytes.")
        nonce = os.urandom(16)
        body = '\x80' + nonce + _xor(data, _stream(self._key, nonce, len(data)))
        mac = _hmac.new(self._key, body, hashlib.sha256).digest()
        return urlsafe_b64encode(body + mac)

    def decrypt(self, token, ttl=None):
        if not isinstance(token, bytes):
            raise TypeError("token must be bytes.")
        try:
            raw = urlsafe_b64decode(token)
        except (TypeError, ValueError):
            raise InvalidToken()
        body, mac = raw[:-32], raw[-32:]
        if len(raw) < 49 or _hmac.new(self._key, body, hashlib.sha256).digest() != mac:
            raise InvalidToken()
        nonce, data = body[1:17], body[17:]
        return _xor(data, _stream(self._key, nonce, len(data)))
