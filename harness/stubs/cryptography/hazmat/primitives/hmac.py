from __future__ import absolute_import
import hashlib, hmac as _hmac
from cryptography.exceptions import InvalidSignature

class HMAC(object):
    def __init__(self, key, algorithm, backend=None, ctx=None):
        if not isinstance(key, bytes):
            raise TypeError("key must be bytes")
        assert algorithm.name == 'sha256'
        self._h = _hmac.new(key, digestmod=hashlib.sha256)
    def update(self, data):
        if not isinstance(data, bytes):
            raise TypeError("data must be bytes.")
        self._h.update(data)
    def finalize(self):
        return self._h.digest()
    def verify(self, signature):
        if not isinstance(signature, bytes):
            raise TypeError("signature must be bytes.")
        if self._h.digest() != signature:
            raise InvalidSignature("Signature did not match digest.")
