'''Symbolic RSA: a key pair is an identifier; a ciphertext can be opened with
the private half of the pair it was made for, and with nothing else.'''
from __future__ import absolute_import
import hashlib, hmac as _hmac, os
from base64 import b64encode, b64decode
from cryptography.fernet import _stream, _xor

def _pem(kind, ident):
    return "-----BEGIN {0}-----\n{1}\n-----END {0}-----\n".format(kind, b64encode(ident))

def _load(data, cls, kind):
    data = str(data).strip()
    head, tail = "-----BEGIN %s-----" % kind, "-----END %s-----" % kind
    if not (data.startswith(head) and data.endswith(tail)):
        raise ValueError("Could not deserialize key data.")
    try:
        ident = b64decode(data[len(head):-len(tail)].strip())
    except TypeError:
        raise ValueError("Could not deserialize key data.")
    if len(ident) != 16:
        raise ValueError("Could not deserialize key data.")
    return cls(ident)

class _PublicKey(object):
    def __init__(self, ident):
        self._id = ident
    def public_bytes(self, encoding, format):
        assert encoding == 'PEM' and format == 'SubjectPublicKeyInfo'
        return _pem('PUBLIC KEY', self._id)
    def encrypt(self, plaintext, padding):
        if not isinstance(plaintext, bytes):
            raise TypeError("data must be bytes")
        if len(plaintext) > 446:
            raise ValueError("Encryption failed: too long for the key")
        nonce = os.urandom(16)
        body = nonce + _xor(plaintext, _stream(self._id, nonce, len(plaintext)))
        return body + _hmac.new(self._id + repr(padding.args), body, hashlib.sha256).digest()

class _PrivateKey(object):
    def __init__(self, ident):
        self._id = ident
    def public_key(self):
        return _PublicKey(hashlib.md5('pub' + self._id).digest())
    def decrypt(self, ciphertext, padding):
        pub = self.public_key()._id
        body, mac = ciphertext[:-32], ciphertext[-32:]
        if _hmac.new(pub + repr(padding.args), body, hashlib.sha256).digest() != mac:
            raise ValueError("Decryption failed.")
        return _xor(body[16:], _stream(pub, body[:16], len(body) - 16))
    def private_bytes(self, encoding, format, encryption_algorithm):
        return _pem('PRIVATE KEY', self._id)

def generate_private_key(public_exponent, key_size, backend):
    return _PrivateKey(os.urandom(16))
