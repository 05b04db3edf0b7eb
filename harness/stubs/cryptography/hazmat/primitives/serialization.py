from __future__ import absolute_import
from cryptography.hazmat.primitives.asymmetric import rsa

class Encoding(object):
    PEM = 'PEM'
    DER = 'DER'
class PublicFormat(object):
    SubjectPublicKeyInfo = 'SubjectPublicKeyInfo'
class PrivateFormat(object):
    PKCS8 = 'PKCS8'
class NoEncryption(object):
    pass

def load_pem_private_key(data, password, backend):
    return rsa._load(data, rsa._PrivateKey, 'PRIVATE KEY')

def load_pem_public_key(data, backend):
    return rsa._load(data, rsa._PublicKey, 'PUBLIC KEY')
