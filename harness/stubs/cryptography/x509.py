'''Just enough of x509 to write a placeholder certificate'''
OID_COMMON_NAME = 'CN'
class Name(object):
    def __init__(self, a): pass
class NameAttribute(object):
    def __init__(self, a, b): pass
class BasicConstraints(object):
    def __init__(self, ca, path_length): pass
class _Cert(object):
    def public_bytes(self, encoding):
        return "-----BEGIN CERTIFICATE-----\nstub\n-----END CERTIFICATE-----\n"
class CertificateBuilder(object):
    def _same(self, *a, **k):
        return self
    subject_name = issuer_name = not_valid_before = not_valid_after = _same
    serial_number = public_key = add_extension = _same
    def sign(self, private_key, algorithm, backend):
        return _Cert()
