class UnsupportedAlgorithm(Exception):
    pass
class InvalidSignature(Exception):
    pass
class InvalidTag(Exception):
    pass
class InvalidKey(Exception):
    pass
