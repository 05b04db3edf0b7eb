class SHA256(object):
    name = 'sha256'
    digest_size = 32
    block_size = 64
