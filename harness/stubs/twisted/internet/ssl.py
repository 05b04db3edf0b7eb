class ClientContextFactory(object):
    pass
class DefaultOpenSSLContextFactory(object):
    def __init__(self, privateKeyFileName, certificateFileName, *a, **k):
        open(privateKeyFileName).close()
        open(certificateFileName).close()
