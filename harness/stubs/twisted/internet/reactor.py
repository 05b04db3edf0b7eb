from sim import W
def run(*a, **k):
    pass
def stop():
    from twisted.internet.error import ReactorNotRunning
    raise ReactorNotRunning()
def seconds():
    return W.time()
def callLater(delay, f, *a, **k):
    return W.call_later(delay, f, *a, **k)
def connectSSL(host, port, factory, contextFactory=None, timeout=30, bindAddress=None):
    return W.connect('ssl', host, port, factory)
def connectTCP(host, port, factory, timeout=30, bindAddress=None):
    return W.connect('tcp', host, port, factory)
def connectUNIX(address, factory, timeout=30, checkPID=0):
    return W.connect('unix', address, None, factory)
def listenSSL(port, factory, contextFactory=None, backlog=50, interface=''):
    return W.listen('ssl', interface, port, factory)
def listenTCP(port, factory, backlog=50, interface=''):
    return W.listen('tcp', interface, port, factory)
def listenUNIX(address, factory, backlog=50, mode=0o666, wantPID=0):
    return W.listen('unix', address, None, factory)
