class Failure(object):
    def __init__(self, exc):
        self.value = exc
        self.type = type(exc)
    def getErrorMessage(self):
        return str(self.value)
    def __str__(self):
        return '[Failure %s: %s]' % (self.type.__name__, self.value)

class Deferred(object):
    def __init__(self, canceller=None):
        self.callbacks, self.called, self.result = [], False, None
        self._cancel = canceller
    def addCallbacks(self, cb, eb=None, a=(), k=None, ea=(), ek=None):
        self.callbacks.append((cb, a, k or {}, eb, ea, ek or {}))
        self._run()
        return self
    def addCallback(self, f, *a, **k):
        return self.addCallbacks(f, None, a, k)
    def addErrback(self, f, *a, **k):
        return self.addCallbacks(None, f, (), None, a, k)
    def addBoth(self, f, *a, **k):
        return self.addCallbacks(f, f, a, k, a, k)
    def callback(self, result=None):
        self.called, self.result = True, result
        self._run()
    def errback(self, fail):
        self.called = True
        self.result = fail if isinstance(fail, Failure) else Failure(fail)
        self._run()
    def cancel(self):
        if not self.called and self._cancel:
            self._cancel(self)
    def _run(self):
        while self.called and self.callbacks:
            cb, a, k, eb, ea, ek = self.callbacks.pop(0)
            f, fa, fk = (eb, ea, ek) if isinstance(self.result, Failure) else (cb, a, k)
            if f is None:
                continue
            try:
                self.result = f(self.result, *fa, **fk)
            except Exception as e:
                self.result = Failure(e)

def maybeDeferred(f, *a, **k):
    try:
        r = f(*a, **k)
    except Exception as e:
        d = Deferred()
        d.errback(Failure(e))
        return d
    if isinstance(r, Deferred):
        return r
    d = Deferred()
    d.callback(r)
    return d

def succeed(r):
    d = Deferred()
    d.callback(r)
    return d
