from twisted.internet import reactor as _reactor, defer

class LoopingCall(object):
    def __init__(self, f, *a, **k):
        self.f, self.a, self.k = f, a, k
        self.running, self.call, self._deferred = False, None, None
        self.interval = self.starttime = None
        self.clock = _reactor
    def start(self, interval, now=True):
        assert not self.running, "Tried to start an already running LoopingCall."
        if interval < 0:
            raise ValueError("interval must be >= 0")
        self.running = True
        d = self._deferred = defer.Deferred()
        self.starttime = self.clock.seconds()
        self.interval = interval
        if now:
            self()
        else:
            self._scheduleFrom(self.starttime)
        return d
    def stop(self):
        assert self.running, "Tried to stop a LoopingCall that was not running."
        self.running = False
        if self.call is not None:
            self.call.cancel()
            self.call = None
            d, self._deferred = self._deferred, None
            d.callback(self)
    def reset(self):
        assert self.running
        if self.call is not None:
            self.call.cancel()
            self.call = None
            self.starttime = self.clock.seconds()
            self._scheduleFrom(self.starttime)
    def __call__(self):
        def cb(result):
            if self.running:
                self._scheduleFrom(self.clock.seconds())
            else:
                d, self._deferred = self._deferred, None
                if d is not None:
                    d.callback(self)
        def eb(failure):
            self.running = False
            d, self._deferred = self._deferred, None
            if d is not None:
                d.errback(failure)
        self.call = None
        d = defer.maybeDeferred(self.f, *self.a, **self.k)
        d.addCallback(cb)
        d.addErrback(eb)
    def _scheduleFrom(self, when):
        if self.interval == 0:
            wait = 0
        else:
            wait = self.interval - ((when - self.starttime) % self.interval)
            if when == when + wait:
                wait = self.interval
        self.call = self.clock.callLater(wait, self)

def deferLater(clock, delay, callable=None, *a, **k):
    d = defer.Deferred(lambda _: call.cancel())
    d.addCallback(lambda ignored: callable(*a, **k) if callable is not None else None)
    call = clock.callLater(delay, d.callback, None)
    return d
