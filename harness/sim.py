'''
A deterministic stand-in for the outside world of a PrivCount node: virtual
clock, in-memory connections, seeded randomness.  The scheduler (a driver)
decides which pending delivery or timer happens next.  No PrivCount logic here.
'''
import sys, os, time as _time, heapq, random as _random

class NodeExit(BaseException):
    '''the process of the current node has ended'''
    def __init__(self, code):
        BaseException.__init__(self, code)
        self.code = code

_real_exit = os._exit
real_time = _time.time

class DelayedCall(object):
    def __init__(self, world, when, node, f, a, k):
        self.world, self.when, self.node = world, when, node
        self.f, self.a, self.k = f, a, k
        self.cancelled = self.called = False
    def cancel(self):
        self.cancelled = True
    def active(self):
        return not (self.cancelled or self.called)
    def getTime(self):
        return self.when

CLOSE = object()

class Address(object):
    def __init__(self, host, port):
        self.type, self.host, self.port = 'TCP', host, port
    def __repr__(self):
        return 'Address(%s:%s)' % (self.host, self.port)

class Reason(object):
    def __init__(self, msg):
        self.msg = msg
        self.value = self
    def getErrorMessage(self):
        return self.msg
    def check(self, *a):
        return None
    def __str__(self):
        return self.msg

class End(object):
    '''one end of a connection: the transport given to its protocol'''
    def __init__(self, world, node, addr):
        self.world, self.node, self.addr = world, node, addr
        self.protocol = self.other = self.connector = None
        self.inq = []              # chunks on their way to this end
        self.rx = []               # what a driver-controlled end has received
        self.disconnecting = self.disconnected = False
        self.connected = 1
    # transport interface
    def write(self, data):
        if self.disconnecting or self.disconnected:
            return
        self.other.inq.append(data)
    def writeSequence(self, seq):
        self.write(''.join(seq))
    def loseConnection(self, *a):
        if not self.disconnecting and not self.disconnected:
            self.disconnecting = True
            self.other.inq.append(CLOSE)
    abortConnection = loseConnection
    def getHost(self):
        return self.addr
    def getPeer(self):
        return self.other.addr
    def setTcpKeepAlive(self, x):
        pass
    setTcpNoDelay = setTcpKeepAlive

class Connector(object):
    def __init__(self, world, node, kind, dest, factory):
        self.world, self.node, self.kind = world, node, kind
        self.dest, self.factory = dest, factory
        self.state, self.end = 'disconnected', None
    def getDestination(self):
        return self.dest
    def connect(self):
        if self.state != 'disconnected':
            return
        self.state = 'connecting'
        self.factory.doStart()
        self.factory.startedConnecting(self)
        self.world.connecting.append(self)
        if self.world.on_connect is not None:
            self.world.on_connect(self)
    def stopConnecting(self):
        if self.state == 'connecting':
            self.failed('stopped')
        else:
            from twisted.internet.error import NotConnectingError
            raise NotConnectingError("we're not trying to connect")
    def disconnect(self):
        if self.state == 'connecting':
            self.stopConnecting()
        elif self.state == 'connected' and self.end is not None:
            self.end.loseConnection()
    def failed(self, msg='refused'):
        if self in self.world.connecting:
            self.world.connecting.remove(self)
        self.state = 'disconnected'
        self.factory.clientConnectionFailed(self, Reason(msg))
        if self.state == 'disconnected':
            self.factory.doStop()
    def lost(self, reason):
        self.state, self.end = 'disconnected', None
        self.factory.clientConnectionLost(self, reason)
        if self.state == 'disconnected':
            self.factory.doStop()

class Port(object):
    def __init__(self, world, node, kind, addr, factory):
        self.node, self.kind, self.addr, self.factory = node, kind, addr, factory
        self.world = world
    def stopListening(self):
        if self in self.world.ports:
            self.world.ports.remove(self)
            self.factory.doStop()
    def getHost(self):
        return self.addr

class World(object):
    def __init__(self):
        self.reset(0)

    def reset(self, start=1000000, seed=1):
        self.now = start
        self.seq = 0
        self.timers = []
        self.node = None
        self.ports = []
        self.connecting = []
        self.ends = []
        self.exits = {}           # node -> exit code
        self.errors = []          # (node, text) exceptions that reached the reactor
        self.on_connect = None
        self.rng = _random.Random(seed)
        self.gauss_log = []
        self.gauss_fn = None
        self.next_port = 40000

    # time
    def time(self):
        return float(self.now)
    def call_later(self, delay, f, *a, **k):
        assert delay >= 0, "negative delay"
        c = DelayedCall(self, self.now + delay, self.node, f, a, k)
        self.seq += 1
        heapq.heappush(self.timers, (c.when, self.seq, c))
        return c
    def next_timer(self):
        while self.timers and not (self.timers[0][2].active()
                                   and self.timers[0][2].node not in self.exits):
            heapq.heappop(self.timers)
        return self.timers[0][0] if self.timers else None
    def run_due(self):
        '''run one timer that is due now; False when there is none'''
        when = self.next_timer()
        if when is None or when > self.now:
            return False
        c = heapq.heappop(self.timers)[2]
        c.called = True
        self.as_node(c.node, c.f, *c.a, **c.k)
        return True

    # running code of a node
    def as_node(self, node, f, *a, **k):
        '''call f as node's code; what a reactor does with exceptions'''
        if node in self.exits:
            return None
        old, self.node = self.node, node
        try:
            return f(*a, **k)
        except NodeExit as e:
            self.node_exit(node, e.code)
        except SystemExit as e:
            self.node_exit(node, e.code or 0)
        except Exception as e:
            self.errors.append((node, '%s: %s' % (type(e).__name__, e)))
        finally:
            self.node = old
        return None

    def node_exit(self, node, code):
        self.exits.setdefault(node, code)
        self.ports = [p for p in self.ports if p.node != node]
        self.connecting = [c for c in self.connecting if c.node != node]
        for e in self.ends:
            if e.node == node:
                e.protocol, e.disconnecting = None, True
                e.disconnected = True
                e.inq = []
                if not e.other.disconnected:
                    e.other.inq.append(CLOSE)

    # connections
    def connect(self, kind, host, port, factory):
        c = Connector(self, self.node, kind, Address(host, port), factory)
        c.connect()
        return c
    def listen(self, kind, host, port, factory):
        for p in self.ports:
            if (p.kind, p.addr.port) == (kind, port):
                from twisted.internet.error import CannotListenError
                raise CannotListenError("address in use %s" % port)
        p = Port(self, self.node, kind, Address(host, port), factory)
        self.ports.append(p)
        factory.doStart()
        return p

    def _ends(self, node_a, addr_a, node_b, addr_b):
        a, b = End(self, node_a, addr_a), End(self, node_b, addr_b)
        a.other, b.other = b, a
        self.ends += [a, b]
        return a, b
    def _new_addr(self):
        self.next_port += 1
        return Address('127.0.0.1', self.next_port)

    def accept(self, connector, port):
        '''establish a connection from a node's connector to a node's port'''
        self.connecting.remove(connector)
        c, s = self._ends(connector.node, self._new_addr(), port.node, port.addr)
        self._attach(s, port.factory)
        self._attach(c, connector.factory, connector)
        return c, s
    def accept_raw(self, connector):
        '''establish a node's outgoing connection to the driver: driver's end'''
        self.connecting.remove(connector)
        c, s = self._ends(connector.node, self._new_addr(), None, connector.dest)
        self._attach(c, connector.factory, connector)
        return s
    def dial_raw(self, port):
        '''the driver connects to a node's port: driver's end'''
        c, s = self._ends(None, self._new_addr(), port.node, port.addr)
        self._attach(s, port.factory)
        return c
    def _attach(self, end, factory, connector=None):
        def go():
            if connector is not None:
                connector.state, connector.end = 'connected', end
                end.connector = connector
            p = factory.buildProtocol(end.other.addr)
            if p is None:
                end.loseConnection()
                return
            end.protocol = p
            p.makeConnection(end)
        self.as_node(end.node, go)

    def pending(self):
        return [e for e in self.ends if e.inq and not e.disconnected]
    def deliver(self, end):
        '''deliver the next chunk on its way to this end'''
        chunk = end.inq.pop(0)
        if end.disconnected:
            return
        if chunk is CLOSE:
            self.close(end)
        elif end.node is None:
            end.rx.append(chunk)
        elif end.protocol is not None:
            before = len(self.errors)
            self.as_node(end.node, end.protocol.dataReceived, chunk)
            if len(self.errors) > before and not end.disconnecting:
                end.loseConnection()      # what a reactor does
    def close(self, end):
        for e in (end, end.other):
            if e.disconnected:
                continue
            e.disconnected, e.connected, e.inq = True, 0, []
            if e.node is None:
                continue
            def go(e=e):
                reason = Reason('Connection was closed cleanly.')
                if e.protocol is not None:
                    e.protocol.connectionLost(reason)
                if e.connector is not None:
                    e.connector.lost(reason)
            self.as_node(e.node, go)
        self.ends = [e for e in self.ends if e is not end and e is not end.other]
    def settle(self, limit=100000):
        '''deliver everything that is on its way, oldest connection first'''
        n = 0
        while True:
            p = self.pending()
            if not p:
                return n
            self.deliver(p[0])
            n += 1
            assert n < limit, "endless exchange"

    # randomness
    def urandom(self, n):
        if n == 0:
            return ''
        return ('%%0%dx' % (2 * n) % self.rng.getrandbits(8 * n)).decode('hex')

W = World()

class SystemRandom(_random.Random):
    def __init__(self, *a):
        pass
    def random(self):
        return W.rng.random()
    def getrandbits(self, n):
        return W.rng.getrandbits(int(n))
    def seed(self, *a):
        pass
    jumpahead = seed
    def gauss(self, mu, sigma):
        z = W.gauss_fn() if W.gauss_fn is not None else W.rng.gauss(0, 1)
        W.gauss_log.append((W.node, mu, sigma, z))
        return mu + z * sigma
    normalvariate = gauss

def _exit(code):
    raise NodeExit(code)

def install():
    '''before the first import of privcount'''
    assert 'privcount' not in sys.modules
    import subprocess
    _time.time = W.time
    os.urandom = W.urandom
    os._exit = _exit
    _random.SystemRandom = SystemRandom
    def check_output(*a, **k):
        return '0123456789abcdef\n'
    subprocess.check_output = check_output
    import logging
    if os.environ.get('VERIF_LOG'):
        logging.basicConfig(level=int(os.environ['VERIF_LOG']), stream=sys.stderr)
    else:
        logging.disable(logging.CRITICAL)
    import warnings
    warnings.simplefilter('ignore')
