"""a whole deployment of real nodes; the driver is the network and the relays"""
import os, json
import sim
from sim import W, CLOSE
import deploy
from deploy import Net, INF
from peers import run_until
from tor import Tor
from tsworld import NAMES, BACK, BINS, ms, rel, small, T0

SIGMA = {'c1': 2.0, 'c2': 3.0, 'c3': 5.0}
Z = [0, 1, -2, 4, -7]

class Deployment(object):
    def __init__(self, base, cfg, emit):
        W.reset(T0, cfg.get('seed', 1))
        self.emit, self.cfg = emit, cfg
        self.dcs = ['dc%d' % (i + 1) for i in range(cfg['dcs'])]
        self.sks = ['sk%d' % (i + 1) for i in range(cfg['sks'])]
        alloc = cfg['alloc']
        conf = {'delay_period': 0}
        fps = ['%x' % (i + 10) * 40 for i in range(4)]
        self.fps = [f.upper() for f in fps]
        w = {'*': 1.0}
        for i in range(cfg['weighted']):
            w[self.fps[i]] = i + 2.0
        self.w = [i + 2 if i < cfg['weighted'] else 1 for i in range(4)]
        self.net = Net(base, n_sk=cfg['sks'], dc_names=self.dcs, wire=False, sk_conf=dict(conf), dc_conf=dict(conf), weights=w,
                       counters=dict((NAMES[k], {'bins': BINS[k]}) for k in alloc),
                       sigmas=dict((NAMES[k], {'sigma': SIGMA[k]}) for k in alloc),
                       ts_conf={'collect_period': cfg['period'], 'event_period': 5, 'checkin_period': 5, 'delay_period': 0,
                                'dc_threshold': cfg.get('dcth', cfg['dcs']), 'sk_threshold': cfg.get('skth', cfg['sks'])})
        # every counter's bins in the order they are published
        self.bins = [(k, i) for k in sorted(alloc, key=lambda k: NAMES[k]) for i in range(len(BINS[k]))]
        W.gauss_fn = lambda: Z[int(W.node[2:])] if W.node and W.node[:2] == 'dc' else 1000
        self.tors = {}
        self.seen = set(os.listdir(self.net.p('results')))
        self.alive = {}
        self.tapped = False
        self.install_tap()
        for n in ['ts'] + self.sks + self.dcs:
            self.net.run(n)
        emit({'e': 'reset', 't': rel(), 'dcs': self.dcs, 'calm': bool(cfg.get('calm')), 'zero': [0] * len(self.bins)})

    def noise(self, d):
        i = int(d[2:])
        return [int(Z[i] * self.w[i - 1] * SIGMA[k]) for k, _ in self.bins]

    def install_tap(self):
        me = self
        def write(end, data, old=sim.End.write.__func__ if not hasattr(sim.End, 'plain') else sim.End.plain):
            if not (end.disconnecting or end.disconnected) and end.node is not None:
                me.tap(end, data)
            old(end, data)
        if not hasattr(sim.End, 'plain'):
            sim.End.plain = sim.End.write.__func__
        sim.End.write = write

    def tap(self, end, data):
        '''what a node sends'''
        line = data.rstrip('\r\n')
        other = end.other.node
        if end.node == 'ts' and other in self.dcs and line.startswith('START '):
            self.emit({'e': 'ask', 'd': other, 't': rel()})
        elif end.node in self.dcs and other == 'ts':
            if line.startswith('START SUCCESS'):
                self.emit({'e': 'join', 'd': end.node, 't': rel(), 'noise': self.noise(end.node)})
            elif line.startswith('STOP SUCCESS'):
                j = json.loads(line.split(' ', 2)[2])
                self.emit({'e': 'give', 'd': end.node, 't': rel(), 'n': bool(j.get('Counts'))})

    def link(self, n):
        '''the ends of n's connection to the tally server'''
        for e in W.ends:
            if e.node == n and e.other.node == 'ts':
                return e, e.other
        return None

    def dial(self, n):
        for c in list(W.connecting):
            if c.node == n and c.dest.port == self.net.ts_conf['listen_port']:
                for p in W.ports:
                    if p.node == 'ts':
                        return W.accept(c, p)
        return None

    def serve_tors(self):
        for c in list(W.connecting):
            if c.dest.port >= 30000:
                from peers import Peer
                d = c.node
                self.tors[d] = Tor.__new__(Tor)
                t = self.tors[d]
                t.peer, t.fp, t.auth = _Peer(W.accept_raw(c)), self.fps[int(d[2:]) - 1], 'NULL'
                t.log, t.events, t.enabled, t.authed, t.extra = [], None, False, False, {}
        for _ in range(100):
            busy = [e for e in W.pending() if e.node is None or e.other.node is None]
            for e in busy:
                W.deliver(e)
            for d, t in self.tors.items():
                t.serve()
            if not busy:
                break
        self.outputs()

    def flow(self, n, hold=True):
        '''n and the tally server talk; with hold, until a reply is on its way'''
        for _ in range(60):
            l = self.link(n)
            if l is None:
                return
            c, s = l
            if c.inq and not c.disconnected:
                W.deliver(c)
            elif s.inq and not s.disconnected:
                if hold and s.inq[0] is not CLOSE and (s.inq[0].startswith('START') or s.inq[0].startswith('STOP')):
                    return
                W.deliver(s)
            else:
                return
            self.serve_tors()

    def poll(self, n, hold=True):
        if n in W.exits:
            return
        if self.link(n) is None:
            if self.dial(n) is None:
                W.as_node(n, self.net.nodes[n].do_checkin)
                self.dial(n)
        self.flow(n, hold)

    def lose(self, n):
        l = self.link(n)
        if l:
            W.close(l[0])
            self.serve_tors()

    def crash(self, n):
        W.node_exit(n, 9)
        self.emit({'e': 'drop', 'd': n, 't': rel()})
        self.lose(n)
        t = self.tors.pop(n, None)
        for e in [e for e in W.ends if e.node == n]:
            W.close(e)
        W.timers = [x for x in W.timers if x[2].node != n]
        import heapq
        heapq.heapify(W.timers)
        del W.exits[n]
        self.net.nodes.pop(n)
        self.net.run(n)

    def event(self, d, b):
        self.serve_tors()
        t = self.tors.get(d)
        if t is None or t.peer.end.disconnected:
            return
        size = {0: 4, 1: 15, 2: 90}[b]
        t.peer.send('650 PRIVCOUNT_STREAM_ENDED 1 2 3 80 %d 0 %s %s example.com 192.0.2.1 1' % (size, W.now - 5, W.now))
        self.serve_tors()
        if 'PRIVCOUNT_STREAM_ENDED' in (t.events or []):
            self.emit({'e': 'event', 'd': d, 't': rel(),
                       'inc': [1 if k == 'c1' or (k == 'c3' and i == b) else 0 for k, i in self.bins]})

    def drop_tor(self, d):
        t = self.tors.pop(d, None)
        if t is not None and not t.peer.end.disconnected:
            W.close(t.peer.end)

    def tick(self, d):
        until = W.now + d
        while True:
            n = W.next_timer()
            if n is None or n > until:
                break
            W.now = max(W.now, n)
            while W.run_due():
                pass
            self.serve_tors()
        W.now = until

    def outputs(self):
        d = self.net.p('results')
        new = sorted(set(os.listdir(d)) - self.seen)
        self.seen |= set(new)
        for f in new:
            if not f.startswith('privcount.outcome'):
                continue
            with open(os.path.join(d, f)) as fh:
                t = json.load(fh).get('Tally')
            r = {'e': 'out', 't': rel(), 'tally': t is not None, 'vals': [], 'shape': True, 'zero': 0}
            if t is not None:
                try:
                    r['vals'] = [small(t[NAMES[k]]['bins'][i][2]) for k, i in self.bins]
                    r['zero'] = small(t['ZeroCount']['bins'][0][2])
                    r['shape'] = sum(len(x['bins']) for x in t.values()) == len(self.bins) + 1 and \
                        [t[NAMES[k]]['bins'][i][:2] for k, i in self.bins] == [BINS[k][i] for k, i in self.bins]
                except (KeyError, IndexError):
                    r['shape'], r['vals'] = False, []
            self.emit(r)

class _Peer(object):
    def __init__(self, end):
        self.end = end
    def send(self, *lines):
        self.end.write(''.join(l + '\r\n' for l in lines))
    def got(self):
        d = ''.join(self.end.rx)
        self.end.rx[:] = []
        return [l for l in d.split('\r\n') if l]
    @property
    def closed(self):
        return self.end.disconnected
