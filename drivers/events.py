'''C16-C20: a real data collector counts the events of a relay'''
import sys, os
from nodes import *
from tracing import Tracer, scenarios
from privcount.match import suffix_match_prepare_collection
import json as _json

TOP = 2000000000
PIECES = dict((n, 'PRIVCOUNT_' + n) for n in ('STREAM_ENDED', 'CIRCUIT_CLOSE', 'CONNECTION_CLOSE', 'HSDIR_CACHE_STORE',
                                               'HSDIR_CACHE_FETCH', 'CIRCUIT_CELL', 'STREAM_BYTES_TRANSFERRED',
                                               'CIRCUIT_ENDED', 'CONNECTION_ENDED', 'VITERBI_PACKETS', 'VITERBI_STREAMS'))

class Zeros(object):
    def getrandbits(self, n):
        return 0
    def random(self):
        return 0.0

class DC(object):
    def __init__(self, base, s):
        W.reset(T0)
        self.s = s
        conf = {'delay_period': 0, 'rotate_period': s['period']}
        self.net = Net(base, n_sk=1, dc_names=('dc1',), wire=False, dc_conf=conf)
        W.gauss_fn = lambda: 0
        self.net.run('dc1')
        self.peer = self.tor = None

    def talk(self, line):
        for _ in range(20):
            if self.peer is not None and not self.peer.closed:
                break
            run_until(W.now)
            self.peer = take('dc1')
            if self.peer is None:
                W.as_node('dc1', self.net.nodes['dc1'].do_checkin)
                self.peer = take('dc1')
            if self.peer is not None:
                serve(self.peer)
        self.peer.send(line)
        run_until(W.now)
        out = self.peer.got()
        return [l for l in out if l.startswith(line.split(' ')[0])][0]

    def start(self, cs):
        def edge(e, scale):
            return -INF if e <= -TOP else INF if e >= TOP else e / scale
        self.cs = cs
        bins = dict((c['n'], {'bins': [[edge(x, c['s']) for x in b] for b in c['b']]}) for c in cs)
        c = {'counters': bins, 'noise': {'counters': dict((n, {'sigma': 1.0}) for n in bins)},
             'noise_weight': {'*': 1.0}, 'dc_threshold': 1, 'collect_period': 100,
             'sharekeepers': {'u1': b64encode(get_serialized_public_key(self.net.p('sk1.key')))}}
        L = self.s['raw']
        tree = {}
        for i, l in enumerate(L['suf']):
            tree = suffix_match_prepare_collection(l, separator='.', existing_suffixes=tree, collection_tag=i)[0]
        for k, n in (('dom', 'domain_lists'), ('country', 'country_lists'), ('store', 'hsdir_store_lists'),
                     ('fetch', 'hsdir_fetch_lists'), ('fail', 'circuit_failure_lists'), ('onion', 'onion_address_lists')):
            if L[k]:
                c[n] = L[k]
        if tree:
            c['domain_suffixes'] = tree
        if L['as']:
            c['as_data'] = {'lists': L['as'], 'prefix_maps': L['maps']}
        old, W.rng = W.rng, Zeros()
        rep = self.talk('START ' + _json.dumps(c))
        W.rng = old
        self.connect()
        return rep.startswith('START SUCCESS')

    def connect(self):
        for _ in range(4000):     # each attempt waits twice as long as the one before
            run_until(W.now)
            p = take('dc1', 30000)
            if p is not None:
                self.tor = Tor(p)
                self.tor.serve()
                return True
            run_for(1)
        return False

    def event(self, name, text):
        t = self.tor
        if t is None or t.closed:
            return False
        name = PIECES.get(name, 'PRIVCOUNT_' + name)
        if name in (t.events or []):
            t.peer.send(('650 ' + name + text).encode('latin-1'))
            t.serve()
        return t.closed

    def stop(self):
        rep = self.talk('STOP ' + _json.dumps({'send_counters': True}))
        if self.tor is not None:
            self.tor.serve()
        j = _json.loads(rep.split(' ', 2)[2]).get('Counts') or {}
        return [[small(signed(b[2])) for b in j[c['n']]['bins']] if c['n'] in j else [] for c in self.cs]

def now():
    return int(W.now) * 10

def main():
    tr = Tracer(sys.argv[2])
    for s in scenarios(sys.argv[1]):
        n = DC(os.path.join(deploy.scratch(), 'n'), s)
        i = s['id']
        tr.emit({'e': 'reset', 'scn': i, 'L': s['L'], 'mode': s['mode']})
        for a in s['acts']:
            k = a['a']
            if k == 'start':
                ok = n.start(a['c'])
                tr.emit({'e': 'round', 'scn': i, 'ok': ok, 't': now(), 'period': s['period'] * 10,
                         'c': [{'n': c['n'], 'b': c['b'], 'p': c['p']} for c in a['c']]})
                if not ok:
                    break
            elif k == 'ev':
                cut = n.event(a['n'], a['x'])
                tr.emit({'e': 'ev', 'scn': i, 't': now(), 'n': a['n'], 'i': a['i'], 'cut': bool(cut)})
            elif k == 'wait':
                run_for(a['d'])
                if n.tor is not None:
                    n.tor.serve()
                tr.emit({'e': 'wait', 'scn': i, 't': now()})
            elif k == 'drop':
                if n.tor is not None and not n.tor.closed:
                    W.close(n.tor.peer.end)
                    run_until(W.now)
                up = n.connect()
                tr.emit({'e': 'again', 'scn': i, 't': now(), 'up': up})
            elif k == 'stop':
                run_for(1)      # a round lasts some time
                got = n.stop()
                tr.emit({'e': 'stop', 'scn': i, 't': now(), 'got': got})
            if 'dc1' in W.exits:
                tr.emit({'e': 'gone', 'scn': i, 't': now()})
                break
    tr.close()

main()
