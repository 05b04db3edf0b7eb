"""a real share keeper or data collector whose tally server and relay are the driver"""
import sys, os, json, hashlib
import sim
from sim import W
import deploy
from deploy import Net, INF
from peers import *
from tor import Tor, FP
from privcount.counter import SecureCounters, counter_modulus
from privcount.crypto import encrypt, decrypt, load_private_key_file, load_public_key_string, \
    get_public_bytes, get_serialized_public_key

T0 = 1000000
NAMES = {'c1': 'ExitStreamCount', 'c2': 'EntryConnectionCount', 'c3': 'ExitStreamByteHistogram'}
BACK = dict((v, k) for k, v in NAMES.items())
BINS = {'c1': [[0.0, INF]], 'c2': [[0.0, INF]], 'c3': [[0.0, 10.0], [10.0, 20.0], [20.0, INF]]}
M = counter_modulus()

def signed(v):
    v %= M
    return v - M if v >= M // 2 else v
def small(v):
    return v if abs(v) < 2 ** 30 else 2 ** 30

class Node(object):
    def __init__(self, base, s):
        W.reset(T0)
        self.kind, cfg = s['kind'], s['cfg']
        conf = {'delay_period': cfg['delay'], 'always_delay': cfg['always'],
                'sigma_decrease_tolerance': cfg['tol'] / 4.0}
        self.net = Net(base, n_sk=3, dc_names=('dc1',), wire=False, sk_conf=conf, dc_conf=conf)
        self.net.dc_conf['dc1']['share_keepers'] = [self.net.sk_names[n] for n in ('sk1', 'sk2')]
        self.net.write_node('dc1')
        self.n = {'sk': 'sk1', 'dc': 'dc1'}[self.kind]
        self.net.run(self.n)
        self.peer = self.tor = None
        self.leak = False
        self.draws, self.k = [], 0
        W.gauss_fn = self.draw
        self.q = None
        self.dropped = False

    def draw(self):
        self.k += 1
        return 4 * 3 ** (self.k - 1)

    def key(self, n):
        return self.net.p(n + '.key')

    def talk(self, line, word):
        '''the reply to a request; whatever else comes must carry no counts'''
        if self.n in W.exits:
            return None
        for _ in range(100):
            if self.peer is not None and not self.peer.closed:
                break
            p = take(self.n)
            if p is None:
                run_until(W.now)
                p = take(self.n)
            if p is None:
                # the node will connect at its next check-in
                W.as_node(self.n, self.net.nodes[self.n].do_checkin)
                p = take(self.n)
            self.peer = p
            if p is not None:
                serve(p)
        self.peer.send(line)
        run_until(W.now)
        out = self.peer.got()
        rep = [l for l in out if l.startswith(word)]
        for l in out:
            if l not in rep[:1] and 'Counts' in l:
                self.leak = True
        return rep[0] if rep else ''

    def start(self, q, i):
        allocs = q['alloc']
        uids = {'exact': {'u1': 'sk1', 'u2': 'sk2'}, 'missing': {'u1': 'sk1'}, 'none': {},
                'extra': {'u1': 'sk1', 'u2': 'sk2', 'u3': 'sk3'}, 'other': {'u1': 'sk1', 'u2': 'sk3'},
                'twice': {'u1': 'sk1', 'u2': 'sk1'}, 'all-twice': {'u1': 'sk1', 'u2': 'sk2', 'u3': 'sk1'}}[q['sks']]
        w = {}
        if q['dflt'] >= 0:
            w['*'] = float(q['dflt'])
        if q['own'] >= 0:
            w[FP] = float(q['own'])
        if not w:
            w['B' * 40] = 1.0
        c = {'counters': dict((NAMES[k], {'bins': BINS[k]}) for k in allocs),
             'noise': {'counters': dict((NAMES[k], {'sigma': allocs[k] / 4.0}) for k in allocs)},
             'noise_weight': w, 'dc_threshold': 1, 'collect_period': 100}
        if not q['valid']:
            how = i % 5
            if how == 0:
                del c['noise_weight']
            elif how == 1:
                c['counters'].values()[0]['bins'] = [[3.0, 1.0]]
            elif how == 2:
                c['noise']['counters'].values()[0]['sigma'] = -1.0
            elif how == 3:
                del c['collect_period']
            else:
                c['dc_threshold'] = 0
        self.peers_ = []
        if self.kind == 'dc':
            c['sharekeepers'] = dict((u, b64encode(get_serialized_public_key(self.key(k)))) for u, k in uids.items())
            c['defer_time'] = float(q['defer'])
        else:
            c['shares'] = []
            mine = load_public_key_string(get_serialized_public_key(self.key('sk1')))
            for j in range(i % 3):
                sc = SecureCounters(dict((NAMES[k], {'bins': BINS[k], 'sigma': 1.0}) for k in allocs), M,
                                    require_generate_noise=False)
                sc.generate_blinding_shares(['u1'])
                sh = sc.detach_blinding_shares()['u1']
                sh['dc_name'] = 'dc%d' % j
                self.peers_.append(sc.detach_counts())
                c['shares'].append((sh, mine))
            if q['badshare']:
                if not c['shares']:
                    del c['shares']
                else:
                    sh = c['shares'][i % len(c['shares'])][0]
                    k = sorted(sh['secret'])[i % len(sh['secret'])]
                    if i % 2:
                        del sh['secret'][k]
                    else:
                        sh['secret'][k]['bins'] = sh['secret'][k]['bins'] + [[5.0, 9.0, 1]]
            for j, (sh, pk) in enumerate(c.get('shares', [])):
                sh['secret'] = encrypt(pk, sh['secret'])
                c['shares'][j] = sh
        rep = self.talk('START ' + json.dumps(c), 'START')
        r = {'ok': bool(rep) and rep.startswith('START SUCCESS'), 'fail': bool(rep) and rep.startswith('START FAIL'),
             'offered': uids, 'shares': {}}
        if r['ok']:
            self.q, self.uids, self.k, self.count = q, uids, 0, dict((k, [0] * len(BINS[k])) for k in allocs)
            self.imports = self.peers_
            if self.kind == 'dc':
                self.secrets = {}
                shares = json.loads(rep.split(' ', 2)[2])
                for u, sh in shares.items():
                    opened = []
                    for k in ('sk1', 'sk2', 'sk3'):
                        try:
                            x = decrypt(load_private_key_file(self.key(k)), sh['secret'])
                            opened.append(k)
                            self.secrets[(u, k)] = x
                        except Exception:
                            pass
                    h = dict((k, hashlib.sha256(json.dumps(self.secrets[(u, k)], sort_keys=True)).hexdigest()[:12]) for k in opened)
                    r['shares'][u] = {'opened': opened, 'hash': sorted(h.values())}
        return r

    def stop(self, send):
        run_for(1)
        self.dropped = False
        was = self.tor is not None and not self.tor.closed
        cfg = {'send_counters': send} if send is not None else {}
        rep = self.talk('STOP ' + json.dumps(cfg), 'STOP')
        r = {'ok': bool(rep) and rep.startswith('STOP SUCCESS'), 'counts': False, 'noise': {}, 'true': {}, 'shape': True, 'alone': False}
        if self.tor is not None:
            self.tor.serve()
        if r['ok']:
            j = json.loads(rep.split(' ', 2)[2])
            r['counts'] = bool(j.get('Counts'))
            if r['counts'] and self.q is not None:
                cnt = j['Counts']
                if set(cnt) != set(NAMES[k] for k in self.q['alloc']) or \
                   any([b[:2] for b in cnt[NAMES[k]]['bins']] != BINS[k] for k in self.q['alloc']):
                    r['shape'] = False
                else:
                    vals = dict((k, [b[2] for b in cnt[NAMES[k]]['bins']]) for k in self.q['alloc'])
                    def total(parts):
                        return dict((k, [small(signed(v[i] + sum(p[k][i] for p in parts))) for i in range(len(v))]) for k, v in vals.items())
                    if self.kind == 'dc':
                        parts = []
                        for u, k in sorted(self.uids.items()):
                            sc = SecureCounters(dict((NAMES[c], {'bins': BINS[c], 'sigma': 1.0}) for c in self.q['alloc']), M,
                                                require_generate_noise=False)
                            sc.import_blinding_share({'secret': self.secrets.get((u, k), {})})
                            parts.append(dict((BACK[n], [b[2] for b in v['bins']]) for n, v in sc.detach_counts().items()))
                        full = total(parts)
                        r['alone'] = any(abs(x) < 2 ** 30 for p in ([parts[:i] + parts[i + 1:] for i in range(len(parts))] + [[]])
                                         for v in total(p).values() for x in v)
                    else:
                        parts = [dict((BACK[n], [b[2] for b in v['bins']]) for n, v in p.items()) for p in self.imports]
                        full = total(parts)
                    r['noise'], r['true'] = full, self.count
        return r

    def state(self):
        '''state as told to the tally server; the control connection'''
        if self.n in W.exits:
            return 'gone', 'none'
        l = self.talk(status_line(), 'STATUS')
        st = json.loads(l.split(' ', 2)[2])['state'] if l else 'gone'
        if self.tor is not None and not self.tor.closed:
            tor = 'up' if self.tor.events and self.tor.enabled else 'mute'
        else:
            tor = 'trying' if [c for c in W.connecting if c.node == self.n and c.dest.port == 30000] else 'none'
        return st, tor

    def connect_tor(self, f):
        if self.tor is not None and not self.tor.closed:
            return False
        for _ in range(60):
            p = take(self.n, 30000)
            if p is not None:
                self.tor = Tor(p, fp=FP if f == 1 else 'C' * 40)
                return True
            if self.n in W.exits or not self.dropped:
                return False
            run_for(1)
        return False

    def refuse(self):
        for c in list(W.connecting):
            if c.node == self.n and c.dest.port == 30000:
                W.as_node(self.n, c.failed)
                self.dropped = True
                return True
        return False

    def drop(self):
        if self.tor is not None:
            self.tor.peer.end.loseConnection()
            self.dropped = True

    def event(self, k):
        if self.tor is None or self.tor.closed:
            return
        b = {1: 4, 2: 15, 3: 90}[k]
        self.tor.event('PRIVCOUNT_STREAM_ENDED', 1, 2, 3, 80, b, 0, W.now - 5, W.now, 'example.com', '192.0.2.1', 1)
        if 'PRIVCOUNT_STREAM_ENDED' in (self.tor.events or []):
            for c in self.count:
                if c == 'c1':
                    self.count[c][0] += 1
                if c == 'c3':
                    self.count[c][k - 1] += 1
