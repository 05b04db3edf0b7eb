'''C21: list files, loaded by a real tally server, used by a real data collector'''
import sys, os, json, shutil
from nodes import *
from tsworld import Ts, time_iso
from tracing import Tracer, scenarios

TOP = 2000000000
COUNTERS = {'exa': 'ExitDomainExactMatchWebInitialStreamCountList', 'suf': 'ExitDomainSuffixMatchWebInitialStreamCountList',
            'country': 'EntryConnectionCountryMatchCountList', 'as': 'EntryConnectionASMatchCountList',
            'store': 'HSDir2StoreReasonCountList', 'fetch': 'HSDir2FetchReasonCountList', 'fail': 'ExitFailureCircuitReasonCountList',
            'onion': 'HSDir2StoreOnionAddressCountList', 'onionf': 'HSDir2FetchOnionAddressCountList'}
FILES = {'dom': 'domain_files', 'country': 'country_files', 'as': 'as_files', 'store': 'hsdir_store_files', 'fetch': 'hsdir_fetch_files',
         'fail': 'circuit_failure_files', 'onion': 'onion_address_files'}

class Lists(Ts):
    emit = staticmethod(lambda r: None)
    def __init__(self, base, v, s, names):
        self.v, self.s, self.names = v, s, names
        self.put(s)
        Ts.__init__(self, base, {})

    def put(self, s):
        for f in s['files']:
            p = os.path.join(self.names, f['n'])
            if f['x'] is None:
                if os.path.exists(p):
                    os.remove(p)
            else:
                deploy.write(p, f['x'].encode('latin-1'))

    def conf(self, c):
        s, t = self.s, {}
        for k in FILES:
            if s['use'].get(k) is not None:
                t[FILES[k]] = [os.path.join(self.names, str(n)) for n in s['use'][k]]
        if s['maps'] is not None:
            t['as_prefix_files'] = dict((int(v), os.path.join(self.names, str(n))) for v, n in s['maps'].items())
        if s['rej'] is not None:
            t['reject_overlapping_lists'] = s['rej']
        return dict(counters=dict((n, {'bins': [[0.0, 1.0], [1.0, INF]]}) for n in COUNTERS.values()),
                    sigmas=dict((n, {'sigma': 1.0}) for n in COUNTERS.values()),
                    ts_conf=dict({'sk_threshold': 1, 'dc_threshold': 1, 'collect_period': 20 + self.v, 'event_period': 5, 'checkin_period': 5,
                                  'delay_period': 0, 'continue': True}, **t))

    def version(self, v, s):
        self.v, self.s = v, s
        self.put(s)
        x = self.conf({})
        keep = dict((k, self.net.ts_conf[k]) for k in self.net.ts_conf if k not in x['ts_conf'] and k not in FILES.values()
                    and k not in ('as_prefix_files', 'reject_overlapping_lists'))
        self.net.ts_conf = dict(keep, **x['ts_conf'])
        self.net.write_ts()

    def until(self, done):
        for _ in range(12):
            for u in ('k1', 'd1'):
                q = self.status(u, u)
                if q['k'] in ('startsk', 'startdc', 'stop'):
                    self.answer(u, u, q)
                    self.deliver(u, u)
                    # the next status comes on the next connection
                    self.lose(u)
            if done():
                return True
            run_for(5)
            if not alive():
                return False
        return False

    def round(self):
        '''a round; which version of the configuration is it for?'''
        self.start_conf = {}
        if not self.until(lambda: 'd1' in self.start_conf):
            return -1, None
        c = self.start_conf['d1']
        v = int(c['collect_period']) - 20
        run_for(c['collect_period'])
        self.until(lambda: not self.own.get('d1') and not self.own.get('k1'))
        return v, c

class Zeros(object):
    def getrandbits(self, n):
        return 0
    def random(self):
        return 0.0

def count(base, c, probes):
    '''what a data collector counts that is given START c and the events'''
    W.reset(T0)
    net = Net(base, n_sk=1, dc_names=('dc1',), wire=False, dc_conf={'delay_period': 0})
    W.gauss_fn = lambda: 0
    net.run('dc1')
    peer = take('dc1')
    serve(peer)
    def talk(line):
        peer.send(line)
        run_until(W.now)
        return [l for l in peer.got() if l.startswith(line.split(' ')[0])][0]
    c = dict(c, sharekeepers={'u1': b64encode(get_serialized_public_key(net.p('sk1.key')))})
    old, W.rng = W.rng, Zeros()
    talk('START ' + json.dumps(c))
    W.rng = old
    tor = None
    for _ in range(100):
        run_until(W.now)
        p = take('dc1', 30000)
        if p is not None:
            tor = Tor(p)
            tor.serve()
            break
        run_for(1)
    for n, x in probes:
        tor.peer.send(str('650 PRIVCOUNT_' + n + x))
        tor.serve()
    run_for(1)
    peer2 = take('dc1')
    if peer2 is not None:
        peer = peer2
        serve(peer)
    j = json.loads(talk('STOP ' + json.dumps({'send_counters': True})).split(' ', 2)[2]).get('Counts') or {}
    return dict((n, [small(signed(b[2])) for b in j[n]['bins']]) for n in j)

def alive():
    return 'ts' not in W.exits and any(p.node == 'ts' for p in W.ports)

def edge(e):
    return TOP if e == INF else int(e)

def main():
    tr = Tracer(sys.argv[2])
    base = deploy.scratch()
    for s in scenarios(sys.argv[1]):
        i = s['id']
        tr.emit({'e': 'reset', 'scn': i})
        names = os.path.join(base, 'lists')
        if os.path.isdir(names):
            shutil.rmtree(names)
        os.makedirs(names)
        ts, got = None, []
        for v, x in enumerate(s['versions']):
            v += 1
            fresh = ts is None
            if fresh:
                try:
                    ts = Lists(os.path.join(base, 'n'), v, x, names)
                except Exception as e:      # a traceback instead of a message: it did not start
                    if 'ts' in [p.node for p in W.ports]:
                        raise
            else:
                ts.version(v, x)
                run_for(6)
            up, f, c = alive(), -1, None
            if up:
                f, c = ts.round()
                up = alive()
            tr.emit({'e': 'cfg', 'scn': i, 'v': v, 'cfg': x['cfg'], 'fresh': fresh, 'up': up, 'force': f})
            if up and f == v:
                got.append((v, c))
            if not up:
                ts = None
        for v, c in got:
            x = s['versions'][v - 1]
            n = count(os.path.join(base, 'm'), c, x['events'])
            for k in sorted(x['probes']):
                kk = 'onion' if k == 'onionf' else k
                nm = COUNTERS[k]
                tr.emit({'e': 'round', 'scn': i, 'v': v, 'k': kk, 'b': [[edge(lo), edge(hi)] for lo, hi in [b[:2] for b in c['counters'][nm]['bins']]],
                         'got': n.get(nm, []), 'probes': x['probes'][k]})
    tr.close()

main()
