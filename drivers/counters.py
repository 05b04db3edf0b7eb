'''C14 (and the arithmetic of C01): drive real SecureCounters objects.
A scenario is a list of operations on named objects; every operation is recorded
together with the counts the object would hand out now.'''
import sys, os, json, copy
import sim
from sim import W
sim.install()
from tracing import Tracer, scenarios, exc_name

INF, NINF, NAN = 1000000, -1000000, 2000000

def real(x, scale):
    '''a point of the specification as a number'''
    if x == INF:
        return float('inf')
    if x == NINF:
        return float('-inf')
    if x == NAN:
        return float('nan')
    return x / float(scale)

class Run(object):
    def __init__(self, tr, scn):
        self.tr, self.scn = tr, scn
        self.B, self.K = scn['B'], scn['K']
        self.M = self.B ** self.K
        self.scale = scn.get('scale', 2)
        self.obj, self.shares, self.out = {}, {}, {}

    def limbs(self, n):
        n, r = long(n), []
        for _ in range(self.K):
            r.append(int(n % self.B))
            n //= self.B
        return r if n == 0 else ['overflow']
    def signed(self, n):
        n = long(n)
        return {'neg': n < 0, 'mag': self.limbs(abs(n))}

    def counts(self, c, f=None):
        '''{name: [count per bin]}'''
        f = f or self.limbs
        if c is None:
            return {}
        return dict((n, [f(b[2]) if len(b) == 3 else [] for b in c[n]['bins']]) for n in c)
    def observe(self, o):
        # through the public interface, on a copy
        return self.counts(copy.deepcopy(self.obj[o]).detach_counts())
    def config(self, ctrs):
        return dict((n, {'sigma': 1.0, 'bins': [[real(l, self.scale), real(u, self.scale)] for l, u in bs]})
                    for n, bs in ctrs.items())

    def do(self, op):
        from privcount.counter import SecureCounters
        k, o = op['op'], op.get('o')
        r = {'e': k, 'o': o or '', 'raised': False}
        try:
            if k == 'new':
                r['ctrs'] = op['ctrs']
                self.obj[o] = SecureCounters(self.config(op['ctrs']), self.M, require_generate_noise=False)
            elif k == 'inc':
                r.update(n=op['n'], v=op['v'], amount=self.limbs(op['inc'] % self.M))
                kw = {'inc': op['inc']}
                if op.get('noinc'):
                    kw = {}
                if op['v'] == NAN and op.get('default'):
                    self.obj[o].increment(op['n'], **kw)
                else:
                    v = real(op['v'], self.scale)
                    if op.get('int') and op['v'] % self.scale == 0 and abs(op['v']) < INF:
                        v = op['v'] // self.scale
                    self.obj[o].increment(op['n'], bin=v, **kw)
            elif k == 'blind':
                self.obj[o].generate_blinding_shares(op['uids'])
                sh = json.loads(json.dumps(self.obj[o].detach_blinding_shares()))
                for u in sh:
                    self.shares[o + '/' + u] = sh[u]
                r['uids'] = op['uids']
                r['shares'] = dict((u, self.counts(sh[u]['secret'])) for u in sh)
            elif k == 'noise':
                W.gauss_log[:] = []
                zs = list(op['z'])
                W.gauss_fn = lambda: float(zs.pop(0)) if zs else 0.0
                self.obj[o].generate_noise(1.0)
                W.gauss_fn = None
            elif k == 'unblind':
                s = copy.deepcopy(self.shares.get(op['share']))
                if s is None:
                    return
                r['share'] = self.counts(s['secret'])
                r['damaged'] = bool(op.get('damage'))
                for d in op.get('damage', ()):
                    damage(s['secret'], d)
                res = self.obj[o].import_blinding_share(s)
                r['ok'] = bool(res)
            elif k == 'detach':
                c = self.obj[o].detach_counts()
                self.out[o] = json.loads(json.dumps(c))
                r['cnt'] = self.counts(c)
                # what is left: nothing
                left = copy.deepcopy(self.obj[o]).detach_counts()
                r['left'] = left is not None
                self.obj.pop(o)
                self.tr.emit(r)
                return
            elif k == 'tally':
                parts = [copy.deepcopy(self.out[p]) for p in op['parts'] if p in self.out]
                r['damaged'] = bool(op.get('damage'))
                r['parts'] = [self.counts(p) for p in parts]
                for i, d in op.get('damage', ()):
                    damage(parts[i % len(parts)], d)
                t = SecureCounters(self.config(op['ctrs']), self.M, require_generate_noise=False)
                r['ctrs'] = op['ctrs']
                r['ok'] = bool(t.tally_counters(parts))
                r['tally'] = self.counts(t.detach_counts(), self.signed) if r['ok'] else {}
                self.tr.emit(r)
                return
        except Exception:
            r['raised'] = True
        if o in self.obj:
            r['cnt'] = self.observe(o)
        else:
            r['cnt'] = {}
        self.tr.emit(r)

def damage(c, d):
    n = sorted(c)[0]
    if d == 'drop':
        c.pop(n)
    elif d == 'nobins':
        c[n].pop('bins')
    elif d == 'fewer':
        c[n]['bins'].pop()
    elif d == 'more':
        c[n]['bins'].append([0.0, 1.0, 0])
    elif d == 'short':
        c[n]['bins'][-1] = c[n]['bins'][-1][:2]
    elif d == 'extra':
        pass

def main():
    tr = Tracer(sys.argv[2])
    for s in scenarios(sys.argv[1]):
        W.reset(seed=hash(s['id']) & 0xffff)
        run = Run(tr, s)
        tr.emit({'e': 'reset', 'scn': s['id'], 'B': s['B'], 'K': s['K']})
        for op in s['ops']:
            run.do(op)
    tr.close()

main()
