'''C15: which configurations are accepted'''
import copy, random
import vlib
def n(v, **k): return dict({'t': 'n', 'v': v}, **k)
INF, NINF, NAN = {'t': 'inf'}, {'t': 'ninf'}, {'t': 'nan'}
def o(x): return {'t': 'other', 'x': x}
def L(*xs): return {'t': 'list', 's': list(xs)}
def D(**k): return {'t': 'dict', 'd': k}
def w(u, m=0, **k): return dict({'t': 'w', 'u': u, 'm': m}, **k)

NAMES = {'ExitStreamCount': (1, 1), 'ExitStreamByteCount': (1, 1), 'ExitStreamByteHistogram': (1, 0),
         'ExitStreamLifeTime': (1, 0), 'ExitDomainExactMatchWebInitialStreamCountList': (1, 0),
         'ExitStreamTrafficModelDelayTime': (1, 1), 'EntryConnectionCount': (1, 1),
         'NoSuchCount': (0, 1), 'exitstreamcount': (0, 0), 'NoSuchHistogram': (0, 0), 'ExitStreamCount2': (0, 0)}
KNOWN1 = [k for k, v in NAMES.items() if v == (1, 1)]
KNOWNM = [k for k, v in NAMES.items() if v == (1, 0)]
ONE = L(L(n(0), INF))
MANY = L(L(n(0), n(8)), L(n(8), n(64)), L(n(64), INF))

BINS = [  # (bins, how)
    ONE, MANY, L(L(NINF, n(0)), L(n(0), INF)), L(L(n(0), n(4)), L(n(8), n(12))), L(L(n(8), n(12)), L(n(0), n(4))),
    L(L(n(0), n(4)), L(n(4), n(8)), L(n(8), n(12)), L(n(12), INF)), L(L(NINF, INF)), L(L(n(4), n(8))),
    L(L(n(-8), n(-4)), L(n(-4), n(0))), L(L(n(0, int=1), n(4, int=1)), L(n(4, int=1), INF)),
    # overlapping
    L(L(n(0), n(8)), L(n(7), n(64))), L(L(n(0), n(8)), L(n(0), n(64))), L(L(n(0), INF), L(n(8), INF)), L(L(n(0), n(8)), L(n(0), n(8))),
    L(L(n(0), n(64)), L(n(8), n(16))), L(L(NINF, n(1)), L(n(0), INF)), L(L(n(8), INF), L(n(0), n(9))),
    L(L(n(0), n(4)), L(n(4), n(8)), L(n(2), n(3))), L(L(n(4), n(8)), L(n(6), n(7)), L(n(10), n(12))),
    # inverted or empty
    L(L(n(8), n(8)), L(n(9), n(10))), L(L(n(8), n(0)), L(n(8), n(16))), L(L(INF, n(0)), L(n(1), n(2))), L(L(INF, INF), L(n(0), n(1))),
    L(L(n(0), n(8)), L(INF, INF)), L(L(n(0), NINF), L(n(0), n(4))), L(L(n(1), n(0))), L(L(n(0), n(0))), L(L(NINF, NINF)),
    # not numbers
    L(L(NAN, n(8)), L(n(8), n(16))), L(L(n(0), NAN), L(n(8), n(16))), L(L(n(0), n(8)), L(n(8), NAN)), L(L(NAN, NAN), L(NAN, NAN)), L(L(n(0), NAN)),
    L(L(o('a'), o('b')), L(n(0), n(1))), L(L(n(0), o('8')), L(n(8), n(9))), L(L(o(None), n(8)), L(n(8), n(9))), L(L(n(0), o([1])), L(n(9), n(10))),
    L(L(n(0), o('inf'))), L(L(o(None), o(None))),
    # not bins
    L(), L(L()), L(L(n(0))), L(L(n(0)), L(n(1), n(2))), L(L(n(0), n(8)), L()), L(n(0), n(8)), L(o('a'), o('b')), L(o(None)), o(None), o(5), o('ab'),
    L(L(n(0), n(8)), o(None)), L(L(n(0), n(8)), D()), D(), L(L(n(0), n(8), n(9)), L(n(9), n(10), n(11))),
]
SIGMAS = [n(0), n(4), n(1), n(4000), n(8, int=1), n(0, int=1), n(-1), n(-4, int=1), NAN, INF, NINF, o('2.0'), o(None), o([1]), o('x'), D()]
WEIGHTS = [
    (D(**{'*': w(0, 1)}), n(4)), (D(**{'*': w(1)}), n(4)), (D(**{'*': w(0)}), n(8)), (D(A=w(1)), n(4)), (D(A=w(1)), n(8)), (D(A=w(1), B=w(2)), n(8)),
    (D(**{'*': w(1), 'A': w(2)}), n(4)), (D(**{'*': w(1), 'A': w(2)}), n(40)), (D(**{'*': w(51)}), n(40)), (D(**{'*': w(52)}), n(40)),
    (D(**{'*': w(51), 'A': w(2)}), n(40)), (D(**{'*': w(51), 'A': w(1)}), n(40)), (D(**{'*': w(50), 'A': w(12)}), n(40)),
    (D(A=w(511)), n(4)), (D(A=w(512)), n(4)), (D(A=w(512, -1)), n(4)), (D(A=w(513)), n(4)), (D(A=w(256), B=w(256)), n(4)), (D(A=w(256), B=w(255)), n(4)),
    (D(A=w(256, int=1), B=w(256, -1)), n(4)), (D(A=w(-1)), n(4)), (D(A=w(0, -1)), n(4)), (D(A=w(-1), B=w(5)), n(4)), (D(**{'*': w(0, -1), 'A': w(2)}), n(4)),
    (D(A=w(600), B=w(-100)), n(4)), (D(A=NAN), n(4)), (D(**{'*': NAN}), n(4)), (D(A=INF), n(4)), (D(A=NINF), n(4)), (D(**{'*': NAN, 'A': w(1)}), n(4)),
    (D(A=o('1.0')), n(4)), (D(A=o(None)), n(4)), (D(**{'*': o(None)}), n(4)), (D(A=o([])), n(4)), (D(), n(4)), (o(None), n(4)), (o([]), n(4)), (o('*'), n(4)), (o(1), n(4)),
    (D(**{'*': w(0, 1)}), n(0)), (D(**{'*': w(0, 1)}), n(-4)), (D(**{'*': w(0)}), n(4000000)), (D(**{'*': w(0)}), n(4000004)), (D(**{'*': w(0)}), NAN), (D(**{'*': w(0)}), INF),
    (D(**{'*': w(0)}), o('2')), (D(**{'*': w(0)}), o(None)), (D(**{'*': w(0)}), o([1])), (D(**{'*': w(1)}), n(2044)), (D(**{'*': w(1)}), n(2048)), (D(**{'*': w(1)}), n(2052)),
    (D(**{'*': w(1)}), n(4, int=1)), (D(**{'*': w(1), 'A': w(1)}), n(2044)), (D(A=w(1), B=w(1), C=w(1)), n(12)), (D(A=w(1), B=w(1), C=w(1)), n(16)),
]

def base(node):
    r = D(counters=D(ExitStreamCount=D(bins=ONE), ExitStreamByteHistogram=D(bins=MANY)),
          noise=D(counters=D(ExitStreamCount=D(sigma=n(4)), ExitStreamByteHistogram=D(sigma=n(8)))),
          noise_weight=D(**{'*': w(0, 1)}), dc_threshold=n(4, int=1), collect_period=n(400))
    if node == 'sk':
        r['d']['shares'] = o([])
    elif node == 'dc':
        r['d']['sharekeepers'] = o({})
    return copy.deepcopy(r)

def mutants(node):
    res = []
    def add(r):
        res.append(r)
    add(base(node))
    for b in BINS:
        for name in ('ExitStreamCount', 'ExitStreamByteHistogram'):
            r = base(node)
            r['d']['counters']['d'][name] = D(bins=b)
            add(r)
    for s in SIGMAS:
        r = base(node)
        r['d']['noise']['d']['counters']['d']['ExitStreamByteHistogram'] = D(sigma=s)
        add(r)
    for ww, t in WEIGHTS:
        r = base(node)
        r['d']['noise_weight'], r['d']['dc_threshold'] = ww, t
        add(r)
    # missing parts
    for k in list(base(node)['d']):
        r = base(node); r['d'].pop(k); add(r)
    for k in ('counters', 'noise'):
        for x in (o(None), o(5), o('x'), o([]), L(), D()):
            r = base(node); r['d'][k] = x; add(r)
            if k == 'noise':
                r = base(node); r['d'][k]['d']['counters'] = x; add(r)
    for path in (('counters',), ('noise', 'counters')):
        for x in (D(), D(other=n(4)), o(None), o(5), o('bins'), o([]), o('sigma')):
            r = base(node)
            c = r
            for p in path:
                c = c['d'][p]
            c['d']['ExitStreamCount'] = x
            add(r)
        r = base(node)
        c = r
        for p in path:
            c = c['d'][p]
        c['d'].pop('ExitStreamCount')
        add(r)
    # both at once, names
    for name, (k, s) in NAMES.items():
        for b in (ONE, MANY):
            r = base(node)
            r['d']['counters']['d'][name] = D(bins=b)
            r['d']['noise']['d']['counters']['d'][name] = D(sigma=n(4))
            add(r)
        r = base(node); r['d']['noise']['d']['counters']['d'][name] = D(sigma=n(4)); add(r)
        r = base(node); r['d']['counters']['d'][name] = D(bins=ONE if s else MANY); add(r)
    # extra keys in a counter are tolerated
    r = base(node)
    r['d']['counters']['d']['ExitStreamCount']['d']['estimated_value'] = n(4)
    r['d']['noise']['d']['counters']['d']['ExitStreamCount']['d']['sensitivity'] = o('x')
    add(r)
    if node == 'ts':
        # top level values that are not there at all in a file
        res = [r for r in res if r['t'] == 'dict']
    return copy.deepcopy(res)

def randoms(rng, node, k):
    res = []
    for _ in range(k):
        r = base(node)
        cs, ns = {}, {}
        for name in rng.sample(sorted(NAMES), rng.randint(1, 3)) if rng.random() < .3 else rng.sample(KNOWN1 + KNOWNM, rng.randint(1, 4)):
            single = NAMES[name][1]
            if rng.random() < .75:
                if single:
                    b = L(L(n(0), INF))
                else:
                    ps = sorted(rng.sample(range(-8, 40), rng.randint(3, 6)))
                    bs = [L(n(a), n(c)) for a, c in zip(ps, ps[1:])]
                    if rng.random() < .3: bs.pop(rng.randrange(len(bs)))
                    if rng.random() < .5: rng.shuffle(bs)
                    if rng.random() < .35:
                        i = rng.randrange(len(bs)); j = rng.randrange(2)
                        bs[i]['s'][j] = n(bs[i]['s'][j]['v'] + rng.choice((-3, -1, 1, 3)))
                    b = L(*bs)
            else:
                b = rng.choice(BINS)
            cs[name] = D(bins=b)
            ns[name] = D(sigma=rng.choice(SIGMAS) if rng.random() < .12 else n(rng.randint(0, 30)))
        if rng.random() < .1: cs.pop(sorted(cs)[0])
        if rng.random() < .1: ns.pop(sorted(ns)[0])
        r['d']['counters'], r['d']['noise'] = D(**cs), D(counters=D(**ns))
        if rng.random() < .3:
            r['d']['noise_weight'], r['d']['dc_threshold'] = rng.choice(WEIGHTS)
        res.append(copy.deepcopy(r))
    return res

def run(ctx):
    rng = random.Random(ctx.seed + 15)
    scns = []
    for node in ('sk', 'dc', 'ts'):
        q = {'sk': 250, 'dc': 250, 'ts': 40}[node]
        part = mutants(node) + randoms(rng, node, q * (12 if ctx.thorough else 1))
        names = dict((k, {'known': bool(a), 'single': bool(b)}) for k, (a, b) in NAMES.items())
        part = [{'id': '%s%d' % (node, i), 'node': node, 'names': names, 'req': r} for i, r in enumerate(part)]
        scns.append(part)
    ctx.assumptions.append('authenticated peers speak the protocol; a counter configuration that is accepted is stopped again before the next one')
    # client cases together, server cases together: each kind keeps its nodes
    def models():
        vlib.model_check(ctx, 'ConfigMC', 'ConfigMC3.cfg' if ctx.thorough else 'ConfigMC.cfg')
        vlib.model_check(ctx, 'ConfigMC', 'ConfigMCW.cfg')
        vlib.model_check(ctx, 'ConfigMC', 'ConfigMCWVac.cfg', expect_violation='WeightsVac is violated')
    traces = vlib.parallel(models, lambda: vlib.drive(ctx, 'config', scns[0] + scns[1], jobs=4), lambda: vlib.drive(ctx, 'config', scns[2], jobs=4, tag='ts'))
    traces = traces[1] + traces[2]
    vlib.sample_trace(ctx, traces[0], 3)
    vlib.validate(ctx, 'ConfigTrace', traces)
