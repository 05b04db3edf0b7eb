'''C14: counting in bins, modular arithmetic'''
import itertools, random
import vlib
INF, NINF, NAN = 1000000, -1000000, 2000000
BIG = {'B': 1 << 14, 'K': 5}
M70 = 1 << 70

def point_cases():
    '''every bin structure over a few points, and every probe'''
    pts = [NINF, -4, 0, 1, 5, 64, INF]
    probes = [NINF, -5, -4, -3, -1, 0, 1, 2, 4, 5, 6, 63, 64, 65, 900000, INF]
    structs = []
    for k in (3, 4, 5):
        for c in itertools.combinations(pts, k):
            structs.append([[c[i], c[i + 1]] for i in range(k - 1)])
    for c in itertools.combinations(pts, 4):        # with a gap
        structs.append([[c[0], c[1]], [c[2], c[3]]])
        structs.append([[c[2], c[3]], [c[0], c[1]]])   # unsorted
    res = []
    for s in structs:
        ops = [{'op': 'new', 'o': 'a', 'ctrs': {'H': s, 'Other': s, 'N': [[0, INF]]}}]
        for v in probes:
            ops.append({'op': 'inc', 'o': 'a', 'n': 'H', 'v': v, 'inc': 1, 'int': v % 3 == 0})
        ops += [{'op': 'inc', 'o': 'a', 'n': 'H', 'v': NAN, 'inc': 1}, {'op': 'inc', 'o': 'a', 'n': 'N', 'v': 3, 'inc': 1},
                {'op': 'inc', 'o': 'a', 'n': 'Unknown', 'v': 2, 'inc': 5}, {'op': 'inc', 'o': 'a', 'n': 'N', 'v': NAN, 'inc': 7, 'default': True},
                {'op': 'inc', 'o': 'a', 'n': 'N', 'v': NAN, 'inc': 1, 'default': True, 'noinc': True}]
        res.append(dict(BIG, ops=ops, scale=random.Random(len(ops)).choice((1, 2, 8))))
    return res

def sequences(rng, n):
    res = []
    for _ in range(n):
        mod = rng.choice([BIG] * 6 + [{'B': 2, 'K': 1}, {'B': 7, 'K': 1}, {'B': 11, 'K': 1}, {'B': 2, 'K': 10}, {'B': 4, 'K': 35}, {'B': 3, 'K': 1}])
        M = mod['B'] ** mod['K']
        ctrs = {'C': [[0, INF]]}
        if rng.random() < .8:
            ps = sorted(rng.sample(range(-20, 60), rng.randint(2, 4))) + [INF]
            ctrs['H'] = [[a, b] for a, b in zip(ps, ps[1:])]
        if rng.random() < .3:
            ctrs['D_X_Y'] = [[0, INF]]
        dcs = ['d%d' % i for i in range(rng.randint(1, 4))]
        sks = ['s%d' % i for i in range(rng.randint(1, 4))]
        ops = [{'op': 'new', 'o': o, 'ctrs': ctrs} for o in dcs + sks]
        todo = []
        for d in dcs:
            seq = [{'op': 'blind', 'o': d, 'uids': sks}]
            if rng.random() < .1:
                seq.append({'op': 'blind', 'o': d, 'uids': []})
            for _ in range(rng.randint(0, 8)):
                nme = rng.choice(sorted(ctrs) + ['Unknown'])
                big = rng.choice((1, 1, 2, 1000, -1, M - 1, M // 2, -(M // 2), M // 2 - 1, M, M * 3 + 5, 2 ** 53 + 1 if M > 2 ** 60 else 3))
                big = int(float(big))       # increments are whole numbers a float can hold
                single = len(ctrs.get(nme, [])) == 1
                seq.insert(rng.randint(0, len(seq)),
                           {'op': 'inc', 'o': d, 'n': nme, 'v': NAN if single else rng.choice((-21, -20, 0, 3, 59, 60, 61, INF, 17)), 'inc': big})
            if rng.random() < .7:
                seq.insert(rng.randint(0, len(seq)), {'op': 'noise', 'o': d, 'z': [rng.randint(-50, 50) for _ in range(6)]})
            seq.append({'op': 'detach', 'o': d})
            todo.append(seq)
        for s in sks:
            seq = []
            for d in rng.sample(dcs, len(dcs)):
                if rng.random() < .15:
                    seq.append({'op': 'unblind', 'o': s, 'share': d + '/' + s, 'damage': [rng.choice(('drop', 'nobins', 'fewer', 'more', 'short'))]})
                seq.append({'op': 'unblind', 'o': s, 'share': d + '/' + s})
            seq.append({'op': 'detach', 'o': s})
            todo.append(seq)
        # shares exist only once blinded: data collectors first, or interleaved among themselves
        dpart, spart = todo[:len(dcs)], todo[len(dcs):]
        for part in (dpart, spart):
            while any(part):
                q = rng.choice([x for x in part if x])
                ops.append(q.pop(0))
        parts = dcs + sks
        rng.shuffle(parts)
        t = {'op': 'tally', 'parts': parts, 'ctrs': ctrs}
        ops.append(t)
        ops.append(dict(t, damage=[[rng.randint(0, 7), rng.choice(('drop', 'nobins', 'fewer', 'more', 'short'))]]))
        ops.append(dict(t, parts=parts[:-1]))
        res.append(dict(mod, ops=ops))
    return res

def run(ctx):
    rng = random.Random(ctx.seed)
    scns = point_cases() + sequences(rng, 6000 if ctx.thorough else 450)
    for i, s in enumerate(scns):
        s['id'] = 'k%d' % i
    def models():
        for c in ('CountersMC', 'CountersMC3') + (('CountersMC2',) if ctx.thorough else ()):
            vlib.model_check(ctx, 'CountersMC', c + '.cfg', workers=3)
    def conf():
        t = vlib.drive(ctx, 'counters', scns)
        vlib.sample_trace(ctx, t[0], 5)
        vlib.validate(ctx, 'CountersTrace', t)
    vlib.parallel(models, conf)
