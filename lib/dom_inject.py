'''C11: the event injector's control server'''
import random
import vlib
TRACE = 'InjectTrace'
PROOFS = ['pwhex', 'pwquoted', 'right', 'other', 'mixed', 'earlier', 'reflect', 'badhex', 'oddhex', 'bare', 'empty', 'emptyquoted', 'wrong', 'prefix',
          'longer', 'case', 'zero', 'truncated', 'extended', 'nonces', 'cookie']
AUTHED = ['info', 'info version', 'info privcount-version', 'info address', 'info fingerprint', 'info ns', 'conf', 'conf nickname',
          'conf orport', 'conf dirport', 'conf geoip', 'conf privcount', 'set', 'set privcount', 'set rate', 'set cells', 'set reload', 'tmodel',
          'info unknown', 'conf unknown', 'set unknown', 'junk', '']
KINDS = ['bytes', 'stream', 'circuit', 'conn', 'close', 'cell', 'odd']

def L(k, p=''):
    return {'k': k, 'p': p}

def log(rng):
    n = rng.choice((0, 1, 2, 3, 5, 8))
    t, out = rng.choice((20, 20, 4000)), []
    for _ in range(n):
        t += rng.choice((0, 1, 2, 5, 20, 120))
        out.append({'kind': rng.choice(KINDS[:-1] if rng.random() < .9 else KINDS), 'end': t, 'dur': rng.choice((0, 1, 3, 20))})
    if n > 1 and rng.random() < .3:
        rng.shuffle(out)
    return out

def config(rng, pw=None, ck=None):
    lg = log(rng)
    ends = [e['end'] for e in lg] or [0]
    before, after = 0, 2 ** 30
    if rng.random() < .4:
        before = rng.choice(ends) + rng.choice((-1, 0, 1))
    if rng.random() < .4:
        after = rng.choice(ends) + rng.choice((-1, 0, 1))
    return {'pw': pw or rng.choice(('none', 'none', 'ok', 'ok', 'short', 'long', 'missing')), 'ck': ck or rng.choice(('none', 'none', 'ok', 'ok', 'bad')),
            'pause': rng.random() < .5, 'log': lg, 'before': before, 'after': after}

def proof(rng, cfg):
    '''what gets a client in, if anything does'''
    ways = []
    if cfg['pw'] == 'ok':
        ways += [[L('authenticate', rng.choice(('pwhex', 'pwquoted')))]]
    if cfg['ck'] == 'ok':
        ways += [[L('protocolinfo'), L('challenge', 'ok'), L('authenticate', 'right')]]
    if cfg['pw'] == 'none' and cfg['ck'] == 'none':
        ways += [[L('authenticate', rng.choice(('empty', 'emptyquoted', 'wrong', 'right')))]]
    return list(rng.choice(ways)) if ways else []

def story(rng):
    cfg = config(rng)
    n = rng.choice((1, 2, 2, 3))
    h, todo = [], []
    for i in range(n):
        h.append({'a': 'conn'})
        w = proof(rng, cfg)
        r = rng.random()
        q = []
        if rng.random() < .3:
            q.append(L('protocolinfo'))
        if rng.random() < .2 and cfg['ck'] == 'ok':
            q += [L('protocolinfo'), L('challenge', 'ok')]
        if r < .6:
            q += w
        elif r < .8:
            q += w[:-1] + [L('authenticate', rng.choice(PROOFS))]
        elif r < .9:
            q += [L('challenge', rng.choice(('ok', 'long', 'badhex', 'other')))]
        if rng.random() < .1:
            q.append(L(rng.choice(AUTHED)))
        for _ in range(rng.randint(0, 3)):
            q.append(L(rng.choice(AUTHED)))
        if rng.random() < .7:
            q.append(L('events'))
        for _ in range(rng.randint(0, 3)):
            q.append(L(rng.choice(AUTHED + ['events', 'events', 'events none', 'events unknown', 'quit', 'protocolinfo'])))
        todo.append(q)
    if n > 1 and rng.random() < .3:
        # somebody only watches
        todo[rng.randrange(n)] = []
    while any(todo):
        i = rng.choice([j for j in range(n) if todo[j]])
        ls = [todo[i].pop(0)]
        while todo[i] and rng.random() < .15 and todo[i][0]['p'] not in ('right', 'other', 'mixed', 'earlier', 'reflect', 'nonces', 'cookie', 'truncated', 'extended') \
                and todo[i][0]['k'] != 'challenge':
            ls.append(todo[i].pop(0))
        h.append({'a': 'line', 'c': i + 1, 'ls': ls})
        if rng.random() < .15:
            h.append({'a': 'run', 'd': rng.choice((0.5, 1, 5, 10, 60, 2000))})
        if rng.random() < .04:
            k = rng.randint(1, n)
            h.append({'a': 'lost', 'c': k})
            todo[k - 1] = []
    h.append({'a': 'run'})
    return {'cfg': cfg, 'h': h, 'k': rng.randint(0, 100000)}

def run(ctx):
    ctx.assumptions += ['HMAC-SHA256 is unforgeable (symbolic in the model; a real HMAC in the traces)',
                        'the line framing of twisted.protocols.basic.LineOnlyReceiver is a stand-in']
    def models():
        vlib.model_check(ctx, 'InjectMC', 'InjectMC3.cfg' if ctx.thorough else 'InjectMC.cfg', workers=6 if ctx.thorough else 3)
        vlib.model_check(ctx, 'InjectMC', 'InjectMCVac.cfg', workers=1, expect_violation='Invariant NeverAll is violated')
    vlib.parallel(models, lambda: conformance(ctx))

def conformance(ctx):
    rng = random.Random(ctx.seed)
    gen = vlib.generate(ctx, 'InjectMC', 'InjectGen.cfg')
    rng.shuffle(gen)
    if not ctx.thorough:        # every kind of last step, after every kind of history
        kept, seen = [], {}
        for g in gen:
            x = g['h'][-1]
            y = x['ls'][0] if 'ls' in x else {}
            k = (g['pw'], g['ck'], x['a'], y.get('k'), y.get('p'), len([z for z in g['h'] if z['a'] == 'conn']))
            seen[k] = seen.get(k, 0) + 1
            if seen[k] <= 3:
                kept.append(g)
        gen = kept
    scns = []
    for g in gen:
        cfg = config(rng, g['pw'], g['ck'])
        # the log of the model: two events and one that is out of the window in between
        a, b, c = rng.choice(((20, 200, 30), (20, 4, 30)))
        cfg.update(log=[{'kind': rng.choice(KINDS[:-1]), 'end': e, 'dur': rng.choice((0, 3))} for e in (a, b, c)], before=10, after=100, pause=True)
        h = [({'a': 'run', 'd': d} if x['a'] == 'run' else x) for x, d in zip(g['h'], [0] * len(g['h']))]
        runs = [10, 5]
        for x in h:
            if x['a'] == 'run':
                x['d'] = runs.pop(0) if runs else 100
        scns.append({'cfg': cfg, 'h': h + [{'a': 'run'}], 'kind': 'tlc', 'k': rng.randint(0, 100000)})
    scns += [story(rng) for _ in range(12000 if ctx.thorough else 1500)]
    for i, s in enumerate(scns):
        s['id'] = '%s%d' % (s.pop('kind', 's'), i)
    rng.shuffle(scns)
    traces = vlib.drive(ctx, 'inject', scns, timeout=800)
    vlib.sample_trace(ctx, traces[0], 5)
    vlib.validate(ctx, 'InjectTrace', traces)
