'''C01, C02: whole deployments, from the relays' events to the published tally'''
import random
import vlib

TRACE = 'RoundTrace'

def config(rng):
    c = {'dcs': rng.choice([1, 2, 2, 3, 4]), 'sks': rng.choice([1, 2, 2, 3]), 'period': rng.choice([15, 20, 30]),
         'alloc': rng.choice([['c1'], ['c1', 'c3'], ['c1', 'c2', 'c3'], ['c3']]), 'weighted': 0, 'seed': rng.randint(1, 10 ** 6)}
    c['weighted'] = rng.randint(0, c['dcs'])
    if rng.random() < .3:
        c['dcth'] = rng.randint(1, c['dcs'])
        c['skth'] = rng.randint(1, c['sks'])
    return c

def story(rng, calm=None):
    cfg = config(rng)
    calm = rng.random() < .2 if calm is None else calm
    cfg['calm'] = calm
    rate = 0 if calm else rng.choice([0, .04, .1, .25])
    dcs = ['dc%d' % (i + 1) for i in range(cfg['dcs'])]
    sks = ['sk%d' % (i + 1) for i in range(cfg['sks'])]
    acts = []
    for turn in range(rng.randint(14, 34)):
        us = dcs + sks
        rng.shuffle(us)
        held = []
        for u in us:
            x = rng.random()
            if x < rate:
                continue
            if x < rate * 2 or (not calm and rng.random() < .15):
                acts.append({'a': 'poll', 'u': u})
                held.append(u)
            else:
                acts.append({'a': 'talk', 'u': u})
            if rng.random() < rate / 2:
                acts.append({'a': 'lose', 'u': u})
            if rng.random() < rate / 8:
                acts.append({'a': 'crash', 'u': u})
            if rng.random() < rate / 2:
                acts.append({'a': 'tor', 'u': rng.choice(dcs)})
            for _ in range(rng.choice([0, 0, 1, 2])):
                acts.append({'a': 'event', 'u': rng.choice(dcs), 'b': rng.choice([0, 1, 2])})
        rng.shuffle(held)
        for u in held:
            if rng.random() < .7:
                acts.append({'a': 'deliver', 'u': u})
        acts.append({'a': 'tick', 'd': rng.choice([1, 2, 5, 5, 5, 5])})
    # a last round, undisturbed
    for turn in range(16 if calm else 6):
        for u in dcs + sks:
            acts.append({'a': 'talk', 'u': u})
            if rng.random() < .3:
                acts.append({'a': 'event', 'u': rng.choice(dcs), 'b': rng.choice([0, 1, 2])})
        acts.append({'a': 'tick', 'd': 5})
    return {'cfg': cfg, 'acts': acts}

def replay(acts, rng):
    """a behaviour of the model: two data collectors, two share keepers"""
    out = []
    for a in acts:
        if a['a'] == 'visit':
            out.append({'a': 'poll', 'u': a['u']})
            if a['lost']:
                out.append({'a': 'lose', 'u': a['u']})
        else:
            out.append(a)
    return {'cfg': {'dcs': 2, 'sks': 2, 'period': 15, 'alloc': rng.choice([['c1', 'c3'], ['c3']]), 'weighted': rng.randint(0, 2),
                    'calm': False, 'seed': rng.randint(1, 10 ** 6)}, 'acts': out}

def run(ctx):
    rng = random.Random(ctx.seed)
    n = 6000 if ctx.thorough else 100
    def models():
        vlib.model_check(ctx, 'RoundMC', 'RoundMC11.cfg', workers=2)
        vlib.model_check(ctx, 'RoundMC', 'RoundMCVac.cfg', workers=2, expect_violation='VacTwo')
        if ctx.thorough:
            vlib.model_check(ctx, 'RoundMC', 'RoundMC21.cfg', workers=8, timeout=3000)
            vlib.model_check(ctx, 'RoundMC', 'RoundMC12.cfg', workers=8, timeout=3000)
    def conf():
        g = vlib.generate(ctx, 'RoundGen', 'RoundGen.cfg', extra=('-simulate', 'num=%d' % (n // 4), '-depth', '95', '-seed', str(ctx.seed)))
        scns = [replay(a, rng) for a in g[:n // 3]] + [story(rng) for _ in range(n)]
        for i, s in enumerate(scns):
            s['id'] = 'r%d' % i
        t = vlib.drive(ctx, 'round', scns)
        vlib.sample_trace(ctx, t[0], 12)
        vlib.validate(ctx, TRACE, t)
    vlib.parallel(models, conf)
