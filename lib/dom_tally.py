'''C01-C03, C07, C12, C13: the tally server under arbitrary nodes and connections'''
import random
import vlib

A1 = {'c1': 8, 'c2': 8}
ALLOCS = [A1, {'c1': 7, 'c2': 8}, {'c1': 6, 'c2': 8}, {'c1': 5, 'c2': 8}, {'c1': 12, 'c2': 8}, {'c1': 8},
          {'c1': 8, 'c2': 8, 'c3': 8}, {'c1': 20, 'c2': 5}]
BASE = {'period': 20, 'event': 10, 'checkin': 10, 'delay': 60, 'always': False, 'tol': 2, 'alloc': A1, 'cont': -1,
        'dcth': 2, 'skth': 2, 'after': 0}
HOW = ['ok'] * 10 + ['mute', 'dup', 'fail', 'nocounts', 'empty', 'null', 'odd', 'junk', 'eager', 'miss', 'extra', 'swap']
BAD = ['threshold', 'key', 'bins', 'sigma', 'unknown', 'continue']

def config(rng, calm=False):
    c = dict(BASE)
    c['delay'] = rng.choice([0, 15, 60, 60, 200])
    c['always'] = rng.random() < .15
    c['cont'] = rng.choice([-1, -1, -1, 1, 2, 3])
    c['dcth'], c['skth'] = rng.choice([1, 2, 2, 3]), rng.choice([1, 1, 2])
    c['after'] = rng.choice([0, 0, 0, 25, 40])
    c['period'] = rng.choice([20, 20, 25, 40])
    c['checkin'] = rng.choice([10, 10, 5, 3])
    c['event'] = rng.choice([10, 10, 7])
    return c

def story(rng):
    '''rounds, with something unusual now and then'''
    cfg = config(rng)
    dcs = ['d%d' % (i + 1) for i in range(rng.randint(cfg['dcth'], 3))]
    sks = ['k%d' % (i + 1) for i in range(rng.randint(cfg['skth'], 3))]
    rate = rng.choice([0, .08, .08, .3])          # of trouble
    acts, val, held = [], [0], []
    def value():
        val[0] += 1
        return rng.choice([1, 1, -1]) * 3 ** (val[0] % 6) + (val[0] % 5)
    def opts(u):
        o = {}
        if rng.random() < .3:
            o['lag'] = rng.choice([0, 2, 4])
        if rng.random() < .3:
            o['off'] = rng.choice([-3, -1, 1, 2, 5])
        if u[0] == 'd' and rng.random() < .5:
            o['fp'] = int(u[1:]) if rng.random() < .8 else rng.randint(1, 5)
        if rng.random() < rate / 4:
            o['ver'] = rng.choice(['1.0.0', '1.0.1', '1.0.0 abc', '1.0.10', '1.0.2', '1.1.0'])
        if u[0] == 'k' and rng.random() < rate / 3:
            o['newkey'] = 1
        if rng.random() < rate / 3:
            o['state'] = rng.choice(['idle', 'active'])
        return o
    def talk(u, trouble=True):
        r = {'a': 'talk', 'u': u, 'o': opts(u), 'val': value(), 'c': rng.choice([1, 1, 1, 2])}
        if trouble and rng.random() < rate:
            r['how'] = rng.choice(HOW)
        if rng.random() < rate / 2:
            r['slow'] = rng.choice([1, 5, 12])
        return r
    n = rng.randint(12, 40)
    while len(acts) < n * 3:
        x = rng.random()
        if x < .5 or rate == 0:
            us = dcs + sks
            rng.shuffle(us)
            if rng.random() < rate:
                us = us[:-1]
            acts += [talk(u) for u in us]
            acts.append({'a': 'wait', 'd': rng.choice([3, 10, 10, 10, 10, 20, 20])})
        elif x < .6:
            acts.append(talk(rng.choice(dcs + sks)))
        elif x < .68:
            acts.append({'a': 'wait', 'd': rng.choice([1, 2, 3, 5, 10, 30])})
        elif x < .71:
            acts.append({'a': 'wait', 'd': rng.choice([7 * cfg['checkin'] + k for k in (0, 1, 2, 10)])})
        elif x < .77:
            u = rng.choice(dcs + sks)
            if (u, 3) not in held:
                held.append((u, 3))
            acts.append({'a': 'visit', 'u': u, 'c': 3, 'o': opts(u), 'val': value(), 'lost': rng.random() < .2})
        elif x < .84 and held:
            u, c = held[0] if rng.random() < .5 else rng.choice(held)
            acts.append({'a': 'deliver', 'u': u, 'c': c, 'again': rng.random() < .3})
        elif x < .88:
            acts.append({'a': 'restart', 'u': rng.choice(dcs + sks)})
        elif x < .91:
            acts.append({'a': 'foreign', 'u': rng.choice(dcs + sks), 'c': 4, 'k': rng.choice(['startdc', 'startsk', 'stop', 'stop']),
                         'val': value(), 'sks': dict((k, '') for k in sks)})
        else:
            to = {}
            for k, vs in (('alloc', ALLOCS), ('cont', [-1, -1, 2, 4]), ('dcth', [1, 2, 3]), ('skth', [1, 2]), ('period', [20, 40]),
                          ('checkin', [10, 5]), ('delay', [0, 15, 60, 200]), ('after', [0, 60, 200])):
                if rng.random() < (.6 if k == 'alloc' else .12):
                    to[k] = rng.choice(vs)
            a = {'a': 'cfg', 'to': to}
            if rng.random() < .25:
                a['bad'] = rng.choice(BAD)
            acts.append(a)
    return {'cfg': cfg, 'acts': acts}

TO = {'Fewer': {'dcth': 1, 'skth': 1}, 'Less': {'alloc': {'c1': 4, 'c2': 8}}, 'Later': {'after': 60}, 'Bad': {}}
def replay(acts, rng):
    '''a behaviour of the model'''
    out = [{'a': 'talk', 'u': u, 'val': 1} for u in ('d1', 'd2', 'k1', 'k2')]
    for i, a in enumerate(acts):
        a['val'] = (i % 7) * 10 + 1
        if a['a'] == 'change':
            a = {'a': 'cfg', 'to': TO[a['f']]}
            if a['to'] == {}:
                a['bad'] = rng.choice(BAD)
        out.append(a)
    return {'cfg': dict(BASE, delay=30), 'acts': out}

def run(ctx):
    rng = random.Random(ctx.seed)
    n = 3000 if ctx.thorough else 56
    def models():
        for c in (('TallyMC21t', 'TallyMC12t', 'TallyMC11t') if ctx.thorough else ('TallyMC21', 'TallyMC12')):
            vlib.model_check(ctx, 'TallyMC', c + '.cfg', workers=8 if ctx.thorough else 3, timeout=3000 if ctx.thorough else 600)
        vlib.model_check(ctx, 'TallyMC', 'TallyMCBind.cfg', workers=2, expect_violation='Cancels')
    def conf():
        g = vlib.generate(ctx, 'TallyGen', 'TallyGen.cfg', extra=('-simulate', 'num=%d' % (n // 2), '-depth', '62', '-seed', str(ctx.seed)))
        scns = [replay(a, rng) for a in g[:n]] + [story(rng) for _ in range(n * 3)]
        for i, s in enumerate(scns):
            s['id'] = 't%d' % i
        t = vlib.drive(ctx, 'tally', scns)
        vlib.sample_trace(ctx, t[0], 12)
        vlib.validate(ctx, 'TallyTrace', t)
    vlib.parallel(models, conf)
