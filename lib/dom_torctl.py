'''C10: the control connection of a data collector to a relay'''
import random
import vlib
TRACE = 'TorCtlTrace'
E1, E2, E3 = 'PRIVCOUNT_STREAM_ENDED', 'PRIVCOUNT_CONNECTION_CLOSE', 'PRIVCOUNT_CIRCUIT_CLOSE'
WANTS = [[E1], [E2, E3], [E1, E2], [E1, E2, E3], [E3]]
METHODS = ['SAFECOOKIE', 'HASHEDPASSWORD', 'NULL', 'COOKIE']
COOKIES = ['none', 'ok', 'ok', 'short', 'long', 'missing']
HASHES = ['right', 'wrongkey', 'otherclient', 'othernonce', 'clientkey', 'zero', 'short', 'long', 'badhex', 'none', 'otherfile']
NONCES = ['ok', 'short', 'long', 'badhex', 'none']
GOOD = ['pi', 'ver', 'ok2', 'info', 'pcv', 'epc1', 'nsgone', 'ok']
BADS = ['err', 'nopcv', 'noserver', 'unk', 'noaddr', 'nsunk', 'nss', 'nsend', 'junk', 'bw', 'epc0']

def L(k, **a):
    return {'a': 'line', 'l': dict(a, k=k)}

def config(rng):
    return {'pw': rng.choice(('none', 'ok', 'ok', 'short', 'long', 'missing')), 'setconf': rng.random() < .6,
            'rate': rng.random() < .4, 'cells': rng.random() < .4}

def event(rng):
    return L('ev', t=rng.choice((E1, E1, E2, E3, 'UNKNOWN_EVENT', 'PRIVCOUNT_CIRCUIT_CELL')), d=rng.choice(('full', 'full', 'full', 'empty')))

def noise(rng, dc, fpknown=True):
    r = rng.random()
    if r < .5:
        return event(rng)
    if r < .9:
        return L(rng.choice([g for g in GOOD if g != 'ok']))
    if r < .95:
        return L('auth', m=rng.sample(METHODS, 2), ck='none')
    return L('chal', h='right', n='ok')

def connection(rng, cfg, dc, first=True):
    '''a relay that mostly does what it should'''
    h = []
    def some(p=.25):
        while rng.random() < p:
            h.append(noise(rng, dc))
    def bad(p=.02):
        if rng.random() < p:
            h.append(L(rng.choice(BADS)))
    some(); bad()
    how = rng.choice(('cookie', 'cookie', 'pw', 'null', 'any'))
    m, ck = {'cookie': (['SAFECOOKIE'] + rng.sample(METHODS[1:], rng.randint(0, 3)), 'ok'),
             'pw': (['HASHEDPASSWORD'] + rng.sample(METHODS[2:], rng.randint(0, 2)), 'none'),
             'null': (['NULL'], rng.choice(('none', 'ok'))), 'any': (rng.sample(METHODS, rng.randint(1, 4)), rng.choice(COOKIES))}[how]
    rng.shuffle(m)
    h.append(L('auth', m=m, ck=ck))
    some(); bad()
    h.append(L('ok'))
    some(.1); bad()
    if 'SAFECOOKIE' in m and ck != 'none':
        h.append(L('chal', h='right' if rng.random() < .8 else rng.choice(HASHES), n='ok' if rng.random() < .9 else rng.choice(NONCES)))
    some(.1); bad()
    h.append(L('ok'))
    some(.4); bad()
    h.append(L('fp', v='ok' if rng.random() < .9 or not first else rng.choice(('short', 'bad', 'empty'))))
    if rng.random() < .5:
        h.append(L('epc1'))
    if rng.random() < .5:
        h += [L('nsbegin')] + [event(rng) for _ in range(rng.randint(0, 2))] + [L('nss')] + ([L('junk')] if rng.random() < .3 else []) + [L('nsend')]
    return h

def story(rng, mode):
    dc = mode == 'dc'
    cfg = config(rng)
    h, want = [], None
    if dc or rng.random() < .6:
        want = rng.choice(WANTS)
    h.append({'a': 'init', 'w': want or []})
    for rnd in range(rng.randint(1, 3)):
        if rnd:
            if dc:
                if want is None:
                    want = rng.choice(WANTS)
                    h.append({'a': 'start', 'w': want})
                else:
                    h.append({'a': 'lost'})
            else:
                break
            h.append({'a': 'conn'})
        h += connection(rng, cfg, dc, rnd == 0)
        for _ in range(rng.randint(0, 12)):
            r = rng.random()
            if r < .65:
                h.append(event(rng))
            elif r < .75:
                h.append(noise(rng, dc))
            elif r < .8:
                h.append(L('ev', t=E1, d='reject') if not dc else event(rng))
            elif r < .84:
                h.append(L(rng.choice(BADS)))
            elif r < .9:
                h.append({'a': 'wait', 'd': rng.choice((1, 600, 4000))})
            elif not dc:
                if want:
                    h.append({'a': 'stop'})
                    want = None
                else:
                    want = rng.choice(WANTS)
                    h.append({'a': 'start', 'w': want})
        if dc and want and rng.random() < .7:
            h.append({'a': 'stop'})
            want = None
    if dc and want:
        h.append({'a': 'stop'})
    if not dc:
        # something is done out of turn
        for _ in range(rng.choice((0, 0, 1, 2))):
            i = rng.randint(1, len(h))
            w = None
            for x in h[:i]:
                w = x['w'] if x['a'] in ('start', 'init') and x['w'] else None if x['a'] == 'stop' else w
            h.insert(i, {'a': 'stop'} if w else {'a': 'start', 'w': rng.choice(WANTS)})
    return {'cfg': cfg, 'mode': mode, 'h': h, 'k': rng.randint(0, 100000)}

def run(ctx):
    ctx.assumptions += ['HMAC-SHA256 is unforgeable (symbolic in the model; a real HMAC in the traces)',
                        'the line framing of twisted.protocols.basic.LineOnlyReceiver is a stand-in']
    def models():
        vlib.model_check(ctx, 'TorCtlMC', 'TorCtlMC.cfg', workers=3)
        vlib.model_check(ctx, 'TorCtlMC', 'TorCtlMCVac.cfg', workers=1, expect_violation='Invariant NeverOn is violated')
    vlib.parallel(models, lambda: conformance(ctx))

def conformance(ctx):
    rng = random.Random(ctx.seed)
    gen = vlib.generate(ctx, 'TorCtlMC', 'TorCtlGen.cfg')
    rng.shuffle(gen)
    if not ctx.thorough:        # every kind of last step, for every kind of state before it
        kept, seen = [], {}
        for g in gen:
            x = g['h'][-1]
            k = (tuple(y['a'] + str(y.get('l', {}).get('k')) for y in g['h'][:-1]), x['a'], str(x.get('l', {}).get('k')),
                 str(x.get('l', {}).get('h')), str(x.get('l', {}).get('n')), str(x.get('l', {}).get('t')))
            most = 60 if x.get('l', {}).get('k') == 'ok' else 3
            seen[k] = seen.get(k, 0) + 1
            if seen[k] <= most:
                kept.append(g)
        gen = kept
    scns = [{'cfg': g['cfg'], 'mode': 'bare', 'h': g['h'], 'kind': 'tlc', 'k': rng.randint(0, 100000)} for g in gen]
    scns += [story(rng, 'bare') for _ in range(10000 if ctx.thorough else 1500)]
    scns += [story(rng, 'dc') for _ in range(1500 if ctx.thorough else 120)]
    for i, s in enumerate(scns):
        s['id'] = '%s%d' % (s.pop('kind', s['mode']), i)
    rng.shuffle(scns)
    traces = vlib.drive(ctx, 'torctl', scns, timeout=800)
    vlib.sample_trace(ctx, traces[0], 5)
    vlib.validate(ctx, 'TorCtlTrace', traces)
