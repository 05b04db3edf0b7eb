'''C24: configuration files that change while a node runs'''
import random
import vlib
TRACE = 'ReloadTrace'
T0 = 1000000
FORMS = ['syntax', 'empty', 'tab', 'text', 'list', 'cut', 'nul', 'number', 'comment', 'nosection', 'nullsection', 'listsection', 'missing']
ADDR = ['127.0.0.1', '127.0.0.2', '192.0.2.9', '2001:db8::7']
BADCONN = [{'ip': '127.0.0.1'}, {'port': 0, 'ip': '127.0.0.1'}, {'ip': '127.0.0.1', 'port': -4}, {'ip': 'not.an.address', 'port': 20001}, {'ip': '1.2.3', 'port': 20001},
           {'ip': '127.0.0.1', 'port': 'x'}]

def client(rng, kind):
    s = {'tally_server_info': {'ip': '127.0.0.1', 'port': 20001}, 'delay_period': rng.choice((0, 20, 60))}
    if kind == 'dc':
        s.update(name='dc1', event_source={'ip': '127.0.0.1', 'port': 30000}, share_keepers=['sk1', 'sk2'])
    else:
        s.update(key='sk1.key')
    f = {'form': 'ok', 'sec': s, 'top': {'secret_handshake': 'secret'}}
    for _ in range(rng.choice((0, 1, 2, 4))):
        change(rng, kind, f)
    return f

def change(rng, kind, f):
    '''another good value for a key, or no value'''
    s = f['sec']
    k = rng.choice(['delay_period', 'always_delay', 'sigma_decrease_tolerance', 'tally_server_info', 'secret_handshake', 'top', 'note', 'state', 'others']
                   + (['name', 'event_source', 'share_keepers', 'rotate_period', 'use_setconf', 'key', 'toprotate', 'name', 'event_source', 'share_keepers'] if kind == 'dc' else ['key', 'name']))
    drop = rng.random() < .3
    def put(x):
        if drop:
            s.pop(k, None)
        else:
            s[k] = x
    if k == 'delay_period':
        put(rng.choice((0, 10, 20, 60, 61, 86400, 100000, -1, -100)))
    elif k == 'always_delay':
        put(rng.choice((True, False)))
    elif k == 'sigma_decrease_tolerance':
        put(rng.choice((1e-6, 0.25, 1.0, 2, 1)))
    elif k == 'tally_server_info':
        s[k] = {'ip': rng.choice(ADDR), 'port': rng.choice((20001, 20002, 20003))}
    elif k == 'secret_handshake':
        put(rng.choice(('secret', 'secret_x', './secret_x')))
    elif k == 'top':
        f['top']['secret_handshake'] = rng.choice(('secret', 'secret_x'))
    elif k == 'toprotate':
        if drop:
            f['top'].pop('rotate_period', None)
        else:
            f['top']['rotate_period'] = rng.choice((60, 600, 100))
    elif k in ('note', 'state'):
        put(rng.choice(('x', 'y', 3, 4)))
    elif k == 'others':
        f['others'] = not f.get('others')
    elif k == 'name':
        if kind == 'sk':
            put(rng.choice(('a', 'b')))     # not what a share keeper is called
        else:
            s[k] = rng.choice(('dc1', 'dc2', 'x', 'a b'))
    elif k == 'event_source':
        s[k] = {'ip': rng.choice(ADDR), 'port': 30000 + rng.randint(0, 3)}
        if rng.random() < .3:
            del s[k]['ip']
    elif k == 'share_keepers':
        s[k] = rng.choice((['sk1', 'sk2'], ['sk1'], ['sk1', 'sk2', 'sk3'], ['sk2', 'sk3']))
    elif k == 'rotate_period':
        put(rng.choice((1, 60, 600)))
    elif k == 'use_setconf':
        put(rng.choice((True, False, 0, 1, '', 'no')))
    elif k == 'key':
        if kind == 'dc':
            put('dc.key')
        else:
            s[k] = rng.choice(('sk1.key', 'sk2.key', 'sk3.key'))

def spoil(rng, kind, f):
    s = f['sec']
    how = rng.choice(['form', 'form', 'always_delay', 'sigma_decrease_tolerance', 'tally_server_info', 'notsi'] +
                     (['name', 'noname', 'event_source', 'noes', 'nosks', 'rotate_period'] if kind == 'dc' else []))
    if how == 'form':
        f['form'] = rng.choice(FORMS)
    elif how == 'always_delay':
        s[how] = rng.choice((1, 0, 'yes', 'no', 'True', 2))
    elif how == 'sigma_decrease_tolerance':
        s[how] = rng.choice((0, -1, -0.5, 0.0))
    elif how == 'tally_server_info':
        s[how] = rng.choice(BADCONN + [{'port': 20001}])
    elif how == 'notsi':
        s.pop('tally_server_info', None)
    elif how == 'name':
        s[how] = ''
    elif how == 'noname':
        s.pop('name', None)
    elif how == 'event_source':
        s[how] = rng.choice(BADCONN)
    elif how == 'noes':
        s.pop('event_source', None)
    elif how == 'nosks':
        s.pop('share_keepers', None)
    elif how == 'rotate_period':
        if rng.random() < .5:
            s[how] = rng.choice((0, -5))
        else:
            s.pop(how, None)
            f['top'][how] = rng.choice((0, -600))

# the keys whose new value is seen beyond the configuration itself
def copy(f):
    import json
    return json.loads(json.dumps(f))

def client_story(rng, g=None):
    kind = rng.choice(('dc', 'dc', 'sk'))
    f = client(rng, kind)
    first = copy(f)
    good = f
    if g is None and rng.random() < .1:
        first = copy(f)
        spoil(rng, kind, first)
    acts, on = [], False
    allocs = [{'c1': 10}, {'c1': 10}, {'c1': 9}, {'c1': 11}, {'c1': 10, 'c2': 4}]
    def edit(f):
        acts.append({'a': 'edit', 'f': copy(f)})
    def alter():
        f = copy(good)
        for _ in range(rng.choice((1, 1, 2, 3))):
            change(rng, kind, f)
        return f
    todo = g or [rng.choice(('good', 'bad', 'back', 'look', 'look', 'begin', 'end', 'wait')) for _ in range(rng.randint(3, 9))]
    old = good
    for a in todo:
        if a == 'good':
            old, good = good, alter()
            edit(good)
        elif a == 'bad':
            f = alter()
            spoil(rng, kind, f)
            if rng.random() < .3:
                spoil(rng, kind, f)
            edit(f)
        elif a == 'back':
            good, old = old, good
            edit(good)
        elif a == 'look':
            acts.append({'a': 'read'})
            acts.append({'a': 'conf'})
        elif a == 'begin':
            sks = good['sec'].get('share_keepers', [])
            acts.append({'a': 'start', 'sks': sks if rng.random() < .75 else rng.choice((['sk1', 'sk2'], ['sk1'], ['sk2', 'sk3'])), 'alloc': rng.choice(allocs)})
            if rng.random() < .6:
                acts.append({'a': 'relay'})
        elif a == 'end':
            acts.append({'a': 'relay'})
            acts.append({'a': 'stop', 'send': rng.random() < .85})
        elif a == 'wait':
            acts.append({'a': 'wait', 'd': rng.choice((5, 15, 30, 55, 70))})
    acts += [{'a': 'read'}, {'a': 'relay'}, {'a': 'stop', 'send': True}]
    return {'kind': kind, 'first': first, 'acts': acts}

def tally(rng):
    f = {'form': 'ok', 'top': {}, 'sec': {'collect_period': rng.choice((20, 40, 41)), 'event_period': rng.choice((5, 10, 30)), 'checkin_period': rng.choice((5, 10)), 'delay_period': 0,
                                          'listen_port': 20001, 'sk_threshold': 1, 'dc_threshold': 1, 'continue': True, 'results': 'results'},
         'bins': {'c1': 1, 'c2': 2}, 'sig': {'c1': 10, 'c2': 4}, 'binsok': 'ok', 'sigok': 'ok', 'accept': [], 'reject': [], 'weights': [{'*': 1}]}
    for _ in range(rng.choice((0, 1, 2))):
        tchange(rng, f)
    f['sec'].update(sk_threshold=1, dc_threshold=1)
    return f

NAMES = {'c1': 'ExitStreamCount', 'c2': 'EntryConnectionCount', 'c3': 'ExitCircuitCount', 'cx': 'NoSuchCounter'}
PATTERNS = ['^Exit', 'Connection', 'Count$', 'ExitStream', '^E', 'Circuit|Stream', 'Nothing', 'NoSuch']
def pattern(rng):
    import re
    p = rng.choice(PATTERNS)
    return [sorted(n for n in NAMES if re.search(p, NAMES[n])), p]
def iso(t):
    import datetime
    return (datetime.datetime(1970, 1, 1) + datetime.timedelta(seconds=t)).strftime('%Y-%m-%dT%H:%M:%SZ')

def tchange(rng, f):
    s = f['sec']
    k = rng.choice(('collect_period', 'event_period', 'checkin_period', 'delay_period', 'always_delay', 'sigma_decrease_tolerance', 'th', 'continue', 'start_after',
                    'circuit_sample_rate', 'max_cell_events_per_circuit', 'reject_overlapping_lists', 'results', 'bins', 'bins', 'sig', 'sig', 'names', 'names', 'accept', 'reject', 'weights', 'weights'))
    drop = rng.random() < .25
    def put(x):
        if drop:
            s.pop(k, None)
        else:
            s[k] = x
    if k == 'collect_period':
        s[k] = rng.choice((10, 20, 21, 40, 60, 100))
    elif k in ('event_period', 'checkin_period'):
        put(rng.choice((3, 5, 10, 15, 30)))
    elif k == 'delay_period':
        put(rng.choice((0, 0, 10, 30, -1)))
    elif k == 'always_delay':
        put(rng.random() < .5)
    elif k == 'sigma_decrease_tolerance':
        put(rng.choice((1e-6, .25, 1, 5)))
    elif k == 'th':
        s[rng.choice(('sk_threshold', 'dc_threshold'))] = rng.choice((1, 1, 1, 2, 3))
    elif k == 'continue':
        put(rng.choice((True, True, True, False, 0, 1, 2, 3, 10)))
    elif k == 'start_after':
        put(iso(T0 + rng.choice((-100, 0, 30, 60, 100))))
    elif k == 'circuit_sample_rate':
        put(rng.choice((0.0, .5, 1.0, 1, 0.25)))
    elif k == 'max_cell_events_per_circuit':
        put(rng.choice((-1, 0, 5, 100)))
    elif k == 'reject_overlapping_lists':
        put(rng.random() < .5)
    elif k == 'results':
        put(rng.choice(('results', 'results', 'other', '.')))
    elif k == 'bins' and f['bins']:
        f['bins'][rng.choice(sorted(f['bins']))] = rng.choice((1, 2, 3))
    elif k == 'sig' and f['sig']:
        f['sig'][rng.choice(sorted(f['sig']))] = rng.choice((0, 1, 3, 4, 5, 10, 20))
    elif k == 'names':
        n = rng.sample(['c1', 'c2', 'c3'], rng.randint(1, 3))
        f['bins'] = {x: f['bins'].get(x, rng.choice((1, 2, 3))) for x in n}
        f['sig'] = {x: f['sig'].get(x, rng.choice((3, 4, 10))) for x in n}
    elif k in ('accept', 'reject'):
        f[k] = [] if drop else pattern(rng)
    elif k == 'weights':
        f[k] = [rng.choice(({'*': 1}, {'*': 2}, {'A' * 39 + '1': 1, '*': 3}, {'A' * 39 + '1': 2, 'B' * 40: 1}, {'A' * 39 + '1': 2, 'B' * 40: 1, 'C' * 40: 0}))]

def tspoil(rng, f):
    s = f['sec']
    k = rng.choice(('form', 'form', 'bins', 'sig', 'binsfile', 'sigfile', 'onlybins', 'onlysig', 'unknown', 'threshold', 'nothreshold', 'nocollect', 'collect', 'weights', 'noweights',
                    'fewweights', 'rate', 'rej', 'continue', 'start_after', 'results', 'always', 'tol', 'port', 'event', 'checkin'))
    if k == 'form':
        f['form'] = rng.choice(FORMS)
    elif k == 'bins' and f['bins']:
        f['bins'][rng.choice(sorted(f['bins']))] = rng.choice((-1, -2, -3, -4, -5, -6))
    elif k == 'sig' and f['sig']:
        f['sig'][rng.choice(sorted(f['sig']))] = rng.choice((-1, -5))
    elif k == 'binsfile':
        f['binsok'] = rng.choice(('missing', 'empty', 'syntax', 'nokey', 'null'))
    elif k == 'sigfile':
        f['sigok'] = rng.choice(('missing', 'empty', 'syntax', 'nokey', 'null'))
    elif k == 'onlybins':
        f['sig'].pop(rng.choice(sorted(f['sig']) or ['x']), None)
    elif k == 'onlysig':
        f['bins'].pop(rng.choice(sorted(f['bins']) or ['x']), None)
    elif k == 'unknown':
        f['bins']['cx'], f['sig']['cx'] = 1, 3
    elif k == 'threshold':
        s[rng.choice(('sk_threshold', 'dc_threshold'))] = rng.choice((0, -1))
    elif k == 'nothreshold':
        s.pop(rng.choice(('sk_threshold', 'dc_threshold', 'listen_port')), None)
    elif k == 'nocollect':
        s.pop('collect_period', None)
    elif k == 'collect':
        s['collect_period'] = rng.choice((0, -20, 1))
    elif k == 'weights':
        f['weights'] = [rng.choice(({'*': -1}, {'*': 1, 'B' * 40: -2}))]
    elif k == 'noweights':
        f['weights'] = []
    elif k == 'fewweights':
        s['dc_threshold'] = 3
        f['weights'] = [{'A' * 39 + '1': 2, 'B' * 40: 1}]
    elif k == 'rate':
        s['circuit_sample_rate'] = rng.choice((-0.1, 1.5, 2, -1))
    elif k == 'rej':
        s['reject_overlapping_lists'] = rng.choice((1, 0, 'yes', 'no'))
    elif k == 'continue':
        s['continue'] = rng.choice((-1, -7))
    elif k == 'start_after':
        s['start_after'] = rng.choice(('tomorrow', '2026-13-01T00:00:00Z', '2026-01-01', '2026-01-01 00:00:00', '12'))
    elif k == 'results':
        s['results'] = 'nowhere'
    elif k == 'always':
        s['always_delay'] = rng.choice((1, 'yes'))
    elif k == 'tol':
        s['sigma_decrease_tolerance'] = rng.choice((0, -1))
    elif k == 'port':
        s['listen_port'] = rng.choice((0, -3))
    elif k == 'event':
        s['event_period'] = rng.choice((0, -2))
    elif k == 'checkin':
        s['checkin_period'] = rng.choice((0, -2))

def tally_story(rng, g=None):
    f = tally(rng)
    first = copy(f)
    if g is None and rng.random() < .1:
        tspoil(rng, first)
    c = first['sec'].get('collect_period', 20)
    every = max(1, min(first['sec'].get('event_period', 600), c // 2))
    acts, good, old = [], f, f
    def alter():
        f = copy(good)
        for _ in range(rng.choice((1, 1, 2, 3))):
            tchange(rng, f)
        return f
    todo = g or [rng.choice(('good', 'good', 'bad', 'back', 'look', 'look', 'begin', 'end')) for _ in range(rng.randint(3, 9))]
    for a in todo:
        if a == 'good':
            old, good = good, alter()
            acts.append({'a': 'edit', 'f': copy(good)})
        elif a == 'bad':
            f = alter()
            tspoil(rng, f)
            if rng.random() < .3:
                tspoil(rng, f)
            acts.append({'a': 'edit', 'f': copy(f)})
        elif a == 'back':
            good, old = old, good
            acts.append({'a': 'edit', 'f': copy(good)})
        elif a == 'look':
            acts.append({'a': 'read'})
            if rng.random() < .5:
                acts.append({'a': 'step'})
        elif a == 'begin':
            # between the start of the data collector and that of the share keeper there is a turn of the loop
            acts += [{'a': 'read'}, {'a': 'step'}] + ([{'a': 'read'}, {'a': 'step'}] if rng.random() < .5 else [])
        elif a == 'end':
            acts.append({'a': 'wait', 'd': rng.choice((3, 5, 8, 12))})
    acts.append({'a': 'wait', 'd': 4})
    return {'kind': 'ts', 'first': first, 'acts': acts, 'every': every}

def story(rng):
    return client_story(rng) if rng.random() < .6 else tally_story(rng)

def run(ctx):
    def models():
        for k in ('dc', 'sk', 'ts'):
            vlib.model_check(ctx, 'ReloadMC', 'ReloadMC%s_%s.cfg' % ('3' if ctx.thorough else '', k), workers=1)
        vlib.model_check(ctx, 'ReloadMC', 'ReloadMCKeys.cfg', workers=1, expect_violation='Invariant Whole is violated')
        vlib.model_check(ctx, 'ReloadMC', 'ReloadMCRound.cfg', workers=1, expect_violation='Invariant RoundKept is violated')
    vlib.parallel(models, lambda: conformance(ctx))

def conformance(ctx):
    rng = random.Random(ctx.seed)
    gen = vlib.generate(ctx, 'ReloadMC', 'ReloadGen.cfg')
    gen.sort()
    rng.shuffle(gen)
    scns = []
    for g in gen[:None if ctx.thorough else 300]:
        scns.append(dict(client_story(rng, g), tag='tlc'))
        if rng.random() < .5:
            scns.append(dict(tally_story(rng, g), tag='tlc'))
    scns += [story(rng) for _ in range(6000 if ctx.thorough else 500)]
    for i, s in enumerate(scns):
        s['id'] = '%s%s%d' % (s.pop('tag', 's'), s['kind'], i)
    rng.shuffle(scns)
    traces = vlib.drive(ctx, 'reload', scns, timeout=800)
    vlib.sample_trace(ctx, traces[0], 5)
    vlib.validate(ctx, 'ReloadTrace', traces)
