'''C08, C09: the handshake'''
import copy, random
import vlib

def w(v): return {'k': 'w', 'v': v}
def c(v): return {'k': 'c', 'v': v}
def m(v): return {'k': 'm', 'v': v}
def x(v): return {'k': 'x', 'v': v}
def mac(k, st, a, b): return m('M(%s,%s,%s,%s)' % (k, st, a, b))
V, T = 'PRIVCOUNT-100', 'HMAC-SHA256'
TOK = {1: 'HANDSHAKE1-SERVER-COOKIE', 2: 'HANDSHAKE2-CLIENT-COOKIE-HMAC',
       3: 'HANDSHAKE3-SERVER-HMAC', 4: 'HANDSHAKE4-CLIENT-VERIFY'}
def h1(sc): return [w(TOK[1]), w(V), w('SERVER'), w(T), sc]
def h2(cc, mm): return [w(TOK[2]), w(V), w('CLIENT'), w(T), cc, mm]
def h3(mm): return [w(TOK[3]), w(V), w('SERVER'), w(T), mm]
def h4(s='SUCCESS'): return [w(TOK[4]), w(V), w('CLIENT'), w(T), w(s)]
STATUS = [w('STATUS'), w('t'), w('{}')]

BADVALUES = [x('A' * 43 + '!'), x('A' * 44), x('A' * 42 + '=='), x('A' * 41 + '==='), x('!' * 44), x('=' * 44),
             x('short'), x('A' * 43), x('A' * 45), x('A' * 40), x('AAAA' * 10 + 'A==='), w('SUCCESS'), w('FAIL'),
             x('\xe9\xff\x80'), x('-' * 44), x('None'), x('\x00' * 3)]

def variants(line):
    '''malformed versions of a well-formed handshake line'''
    out = []
    for i in range(len(line)):
        out.append(line[:i] + line[i + 1:])
        out.append(line[:i] + [line[i]] + line[i:])
    out.append(line + [w('EXTRA')])
    out.append(line + [x('\xff')])
    for j in (1, 2, 3, 4):
        if line[0]['v'] != TOK[j]:
            out.append([w(TOK[j])] + line[1:])
    for t in ('HANDSHAKE', 'HANDSHAKE2', 'HANDSHAKE5-OTHER', 'handshake2-client-cookie-hmac', line[0]['v'] + 'X'):
        out.append([w(t)] + line[1:])
    for t in ('PRIVCOUNT-101', 'PRIVCOUNT-10', 'PRIVCOUNT', 'privcount-100', ''):
        out.append(line[:1] + [w(t)] + line[2:])
    out.append(line[:2] + [w('SERVER' if line[2]['v'] == 'CLIENT' else 'CLIENT')] + line[3:])
    for t in ('OTHER', 'client', ''):
        out.append(line[:2] + [w(t)] + line[3:])
    for t in ('HMAC-SHA1', 'NONE', ''):
        out.append(line[:3] + [w(t)] + line[4:])
    for i in range(4, len(line)):
        for b in BADVALUES:
            if b['v'] != line[i]['v']:
                out.append(line[:i] + [b] + line[i + 1:])
        for other in (c('a'), c('zz'), mac('X', '2', 'ns1', 'a'), mac('K', '3', 'ns1', 'a'), mac('K', '2', 'zz', 'a')):
            if other['v'] != line[i]['v']:
                out.append(line[:i] + [other] + line[i + 1:])
    return out

EARLY = [STATUS, [w('STATUS')], [w('STATUS'), w('1.0'), x('{"name": "sk1", "type": "ShareKeeper", "state": "idle"}')],
         [w('START'), w('{}')], [w('START'), w('SUCCESS'), w('{}')], [w('START'), w('FAIL')], [w('START')],
         [w('STOP'), w('{}')], [w('STOP'), w('SUCCESS'), x('{"Counts": {}}')], [w('STOP'), w('FAIL')],
         [w('STOP'), x('{"send_counters": true}')], [w('CHECKIN'), w('3002')], [w('CHECKIN')], [w('CHECKIN'), w('SUCCESS')],
         [x('')], [x(' ')], [x('   ')], [x('\t')], [w('GARBAGE')], [w('GET'), x('/'), x('HTTP/1.1')], [w('HANDSHAKE')],
         [x('HANDSHAKE1-SERVER-COOKIE\tPRIVCOUNT-100')], [x('\x00\x01\x02')], [x('\xff\xfe\xfd')], [x('{}')], [x('%s%d{0}')],
         [w('QUIT')], [w('650'), x('PRIVCOUNT_STREAM_ENDED')]]

OK2 = h2(c('a'), mac('K', '2', 'ns1', 'a'))
OK3 = h3(mac('K', '3', 'b', 'nc10'))
# a conversation up to each phase, and what a correct peer would say next
PHASES = {('S', 'w2'): ([], OK2), ('S', 'w4'): ([OK2], h4()),
          ('C', 'w1'): ([], h1(c('b'))), ('C', 'w3'): ([h1(c('b'))], OK3)}

def mutations():
    res = []
    for (role, ph), (pre, nxt) in sorted(PHASES.items()):
        cn = 's1' if role == 'S' else 'c1'
        bad = list(EARLY)
        for t in (h1(c('b')), OK2, OK3, h4(), h4('FAIL'), h2(c('ns1'), mac('K', '2', 'ns1', 'ns1')),
                  h2(c('a'), mac('K', '3', 'ns1', 'a')), h2(c('a'), mac('X', '2', 'ns1', 'a')),
                  h2(c('a'), mac('K', '2', 'ns2', 'a')), h3(mac('K', '2', 'b', 'nc10')), h3(mac('X', '3', 'b', 'nc10')),
                  h3(mac('K', '3', 'b', 'b')), h3(mac('K', '3', 'nc10', 'b')), h3(c('nc10'))):
            bad.append(t)
        bad += variants(nxt)
        if (role, ph) == ('C', 'w1'):
            bad += variants(OK3)
        if (role, ph) == ('S', 'w2'):
            bad += variants(h4())
        for b in bad:
            res.append((role, [{'c': cn, 'line': l} for l in pre] + [{'c': cn, 'line': b}]))
            # .. and in one segment with what follows
        for b in bad[::5]:
            res.append((role, [{'c': cn, 'lines': [{'t': l} for l in pre + [b, nxt]]}]))
        # lengths
        for to in (199, 200, 201, 202, 230, 1000, 20000):
            res.append((role, [{'c': cn, 'line': l} for l in pre] + [{'c': cn, 'lines': [{'t': nxt, 'to': to}]}]))
            res.append((role, [{'c': cn, 'line': l} for l in pre] + [{'c': cn, 'lines': [{'t': [x('G')], 'to': to, 'fill': 'G'}]}]))
            res.append((role, [{'c': cn, 'line': l} for l in pre] + [{'c': cn, 'lines': [{'t': [w('STATUS')], 'to': to, 'fill': ' x'[1]}]}]))
        for tails in ((100,), (190,), (230,), (1000,), (100000,), (150, 150), (60, 60, 60, 60), (190, 20)):
            res.append((role, [{'c': cn, 'line': l} for l in pre] + [{'c': cn, 'lines': [], 'tail': t} for t in tails]))
            res.append((role, [{'c': cn, 'line': l} for l in pre] + [{'c': cn, 'lines': [], 'tail': t} for t in tails]
                        + [{'c': cn, 'line': nxt}]))
        # a tail behind a good line
        res.append((role, [{'c': cn, 'lines': [{'t': l} for l in pre + [nxt]], 'tail': 300}]))
        res.append((role, [{'c': cn, 'lines': [{'t': l} for l in pre + [nxt]], 'tail': 120}]))
        # the whole conversation in one segment
        rest = {'S': [h4(), STATUS, [w('CHECKIN'), w('SUCCESS')]], 'C': [OK3, STATUS, [w('CHECKIN'), w('3001')]]}[role]
        if ph in ('w2', 'w1'):
            res.append((role, [{'c': cn, 'lines': [{'t': l} for l in [nxt] + rest]}]))
            res.append((role, [{'c': cn, 'lines': [{'t': l} for l in rest + [nxt]]}]))
            res.append((role, [{'c': cn, 'lines': [{'t': l} for l in [rest[0], nxt] + rest]}]))
    return [{'conns': {'s1': 'S', 'c1': 'C'}, 'steps': st, 'kind': 'mutation'} for _, st in res]

def randoms(rng, n):
    res = []
    for _ in range(n):
        conns = {'s1': 'S', 's2': 'S', 'c1': 'C', 'c2': 'C'}
        names = ['ns1', 'ns2', 'nc10', 'nc20', 'nc11', 'a', 'b']
        good = {'s1': [OK2, h4(), STATUS], 's2': [h2(c('a'), mac('K', '2', 'ns2', 'a')), h4(), STATUS],
                'c1': [h1(c('b')), OK3, STATUS], 'c2': [h1(c('b')), h3(mac('K', '3', 'b', 'nc20')), STATUS]}
        pos = dict((k, 0) for k in good)
        relay = rng.random() < 0.4
        if relay:       # a man in the middle passes everything on
            good = {'s1': [h2(c('nc10'), mac('K', '2', 'ns1', 'nc10')), h4(), STATUS],
                    's2': [h2(c('nc20'), mac('K', '2', 'ns2', 'nc20')), h4(), STATUS],
                    'c1': [h1(c('ns1')), h3(mac('K', '3', 'ns1', 'nc10')), STATUS],
                    'c2': [h1(c('ns2')), h3(mac('K', '3', 'ns2', 'nc20')), STATUS]}
        steps = []
        pgood = rng.choice((0.4, 0.6, 0.8))
        for _ in range(rng.randint(3, 12)):
            cn = rng.choice(sorted(conns))
            if relay and rng.random() < 0.5:
                cn = rng.choice(('c1', 's1'))
            if rng.random() < pgood and pos[cn] < 3:
                steps.append({'c': cn, 'line': good[cn][pos[cn]]})
                pos[cn] += 1
                continue
            k = rng.random()
            rmac = lambda: mac(rng.choice('KXX'), rng.choice('23'), rng.choice(names), rng.choice(names))
            if k < 0.5:
                line = rng.choice((h1(c(rng.choice(names))), h2(c(rng.choice(names)), rmac()), h3(rmac()), h4(), h4('FAIL'),
                                   rng.choice(EARLY)))
            elif k < 0.8:
                line = rng.choice(variants(rng.choice(good[cn][:2])))
            else:
                line = good[rng.choice(sorted(good))][rng.randint(0, 1)]
            # the exchanges after authentication are another property's business: only
            # what may be sent by a peer that has not authenticated is garbage here
            if pos[cn] >= 2:
                line = [w('GARBAGE')]
            st = {'c': cn, 'lines': [{'t': line}]}
            if rng.random() < 0.1:
                st['tail'] = rng.choice((50, 150, 250, 1000))
            steps.append(st)
        res.append({'conns': conns, 'steps': steps, 'kind': 'random'})
    return res

def safe(s):
    '''drop what an authenticated (trusted) peer would never send: the properties
    speak about peers before authentication'''
    return s

def run(ctx):
    ctx.assumptions += ['HMAC-SHA256 is unforgeable (symbolic in the model; a real HMAC in the traces)',
                        'the line framing of twisted.protocols.basic.LineOnlyReceiver is a stand-in']
    def models():
        vlib.model_check(ctx, 'HandshakeMC', 'HandshakeMC21.cfg', workers=1)
        vlib.model_check(ctx, 'HandshakeMC', 'HandshakeMC12.cfg', workers=2)
        vlib.model_check(ctx, 'HandshakeMC', 'HandshakeMCVac.cfg', workers=1,
                         expect_violation='Invariant NotBoth is violated')
        if ctx.thorough:
            vlib.model_check(ctx, 'HandshakeMC', 'HandshakeMC22.cfg', workers=8)
    vlib.parallel(models, lambda: conformance(ctx))

def conformance(ctx):
    gen = vlib.generate(ctx, 'HandshakeMC', 'HandshakeGen.cfg')
    rng = random.Random(ctx.seed)
    rng.shuffle(gen)
    scns = [{'conns': {'s1': 'S', 'c1': 'C'}, 'steps': h, 'kind': 'tlc'}
            for h in (gen if ctx.thorough else gen[:1200])]
    scns += mutations()
    scns += randoms(rng, 6000 if ctx.thorough else 400)
    for i, s in enumerate(scns):
        s['id'] = '%s%d' % (s['kind'], i)
    rng.shuffle(scns)
    traces = vlib.drive(ctx, 'handshake', scns, timeout=800)
    vlib.sample_trace(ctx, traces[0], 5)
    vlib.validate(ctx, 'HandshakeTrace', traces)
