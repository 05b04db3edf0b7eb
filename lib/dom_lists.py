'''C21: match lists, from the operator's files to the bins of a data collector'''
import random
import vlib
from dom_events import ASMAP, IPS, asn, md5, case
TRACE = 'MatchTrace'
T0 = 1000000
KINDS = ['dom', 'country', 'as', 'store', 'fetch', 'fail', 'onion']
POOL = {'dom': ['com', 'example.com', 'www.example.com', 'mail.www.example.com', 'example.net', 'net', 'a.net', 'b.a.net', 'test.org', 'mple.com',
                'xn--bcher-kva.example', 'under_score.org', 'a-b.org', 'com.com', 'com.net', 'org'],
        'country': ['us', 'de', 'gb', 'fr', '??', '!!', 'a1', 'ca', 'ch'],
        'as': [100, 200, 300, 400, 500, 600, 700, 4294967295 // 4],
        'store': ['new', 'updated', 'badrequest', 'duplicate', 'expired', 'future', 'obsolete'],
        'fetch': ['cached', 'uncached', 'unencrypted', 'unparseable'],
        'fail': ['FailedPackageCell', 'CircuitCreateBadCell', 'CreatedFromClient', 'Intro1v2TruncatedCell', 'RendESpliced', 'introeemptycell'],
        'onion': ['facebookcorewwwi', '3g2upl4pq6kufc4m', 'aaaaaaaaaaaaaaaa', 'bbbbbbbbbbbbbbb2', 'duskgytldkxiuqc6', '2222222222222222']}
MORE = {'dom': ['nosuch.example', 'example.com.evil.net', 'notexample.com', 'xcom', 'localhost', 'x.com.com', 'deep.er.test.org', 'ampl.com', 'co.m'],
        'country': ['zz', 'u1'], 'store': ['other', 'ne', 'newer'], 'fetch': ['other', 'cache'], 'fail': ['other', 'CreatedFrom'],
        'onion': ['cccccccccccccccc', '7777777777777777']}
BAD = {'dom': ['exa mple.com', 'a..b', 'b@d.com', '..', '.', 'http://x.com/', 'caf\xe9.com', 'a,b.com', '*.com'],
       'country': ['usa', 'u', 'u-', '1 2', '', 'u\xe9', '?', '!?'],
       'as': ['x', '0', '-3', '1,2', 'AS5', '1.5', '1 2', '0x10'],
       'store': ['no reason', 'a-b', '\xe9', 'a.b', 'new,'], 'fetch': ['no reason', '!x', 'a_b'], 'fail': ['a b', 'x/y', 'TOO_FAR'],
       'onion': ['short', 'aaaaaaaaaaaaaaaaa', 'aaaaaaaaaaaaaaa1', '0aaaaaaaaaaaaaaa', 'onion', '.onion', 'g' * 32, 'a' * 31, 'http://', 'aaaaaaaaaaaaaaaa.com']}
WHOLE = ['empty', 'comments', 'missing']

def value(k, x, rng):
    '''(what the model sees, what is written) for x of kind k'''
    if k == 'dom':
        return x.split('.'), rng.choice(('', '', '', '.')) + case(rng, x) + rng.choice(('', '', '', '.'))
    if k == 'country':
        return x, case(rng, x)
    if k == 'as':
        return x, rng.choice(('', '', '0', '000', '+')) + str(x)
    if k == 'onion':
        if rng.random() < .3:
            return {'n': x, 'f': 'md5'}, case(rng, md5(x)) + rng.choice(('', '.onion'))
        a = case(rng, x)
        return {'n': x, 'f': 'plain'}, rng.choice((a, a, a + '.onion', 'www.' + a + '.onion', 'http://' + a + '.onion/', 'https://a.b.' + a + '.onion/x/y.html',
                                                   a.upper() + '.ONION', 'HTTP://' + a + '.Onion', a + '.onion.', 'x://' + a + '.onion'))
    return x.lower(), case(rng, x)

def text(lines, rng):
    out = []
    for x in lines:
        while rng.random() < .15:
            out.append(rng.choice(('', '# a comment', '// a comment', '; a comment', '   ', '#', '\t# com')))
        out.append(rng.choice(('', '', ' ', '\t', '  ')) + x + rng.choice(('', '', ' ', '\t')))
    return rng.choice(('\n', '\n', '\r\n')).join(out) + rng.choice(('', '\n', '\n\n'))

class Side(object):
    '''the files of the operator'''
    def __init__(self, rng, kinds):
        self.rng = rng
        self.kinds = kinds
        self.lists = dict((k, []) for k in KINDS)      # [name, items, spoilt]
        self.maps = None
        self.rej = None
        self.n = 0
        for k in kinds:
            self.fresh(k)

    def name(self):
        self.n += 1
        return 'f%d' % self.n

    def fresh(self, k):
        rng = self.rng
        pool = rng.sample(POOL[k], len(POOL[k]))
        self.lists[k] = []
        for _ in range(rng.choice((1, 1, 2, 2, 3, 4) if k in self.kinds else (0,))):
            m = rng.randint(1, 3)
            if pool:
                self.lists[k].append([self.name(), pool[:m], None])
                if rng.random() < .75:
                    pool = pool[m:]
                else:
                    rng.shuffle(pool)
        if k == 'as':
            self.maps = (4, 6) if self.lists['as'] else None
        if k == 'dom' and rng.random() < .6:
            self.untangle()

    def untangle(self):
        seen = []
        for l in self.lists['dom']:
            l[1] = [x for x in l[1] if not any(('.' + x).endswith('.' + y) or ('.' + y).endswith('.' + x) for y in seen)] or ['z%d.x%d.edu' % (self.n, len(seen))]
            seen += l[1]

    def edit(self):
        rng = self.rng
        for k in KINDS:
            for l in self.lists[k]:
                l[2] = None
        self.maps = (4, 6) if self.lists['as'] else None
        if self.rej == 'yes':
            self.rej = True
        for _ in range(rng.choice((1, 1, 1, 2, 3))):
            k = rng.choice(self.kinds)
            L = self.lists[k]
            what = rng.choice(('swap', 'remove', 'add', 'item', 'moved', 'fresh', 'order', 'rej', 'spoil', 'whole', 'rename', 'nothing', 'maps', 'twice', 'all'))
            if what == 'swap' and len(L) > 1:
                i, j = rng.sample(range(len(L)), 2)
                L[i], L[j] = L[j], L[i]
            elif what == 'remove' and L:
                L.pop(rng.randrange(len(L)))
            elif what == 'add':
                L.insert(rng.randint(0, len(L)), [self.name(), rng.sample(POOL[k], rng.randint(1, 2)), None])
            elif what == 'item' and L:
                l = rng.choice(L)
                if rng.random() < .5 and len(l[1]) > 1:
                    l[1].pop(rng.randrange(len(l[1])))
                else:
                    l[1].append(rng.choice(POOL[k]))
            elif what == 'moved' and len(L) > 1:
                a, b = rng.sample(L, 2)
                b[1].append(a[1][0])
                if len(a[1]) > 1:
                    a[1].pop(0)
            elif what == 'order' and L:
                rng.shuffle(rng.choice(L)[1])
            elif what == 'fresh':
                self.fresh(k)
            elif what == 'rej':
                self.rej = rng.choice((True, False, False, None, 'yes' if rng.random() < .3 else True))
            elif what == 'spoil' and L:
                rng.choice(L)[2] = rng.choice(BAD[k])
            elif what == 'whole' and L:
                rng.choice(L)[2] = rng.choice(WHOLE)
            elif what == 'rename' and len(L) > 1:
                i, j = rng.sample(range(len(L)), 2)
                L[i][0], L[j][0] = L[j][0], L[i][0]
            elif what == 'twice' and L:
                L.append(rng.choice(L))
            elif what == 'all':
                self.lists[k] = []
        self.lists['as'] = self.lists['as']
        if rng.random() < .9:
            self.maps = (4, 6) if self.lists['as'] else None
        else:
            self.maps = rng.choice(((4, 6), (4,), (6,), None, (4, 6, 5)))

    def version(self, nprobes):
        rng = self.rng
        cfg = {'rej': self.rej is not False, 'bad': self.rej == 'yes', 'maps': list(self.maps or ())}
        files, use, names = {}, {}, set()
        for k in KINDS:
            cfg[k], ns = [], []
            for name, items, spoilt in self.lists[k]:
                pairs = [value(k, x, rng) for x in items]
                if name in files:       # one file, several times in the configuration
                    cfg[k].append(files[name][1])
                    ns.append(name)
                    continue
                lines = [p[1] for p in pairs]
                abstract = [p[0] for p in pairs]
                if spoilt in WHOLE:
                    abstract, lines = [], []
                    if spoilt == 'missing':
                        cfg['bad'] = True
                elif spoilt is not None and (k != 'onion' or spoilt) and spoilt != '':
                    cfg['bad'] = True
                    lines.insert(rng.randint(0, len(lines)), spoilt)
                files[name] = (None if spoilt == 'missing' else text(lines, rng) if spoilt != 'empty' else '', abstract)
                cfg[k].append(abstract)
                ns.append(name)
            use[k] = ns if ns or rng.random() < .5 else None
        fs = [{'n': n, 'x': files[n][0]} for n in files]
        maps = None
        if self.maps:
            maps = {}
            for v in self.maps:
                maps[str(v)] = 'map%d' % v
                fs.append({'n': 'map%d' % v, 'x': text(['%s\t%d' % (p, n) for p, n in ASMAP if (':' in p) == (v == 6)], rng)})
        ev, pr = self.probes(nprobes)
        return {'files': fs, 'use': use, 'maps': maps, 'rej': self.rej, 'cfg': cfg, 'events': ev, 'probes': pr}

    def probes(self, n):
        rng = self.rng
        ev, pr = [], {}
        def pick(k):
            mine = [x for l in self.lists[k] for x in l[1]]
            return rng.choice(mine if mine and rng.random() < .5 else POOL[k] + MORE.get(k, []))
        def add(k, x):
            pr.setdefault(k, []).append(x)
        versions = self.maps if self.maps == (4, 6) else ()
        for k in self.kinds:
            for _ in range(n):
                x = pick(k)
                if k == 'dom':
                    if rng.random() < .4:
                        x = rng.choice(('www.', 'a.', 'x.y.', 'example.', 'com.')) + x
                    add('exa', x.split('.'))
                    add('suf', x.split('.'))
                    ev.append(('STREAM_ENDED', ' 1 1 %d %d 10 20 %d.0 %d.0 %s 8.8.8.8 1' % (rng.randint(1, 999), rng.choice((80, 443)), T0 - 2, T0, case(rng, x))))
                elif k in ('country', 'as'):
                    c = pick('country')
                    ip = rng.choice(IPS)
                    add('country', c)
                    add('as', asn(ip, versions))
                    ev.append(('CONNECTION_CLOSE', ' EventTimestamp=%d.0 CreatedTimestamp=%d.0 ChannelId=1 RemoteIsClientFlag=1 RemoteIPAddress=%s '
                               'RemoteIPAddressConnectionCount=1 PeerIPAddressConsensusRelayCount=0 RemoteCountryCode=%s InboundByteCount=1 OutboundByteCount=1 '
                               'InboundCircuitCount=1 OutboundCircuitCount=1' % (T0, T0 - 3, ip, case(rng, c))))
                elif k == 'fail':
                    add('fail', x.lower())
                    ev.append(('CIRCUIT_CLOSE', ' EventTimestamp=%d.0 CreatedTimestamp=%d.0 PreviousChannelId=1 PreviousCircuitId=%d IsExitFlag=1 IsEndFlag=1 '
                               'IsLegacyCircuitEndEventFlag=1 StateString=open PurposeCode=5 FailureReasonString=%s InboundExitByteCount=5 OutboundExitByteCount=5' % (T0, T0 - 3, rng.randint(1, 99), case(rng, x))))
                else:
                    o = pick('onion')
                    st = k == 'store' or (k == 'onion' and rng.random() < .5)
                    r = x if k != 'onion' else pick('store' if st else 'fetch')
                    add('onion' if st else 'onionf', o)
                    add('store' if st else 'fetch', r)
                    ev.append(('HSDIR_CACHE_STORE' if st else 'HSDIR_CACHE_FETCH',
                               ' HiddenServiceVersionNumber=2 EventTimestamp=%d.0 CacheReasonString=%s HasExistingCacheEntryFlag=0 %s RequiresClientAuthFlag=0 OnionAddress=%s'
                               % (T0, case(rng, r), 'WasAddedToCacheFlag=1' if st else 'HasCacheEntryFlag=1 CacheQueryByteCount=1', case(rng, o))))
        rng.shuffle(ev)
        return ev, pr

def story(rng):
    kinds = KINDS if rng.random() < .3 else rng.sample(KINDS, rng.randint(1, 3))
    o = Side(rng, kinds)
    o.rej = rng.choice((True, None, False, False))
    if rng.random() < .15:
        o.edit()
    vs = [o.version(6)]
    for _ in range(rng.randint(1, 4)):
        o.edit()
        vs.append(o.version(6))
    return {'versions': vs}

def chain(rng, items):
    '''collections of lists that TLC enumerated, one after the other'''
    words = dict(zip('ab', rng.choice((('com', 'net'), ('a', 'b'), ('example', 'ample'), ('x', 'xn--x')))))
    D = lambda d: '.'.join(words[c] for c in d)
    o = Side(rng, [])
    o.kinds = ['dom']
    vs = []
    names = {}
    for x in items:
        o.rej = rng.random() < .4
        # a list keeps its name, wherever it is
        o.lists['dom'] = []
        for i, l in enumerate(x['lists']):
            key = str(l)
            n = names.setdefault(key, o.name())
            if n in [q[0] for q in o.lists['dom']]:
                n = o.name()
            o.lists['dom'].append([n, [D(d) for d in l], None])
        vs.append(o.version(0))
        alld = [[a] for a in 'ab'] + [[a, b] for a in 'ab' for b in 'ab'] + [[a, b, c] for a in 'ab' for b in 'ab' for c in 'ab']
        vs[-1]['probes'] = {k: [[words[c] for c in d] for d in alld] for k in ('exa', 'suf')}
        vs[-1]['events'] = [('STREAM_ENDED', ' 1 1 %d 80 10 20 %d.0 %d.0 %s 8.8.8.8 1' % (j, T0 - 2, T0, case(rng, D(d)))) for j, d in enumerate(alld)]
    return {'versions': vs, 'kind': 'tlc'}

def run(ctx):
    ctx.assumptions += ['pyasn is a stand-in that finds the longest prefix of an address']
    def models():
        vlib.model_check(ctx, 'MatchMC', 'MatchMC.cfg', workers=2)
        vlib.model_check(ctx, 'MatchMC', 'MatchMCReload.cfg', workers=1)
        vlib.model_check(ctx, 'MatchMC', 'MatchMCReloadVac.cfg', workers=1, expect_violation='Invariant InForce is violated')
        vlib.model_check(ctx, 'MatchMC', 'MatchMCVac.cfg', workers=1, expect_violation='Invariant NeverPruned is violated')
        if ctx.thorough:
            vlib.model_check(ctx, 'MatchMC', 'MatchMC3.cfg', workers=4)
            vlib.model_check(ctx, 'MatchMC', 'MatchMCDeep.cfg', workers=4)
    vlib.parallel(models, lambda: conformance(ctx))

def conformance(ctx):
    rng = random.Random(ctx.seed)
    gen = vlib.generate(ctx, 'MatchMC', 'MatchGen.cfg')
    gen.sort(key=str)
    rng.shuffle(gen)
    if not ctx.thorough:
        gen = gen[:260]
    scns = [chain(rng, gen[i:i + 8]) for i in range(0, len(gen), 8)]
    scns += [story(rng) for _ in range(1500 if ctx.thorough else 120)]
    for i, s in enumerate(scns):
        s['id'] = '%s%d' % (s.pop('kind', 's'), i)
    rng.shuffle(scns)
    traces = vlib.drive(ctx, 'lists', scns, timeout=800)
    vlib.sample_trace(ctx, traces[0], 4)
    vlib.validate(ctx, 'MatchTrace', traces)
