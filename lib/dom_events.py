'''C16-C20: what a data collector counts from the events of its relay'''
import ipaddress, json, os, random, re
import vlib
TRACE = 'EventsTrace'
TOP = 2000000000
T0 = 1000000
NAMES = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'spec', 'counters.json')))

def prop(n):
    if n.startswith('HSDir') and ('Store' in n or 'Fetch' in n):
        return 'C20'
    if 'Connection' in n or 'ClientIP' in n:
        return 'C19'
    if 'Stream' in n and not n.startswith('ExitCircuit'):
        return 'C17'
    return 'C18'
FAMILY = {'C17': [], 'C18': [], 'C19': [], 'C20': []}
for n in NAMES:
    FAMILY[prop(n)].append(n)
LATE = [n for n in FAMILY['C18'] if 'ExitCircuit' in n or re.match(r'Exit(Web|Interactive|P2P|OtherPort)CircuitCount', n) or 'ExitAndRend2' in n]
CLIENTIP = [n for n in FAMILY['C19'] if 'ClientIP' in n]

# ------------------------------------------------------------ items
def item(k, t, v, x, **more):
    return dict({'k': k, 't': t, 'v': v, 'n': len(x), 'm': x.count(',') + 1 if x else 0, 'x': x}, **more)

def I(k, v, rng=None):
    x = str(v)
    if rng and rng.random() < .06:
        x = rng.choice(('0' + x, '+' + x)) if v >= 0 else x
    return item(k, 'int', max(-TOP, min(TOP, v)), x)

def T(k, tenths, rng):
    if tenths % 10 == 0 and rng.random() < .5:
        return I(k, tenths // 10)
    return item(k, 'num', tenths, '%d.%d' % (tenths // 10, tenths % 10) + rng.choice(('', '', '0', '00000')))

def case(rng, s):
    r = rng.random()
    return s if r < .6 else s.upper() if r < .8 else s.lower() if r < .9 else s.title()

def S(k, s, rng):
    return item(k, 'str', s.lower(), case(rng, s))

def H(s, rng):
    x = case(rng, s)
    return item('', 'host', s.lower().split('.'), x)

ASMAP = [('10.0.0.0/8', 100), ('10.1.0.0/16', 200), ('10.1.2.0/24', 300), ('192.0.2.0/24', 400), ('2001:db8::/32', 500), ('2001:db8:1::/48', 600)]
IPS = ['10.0.0.1', '10.1.0.1', '10.1.2.3', '10.1.3.3', '192.0.2.1', '192.0.3.1', '0.0.0.0', '255.255.255.255', '127.0.0.1',
       '2001:db8::1', '2001:db8:1::5', '2001:db9::1', '::1', '::', '::ffff:10.0.0.1', 'fe80::1']
def asn(ip, versions):
    a, best = ipaddress.ip_address(ip), (-1, -1)
    if a.version not in versions:
        return -1
    for p, n in ASMAP:
        net = ipaddress.ip_network(p)
        if net.version == a.version and a in net and net.prefixlen > best[0]:
            best = (net.prefixlen, n)
    return best[1]

def IP(k, ip, rng, versions=(4, 6)):
    a = ipaddress.ip_address(ip)
    x = ip
    if a.version == 6 and rng.random() < .4:
        x = rng.choice((a.exploded, a.exploded.upper(), a.compressed.upper()))
    return item(k, 'ip', '%d:%d' % (a.version, int(a)), x, **{'ver': a.version, 'as': asn(ip, versions)})

# ------------------------------------------------------------ lists
DOMS = ['example.com', 'test.org', 'www.example.com', 'a.b.c.test.org', 'onionoo.net', 'com', 'xn--bcher-kva.example', 'mple.com', 'test.net']
SUFS = [['example.com'], ['org', 'b.net'], ['a.b.c', 'co.uk'], ['com']]
FAILS = ['TORPROTOCOL', 'INTERNAL', 'TIMEOUT', 'DESTROYED', 'TOO_FAR', 'IP_NOW_REDUNDANT']
STORES = ['stored', 'expired', 'malformed', 'had_later', 'updated', 'no_more_room']
FETCHES = ['found', 'not_found', 'malformed', 'auth_failed', 'success']
ONIONS = ['facebookcorewwwi', '3g2upl4pq6kufc4m', 'aaaaaaaaaaaaaaaa', 'bbbbbbbbbbbbbbb2', 'duskgytldkxiuqc6']
def lists(rng, pool, most=3):
    pool = rng.sample(pool, len(pool))
    res = []
    for _ in range(rng.randint(0, most)):
        k = rng.randint(1, 3)
        res.append(pool[:k])
        pool = pool[k:]
        if not pool:
            break
    return [l for l in res if l]

def md5(s):
    import hashlib
    return hashlib.md5((s + '.onion').encode()).hexdigest()

def make_lists(rng):
    dom = lists(rng, [d for d in DOMS])
    country = lists(rng, ['us', 'de', 'gb', 'fr', '??', 'a1', 'ca'])
    ases = lists(rng, [100, 200, 300, 400, 500, 600, 700])
    store, fetch, fail, onion = lists(rng, STORES), lists(rng, FETCHES), lists(rng, FAILS), lists(rng, ONIONS)
    suf = lists(rng, ['example.com', 'org', 'b.net', 'co.uk', 'a.b.c', 'xn--bcher-kva.example', 'gov'])
    versions = rng.choice(((4, 6), (4, 6), (4,), (6,))) if ases else ()
    hashed = rng.random() < .4
    L = {'dom': [[d.split('.') for d in l] for l in dom], 'suf': [[d.split('.') for d in l] for l in suf],
         'country': country, 'as': ases, 'store': [[x.lower() for x in l] for l in store], 'fetch': fetch,
         'fail': [[x.lower() for x in l] for l in fail], 'onion': onion}
    raw = {'dom': dom, 'suf': suf, 'country': country, 'as': ases, 'maps': {}, 'store': L['store'], 'fetch': fetch,
           'fail': L['fail'], 'onion': [[md5(o) if hashed else o for o in l] for l in onion]}
    for v in versions:
        raw['maps'][str(v)] = '\n'.join('%s\t%d' % (p, n) for p, n in ASMAP if (':' in p) == (v == 6)) + '\n'
    return L, raw, versions

# ------------------------------------------------------------ counters
EDGES = {'Ratio': [-TOP, -3, -2, -1, 0, 1, 2, 3, TOP]}
def edges(rng, pool, lo=None):
    k = sorted(rng.sample(pool, rng.randint(2, min(5, len(pool)))))
    if rng.random() < .85:
        k.append(TOP)
    if lo is not None and rng.random() < .8:
        k = [lo] + [x for x in k if x > lo]
    if len(k) < 3:
        k = [lo if lo is not None else 0, 7, TOP]
    return [[a, b] for a, b in zip(k, k[1:])]

def counter(rng, n, L):
    s = 1
    if n.endswith('CountList'):
        m = rng.randint(1, 4)
        for w, l in (('DomainExact', 'dom'), ('DomainSuffix', 'suf'), ('Country', 'country'), ('AS', 'as'), ('OnionAddress', 'onion')):
            if w in n:
                m = max(1, len(L[l]))
        b = [[i, i + 1] for i in range(m)] + [[m, TOP]]
    elif n.endswith('Count'):
        b = [[0, TOP]]
    elif n.endswith('Ratio'):
        b = edges(rng, [-3, -2, -1, 0, 1, 2, 3], -TOP)
    elif n.endswith('Time'):
        s = 10.0
        b = edges(rng, [0, 5, 10, 50, 100, 200, 600, 6000], -TOP)
    elif 'Byte' in n:
        b = edges(rng, [1, 2, 100, 498, 1000, 20000, 40960, 1000000], 0)
    elif 'Cell' in n:
        b = edges(rng, [1, 4, 7, 8, 9, 20, 100], 0)
    else:
        b = edges(rng, [1, 2, 3, 4, 5, 10], 0)
    return {'n': n, 'b': b, 's': s, 'p': prop(n)}

def choose(rng, family, L):
    if family in ('C17', 'C19', 'C20'):
        pool = FAMILY[family]
        ns = pool if rng.random() < .6 else rng.sample(pool, rng.randint(20, 200))
    elif family == 'C18':
        # all that is known of a few kinds of circuit, so that a round sees many of the counters its events are for
        kinds = rng.sample(['Origin', 'Entry', 'Mid', 'End', 'SingleHop', 'Exit', 'Dir', 'HSDir', 'Intro', 'Rend', 'HSDir', 'Intro', 'Rend'], 3)
        pool = [n for n in FAMILY['C18'] if any(n.startswith(x) for x in kinds)]
        ns = rng.sample(pool, min(600, len(pool))) + LATE + rng.sample(CLIENTIP, rng.randint(0, 1))
    else:
        ns = rng.sample(NAMES, 300)
    return [counter(rng, n, L) for n in sorted(set(ns))]

# ------------------------------------------------------------ events
class Maker(object):
    def __init__(self, rng, L, versions):
        self.rng, self.L, self.versions = rng, L, versions
        self.t = T0 * 10
        self.circs = [(rng.randint(1, 3), rng.randint(1, 4)) for _ in range(3)]

    def ip(self, k):
        return IP(k, self.rng.choice(self.ips if self.rng.random() < .6 else IPS), self.rng, self.versions)
    ips = IPS[:4] + IPS[9:11]

    def amount(self):
        return self.rng.choice((0, 0, 1, 2, 3, 4, 5, 7, 8, 9, 16, 99, 100, 498, 499, 1000, 4000, 20000, 100000))

    def start(self):
        return self.t - self.rng.choice((0, 5, 5, 10, 45, 50, 100, 350, 600, 605, 6000, 20000))  # exact in binary

    def flag(self, k, on=.5):
        return I(k, 1 if self.rng.random() < on else 0)

    def stream(self):
        rng = self.rng
        ch, ci = rng.choice(self.circs)
        port = rng.choice((80, 443, 80, 443, 22, 194, 994, 6660, 6665, 6670, 6671, 6659, 6679, 6697, 7000, 6999, 6881, 6880, 1214, 4661, 4666, 4660, 4667,
                           6346, 6429, 6345, 6430, 6699, 45682, 51413, 8080, 0, 65535, 25))
        read, write = self.amount(), self.amount()
        s = self.start()
        if rng.random() < .2:
            host = self.ip('')
        else:
            d = rng.choice(DOMS + ['www.' + x for x in DOMS] + ['nosuch.example', 'example.com.evil.net', 'notexample.com', 'x.b.net', 'b.net', 'localhost', 'uk', 'co.uk', 'x.a.b.c', 'a.b'])
            host = H(d, rng)
        rem = self.ip('') if rng.random() < .85 else item('', 'str', '(null)', '(null)')
        return 'STREAM_ENDED', [I('', ch), I('', ci), I('', rng.randint(0, 65535)), I('', port), I('', read), I('', write), T('', s, rng),
                                T('', self.t, rng), host, rem, I('', rng.choice((1, 1, 2, 3, 0, 7)))]

    def circuit(self):
        rng = self.rng
        f = []
        ch, ci = rng.choice(self.circs)
        f += [I('PreviousChannelId', ch), I('PreviousCircuitId', ci)] if rng.random() < .9 else []
        place = rng.choice(('', 'IsDirFlag', 'IsHSDirFlag', 'IsIntroFlag', 'IsRendFlag', 'IsRendFlag', 'IsIntroFlag', 'IsExitFlag', 'IsExitFlag'))
        role = rng.choice(('IsEntryFlag', 'IsMidFlag', 'IsEndFlag', 'IsOriginFlag', 'both', 'IsEndFlag', 'IsEntryFlag'))
        for k in ('IsDirFlag', 'IsHSDirFlag', 'IsIntroFlag', 'IsRendFlag', 'IsExitFlag'):
            if k == place or rng.random() < (.04 if place == 'IsExitFlag' else .1):
                f.append(I(k, 1))
            elif rng.random() < .3:
                f.append(I(k, 0))
        for k in ('IsEntryFlag', 'IsMidFlag', 'IsEndFlag', 'IsOriginFlag'):
            if k == role or (role == 'both' and k in ('IsEntryFlag', 'IsEndFlag')) or rng.random() < .07:
                f.append(I(k, 1))
            elif rng.random() < .3:
                f.append(I(k, 0))
        f += [T('EventTimestamp', self.t, rng), T('CreatedTimestamp', self.start(), rng)]
        f += [I('IsLegacyCircuitEndEventFlag', 1 if rng.random() < .85 else 0)]
        f += [S('StateString', rng.choice(('open', 'closed', 'building')), rng), I('PurposeCode', rng.randint(1, 20))]
        for d in ('Inbound', 'Outbound'):
            for k in ('SentCellCount', 'ReceivedCellCount', 'ExitCellCount', 'ExitByteCount', 'DirByteCount'):
                if rng.random() < (.95 if k == 'ExitByteCount' else .5):
                    f.append(I(d + k, self.amount() if rng.random() < .5 else rng.randint(0, 5)))
        if rng.random() < .6:
            f.append(I('HiddenServiceVersionNumber', rng.choice((2, 3))))
        if rng.random() < .6:
            f.append(self.flag('IsHSClientSideFlag'))
        if rng.random() < .35:
            f.append(S('FailureReasonString', rng.choice(FAILS + ['other']), rng))
        for d in ('Previous', 'Next'):
            if rng.random() < .7:
                f.append(self.ip(d + 'NodeIPAddress'))
            if rng.random() < .2:
                f.append(S(d + 'NodeFingerprint', 'A' * 40, rng))
            if rng.random() < .2:
                f.append(S(d + 'NodeRelayFlagList', rng.choice(('', 'Fast', 'Exit,Fast,Guard,HSDir,Running', ','.join(['F'] * 20))), rng))
        for p in ('IntroClientSink', 'RendSplice', ''):
            if rng.random() < .2:
                f += [rng.choice((self.flag(p + 'IsClientIntroLegacyFlag'), self.flag(p + 'IsMarkedForCloseFlag'), I(p + 'OnionHandshakeType', rng.randint(0, 2)),
                                  I(p + 'ExitStreamCount', rng.randint(1, 9)), self.flag(p + 'HasReceivedCreateCellFlag'), I(p + 'NextChannelId', 7)))]
        if rng.random() < .2:
            f += [S('PurposeString', 'x' * rng.randint(1, 50), rng)]
        return 'CIRCUIT_CLOSE', f

    def connection(self):
        rng = self.rng
        f = [T('EventTimestamp', self.t, rng), T('CreatedTimestamp', self.start(), rng), I('ChannelId', rng.randint(0, 99)),
             self.flag('RemoteIsClientFlag'), self.ip('RemoteIPAddress'), I('RemoteIPAddressConnectionCount', rng.choice((0, 1, 2, 3, 5, 131072))),
             I('PeerIPAddressConsensusRelayCount', rng.choice((0, 0, 1, 2, 7, 100)))]
        for d in ('Inbound', 'Outbound'):
            for k in ('ByteCount', 'CircuitCount'):
                if rng.random() < .85:
                    f.append(I(d + k, self.amount()))
        if rng.random() < .8:
            f.append(S('RemoteCountryCode', rng.choice(('US', 'de', 'gb', '??', 'a1', 'zz', 'fr')), rng))
        if rng.random() < .3:
            f.append(self.ip('PeerIPAddress'))
        return 'CONNECTION_CLOSE', f

    def hsdir(self, store):
        rng = self.rng
        v = rng.choice((2, 3))
        f = [I('HiddenServiceVersionNumber', v), T('EventTimestamp', self.t, rng),
             S('CacheReasonString', rng.choice((STORES if store else FETCHES) + ['other']), rng)]
        if rng.random() < .6:
            f.append(self.flag('HasExistingCacheEntryFlag'))
        big = rng.choice((0, 1, 100, 1000, 5000, 40960) + ((1048576, 50000) if v == 3 else ()))
        if rng.random() < .7:
            f.append(I('EncodedDescriptorByteCount', big))
        if rng.random() < .7:
            f.append(I('EncodedIntroPointByteCount', rng.choice((0, big, big // 2))))
        if store:
            f.append(self.flag('WasAddedToCacheFlag'))
        else:
            f.append(I('CacheQueryByteCount', self.amount()))
            if rng.random() < .7:
                f.append(self.flag('HasCacheEntryFlag'))
        opt = [S('DescriptorIdBase32String', 'facebookcorewwwifacebookcorewwwi', rng)]
        if v == 2:
            opt += [I('IntroPointCount', rng.choice((0, 1, 2, 3, 10))), self.flag('RequiresClientAuthFlag'), T('DescriptorCreationTime', self.start(), rng),
                    S('OnionAddress', rng.choice(ONIONS), rng), S('OnionAddress', rng.choice(ONIONS), rng), S('SupportedProtocolBitfield', '0x1', rng),
                    I('CacheLastServedTime', 5) if not store else self.flag('RequiresClientAuthFlag')]
        else:
            opt += [I('RevisionNumber', rng.choice((0, 1, 2, 3, 4, 99))), S('DescriptorLifetime', '180', rng), S('BlindedEd25519PublicKeyBase64String', 'A' * 43, rng)]
            if not store:
                opt += [I('CacheCreatedTime', 7)]
        have = set()
        for i in opt:
            if rng.random() < .75 and i['k'] not in have:
                have.add(i['k'])
                f.append(i)
        return ('HSDIR_CACHE_STORE' if store else 'HSDIR_CACHE_FETCH'), f

    def any(self, family):
        rng = self.rng
        k = {'C17': ['stream'] * 9 + ['circuit'], 'C18': ['circuit'] * 6 + ['stream'] * 2, 'C19': ['connection'] * 3 + ['circuit'] * 2,
             'C20': ['store', 'fetch']}.get(family, ['stream', 'circuit', 'connection', 'store', 'fetch'])
        x = rng.choice(k)
        if x in ('store', 'fetch'):
            return self.hsdir(x == 'store')
        return getattr(self, x)()

    # one malformation
    def spoil(self, name, f):
        rng = self.rng
        f = [dict(i) for i in f]
        if name == 'STREAM_ENDED':
            k = rng.choice(('drop', 'extra', 'junk', 'wild', 'neg', 'float', 'empty', 'ctl'))
            if k == 'drop':
                f.pop(rng.randrange(len(f)))
            elif k == 'extra':
                f.insert(rng.randrange(len(f) + 1), I('', 3))
            elif k == 'empty':
                f = []
            else:
                j = rng.choice((0, 1, 2, 3, 4, 5, 6, 7, 10))
                x = {'junk': rng.choice(('x', '1x', '--1', '0x10', "u'1'", '\xc3\xa9', '1,5')), 'wild': rng.choice(('nan', 'inf', '-inf', 'NaN', '1e999', 'infinity')),
                     'ctl': '1\x002', 'neg': '-5', 'float': '1.5'}[k]
                t, v = ('junk', 0) if k in ('junk', 'ctl') else ('wild', 0) if k == 'wild' else ('int', -5) if k == 'neg' else ('num', 15)
                if k == 'neg' and j not in (4, 5):
                    j = 4
                if k == 'float' and j in (6, 7):
                    j = 0
                f[j] = item('', t, v, x)
            return name, f
        k = rng.choice(('drop', 'drop', 'dup', 'junk', 'junk', 'wild', 'range', 'range', 'bare', 'nokey', 'twice', 'ctl', 'empty', 'none'))
        j = rng.randrange(len(f))
        if k == 'drop':
            f.pop(j)
        elif k == 'dup':
            f.insert(rng.randrange(len(f) + 1), dict(f[j]))
        elif k == 'bare':
            f.insert(j, item(f[j]['k'], 'bare', 0, ''))
        elif k == 'nokey':
            f.insert(j, item('', 'str', 'x', 'x'))
        elif k == 'twice':
            f[j] = item(f[j]['k'], 'bare', 1, '1=' + f[j]['x'])
        elif k == 'ctl':
            f[j] = item(f[j]['k'], 'ctl', 0, f[j]['x'] + rng.choice(('\x00', '\n', '\r')) + 'z')
            if '\n' in f[j]['x']:
                f[j]['x'] = f[j]['x'].replace('\n', '\x00')
        elif k == 'empty':
            f[j] = item(f[j]['k'], 'junk', '', '')
        elif k == 'none':
            f = []
        elif k == 'range':
            i = f[j]
            if i['t'] == 'int':
                f[j] = I(i['k'], rng.choice((-1, 2, 4, 21, 101, 131073, 40961, 1048577, 3, 0, 1)))
            elif i['t'] == 'str':
                x = rng.choice((i['x'][:-1], i['x'] + 'q', i['x'] * 30, ''))
                f[j] = item(i['k'], 'str', x.lower(), x)
            elif i['t'] == 'num':
                f[j] = item(i['k'], 'num', -15, '-1.5')
            else:
                f[j] = item(i['k'], 'junk', '', rng.choice(('10.0.0', '1.2.3.4.5', '::g', '256.1.1.1', '1.2.3.4/8', '')))
        else:
            i = f[j]
            if i['t'] in ('int', 'num'):
                x = rng.choice(('x', '1x', '--1', '0x10', '', '1.5.5', '\xc3\xa9', '1_0')) if k == 'junk' else rng.choice(('nan', 'inf', '-inf', '1e999', 'Infinity', '-nan'))
                f[j] = item(i['k'], k, 0, x)
            elif i['t'] == 'ip':
                f[j] = item(i['k'], 'junk', '', 'nan')
        return name, f

def render(rng, name, f, shuffle=True):
    if name == 'STREAM_ENDED':
        return ''.join(' ' + i['x'] for i in f), f
    f = list(f)
    if shuffle:
        rng.shuffle(f)
    out = ''
    for i in f:
        out += ' ' * (2 if rng.random() < .03 else 1)
        out += i['x'] if i['k'] == '' and i['t'] == 'bare' else i['k'] + ('' if i['t'] == 'bare' and i['v'] == 0 else '=') + i['x']
    return out, f

OTHERS = ['CIRCUIT_CELL', 'STREAM_BYTES_TRANSFERRED', 'CIRCUIT_ENDED', 'CONNECTION_ENDED', 'VITERBI_PACKETS', 'VITERBI_STREAMS', 'DNS_RESOLVED', 'NO_SUCH_EVENT', '']
def story(rng, family=None):
    family = family or rng.choice(('C16', 'C16', 'C17', 'C18', 'C18', 'C19', 'C20', 'mix'))
    L, raw, versions = make_lists(rng)
    period = rng.choice((5, 20, 600)) if family in ('C19', 'C18', 'mix') else 600
    m = Maker(rng, L, versions)
    acts = []
    for _ in range(rng.choice((1, 1, 2))):
        acts.append({'a': 'start', 'c': choose(rng, family, L)})
        for _ in range(rng.randint(20, 50)):
            r = rng.random()
            if r < (.12 if period < 600 else .05):
                d = rng.choice((1, period // 2, period, period * 2 + 1)) if period < 600 else rng.choice((1, 3, 650) if family == 'C19' else (1, 3))
                acts.append({'a': 'wait', 'd': d})
                m.t += d * 10
            elif r < (.15 if family == 'C16' else .13):
                acts.append({'a': 'drop'})
            elif family == 'C16' and r < .25:
                n = rng.choice(OTHERS)
                f = m.any('mix')[1] if rng.random() < .5 else []
                x, f = render(rng, n, f)
                acts.append({'a': 'ev', 'n': n, 'x': x, 'i': f})
            else:
                n, f = m.any(family)
                if rng.random() < (.6 if family == 'C16' else .06):
                    n, f = m.spoil(n, f)
                x, f = render(rng, n, f)
                acts.append({'a': 'ev', 'n': n, 'x': x, 'i': f})
        acts.append({'a': 'stop'})
    return {'period': period, 'mode': 'bad' if family == 'C16' else family, 'L': L, 'raw': raw, 'acts': acts}

LAWS = {'C16': [], 'C17': ['stream'], 'C18': ['circuit'], 'C19': ['connection'], 'C20': ['descriptor']}
def run(ctx):
    p = ctx.pid
    rng = random.Random(ctx.seed)
    n = 1500 if ctx.thorough else 44
    scns = [story(rng, 'mix' if rng.random() < .1 else p) for _ in range(n)]
    for i, s in enumerate(scns):
        s['id'] = 'e%d' % i
    def models():
        env = {'NAMES': os.path.join(vlib.VERIF, 'spec', 'counters.json')}
        for f in LAWS[p]:
            vlib.model_check(ctx, 'EventsMC', 'EventsMC_%s.cfg' % f, env=env, workers=2)
        if p == 'C19':
            vlib.model_check(ctx, 'EventsRotMC', 'EventsRotMC%s.cfg' % ('3' if ctx.thorough else ''), workers=3)
        if p == 'C18' and ctx.thorough:
            vlib.model_check(ctx, 'EventsMC', 'EventsMC_circuitw.cfg', env=env, workers=4)
    def conf():
        t = vlib.drive(ctx, 'events', scns, per_min=4)
        vlib.sample_trace(ctx, t[0], 4)
        vlib.validate(ctx, TRACE, t)
    vlib.parallel(models, conf)
    ctx.notes['events'] = sum(1 for s in scns for a in s['acts'] if a['a'] == 'ev')
