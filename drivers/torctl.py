'''C10: a real data collector, or its control protocol alone, and an arbitrary relay'''
import sys, os, re
from nodes import *
from tracing import Tracer, scenarios
from privcount.protocol import TorControlClientProtocol
from twisted.internet.protocol import ClientFactory
from twisted.internet import reactor

SERVER = 'Tor safe cookie authentication server-to-controller hash'
CLIENT = 'Tor safe cookie authentication controller-to-server hash'
COUNTER = {'PRIVCOUNT_STREAM_ENDED': 'ExitStreamCount', 'PRIVCOUNT_CONNECTION_CLOSE': 'EntryConnectionCount',
           'PRIVCOUNT_CIRCUIT_CLOSE': 'EntryCircuitCount'}
def sign(key, cookie, a, b):
    return hmac.new(key, cookie + a + b, hashlib.sha256).digest()
def quote(s):
    return '"' + s.replace('\\', '\\\\').replace('"', '\\"') + '"'

class Bare(ClientFactory):
    '''what the control protocol needs of its factory'''
    def __init__(self, cfg, pwfile):
        self.cfg, self.pwfile, self.fp, self.proto, self.n, self.reject = cfg, pwfile, None, None, 0, False
        self.pending = None
    def buildProtocol(self, addr):
        self.proto = TorControlClientProtocol(self)
        if self.pending is not None:
            self.proto.startCollection(*self.pending)
        return self.proto
    def get_control_password(self):
        return self.pwfile
    def get_use_setconf(self):
        return self.cfg['setconf']
    def get_circuit_sample_rate(self):
        return 0.5 if self.cfg['rate'] else 1.0
    def get_max_cell_events_per_circuit(self):
        return 25 if self.cfg['cells'] else -1
    def set_fingerprint(self, f):
        if not re.match('^[0-9A-Fa-f]{40}$', f):
            return False
        self.fp = f
        return True
    def get_fingerprint(self):
        return self.fp
    def set_any(self, v):
        return True
    set_nickname = set_orport = set_dirport = set_tor_version = set_tor_privcount_version = set_address = \
        set_flag_list = set_geoip_file = set_geoipv6_file = set_any
    def handle_event(self, ev):
        if self.reject:
            return False
        self.n += 1
        return True

class Run(object):
    def __init__(self, base, s, i):
        W.reset(T0, seed=i + 1)
        self.s, self.cfg, self.i = s, s['cfg'], i
        self.base = base
        if not os.path.isdir(base):
            os.makedirs(base)
        self.pw = None
        self.pwtext = {'ok': ('correct horse', '8 bytes!', 'x' * 1024)[i % 3], 'short': ('', '7 bytes', 'a')[i % 3],
                       'long': 'y' * (1025 + i % 2 * 4000), 'missing': 'a password', 'none': ''}[self.cfg['pw']]
        if self.cfg['pw'] != 'none':
            self.pw = os.path.join(base, 'pw%d' % i)
            deploy.write(self.pw, self.pwtext)
        self.peer, self.nconn = None, 0
        self.tmp = [self.pw] if self.pw else []
        self.dc = s['mode'] == 'dc'
        if self.dc:
            conf = {'delay_period': 0, 'use_setconf': self.cfg['setconf'],
                    'event_source': {'ip': '127.0.0.1', 'port': 30000}}
            if self.pw:
                conf['event_source']['control_password'] = self.pw
            self.net = Net(os.path.join(base, 'n'), n_sk=1, dc_names=('dc1',), wire=False, dc_conf=conf)
            W.gauss_fn = lambda: 0
            self.net.run('dc1')
            self.ts = None
        else:
            self.f = Bare(self.cfg, self.pw)
        if self.cfg['pw'] == 'missing':
            os.remove(self.pw)

    def done(self):
        for p in self.tmp:
            if os.path.exists(p):
                os.remove(p)

    # ---- the tally server's part
    def talk(self, line):
        for _ in range(20):
            if self.ts is not None and not self.ts.closed:
                break
            run_until(W.now)
            self.ts = take('dc1')
            if self.ts is None:
                W.as_node('dc1', self.net.nodes['dc1'].do_checkin)
                self.ts = take('dc1')
            if self.ts is not None:
                serve(self.ts)
        self.ts.send(line)
        run_until(W.now)
        out = self.ts.got()
        out = [l for l in out if l.startswith(line.split(' ')[0])]
        return out[0] if out else ''

    def start(self, w):
        r = {'w': w, 'ok': True}
        if self.dc:
            c = {'counters': dict((COUNTER[e], {'bins': [[0.0, INF]]}) for e in w),
                 'noise': {'counters': dict((COUNTER[e], {'sigma': 1.0}) for e in w)},
                 'noise_weight': {'*': 1.0}, 'dc_threshold': 1, 'collect_period': 100,
                 'sharekeepers': {'u1': b64encode(get_serialized_public_key(self.net.p('sk1.key')))}}
            if self.cfg['rate']:
                c['circuit_sample_rate'] = 0.5
            if self.cfg['cells']:
                c['max_cell_events_per_circuit'] = 25
            rep = self.talk('START ' + json.dumps(c))
            r['ok'] = rep.startswith('START SUCCESS')
            self.shares, self.w = None, w
            if r['ok']:
                sh = json.loads(rep.split(' ', 2)[2])['u1']
                sc = SecureCounters(dict((n, {'bins': b['bins'], 'sigma': 1.0}) for n, b in c['counters'].items()), M,
                                    require_generate_noise=False)
                sc.import_blinding_share({'secret': decrypt(load_private_key_file(self.net.p('sk1.key')), sh['secret'])})
                self.blind = sc.detach_counts()
            run_until(W.now)
        else:
            k = self.i % 3
            cs, evs = [COUNTER[e] for e in w], list(w)
            a = ((cs, None), (None, [e.lower() for e in evs] + ['nonsense']), (cs, evs[:1]))[k]
            if self.f.proto is None:
                self.f.pending = a
            else:
                W.as_node('cl', self.f.proto.startCollection, *a)
        r.update(self.saw())
        return r

    def stop(self):
        r = {'got': 0}
        if self.dc:
            run_for(1)
            rep = self.talk('STOP ' + json.dumps({'send_counters': True}))
            r['ok'] = rep.startswith('STOP SUCCESS')
            cnt = (json.loads(rep.split(' ', 2)[2]).get('Counts') or {}) if r['ok'] else {}
            if set(cnt) != set(COUNTER[e] for e in self.w):
                r['ok'] = False
            else:
                r['got'] = sum(small(signed(b[2] + c[2])) for n in cnt for b, c in zip(cnt[n]['bins'], self.blind[n]['bins']))
        else:
            r['ok'] = True
            W.as_node('cl', self.f.proto.stopCollection)
        r.update(self.saw())
        return r

    # ---- the relay's part
    def conn(self):
        if self.dc:
            p = None
            for _ in range(4000):
                run_until(W.now)
                p = take('dc1', 30000)
                if p is not None or 'dc1' in W.exits:
                    break
                run_for(1)
            self.peer = p
        else:
            c = W.as_node('cl', reactor.connectTCP, '127.0.0.1', 30000, self.f)
            self.peer = Peer(W.accept_raw(W.connecting[-1]))
        self.nconn += 1
        self.sent, self.snonce, self.cnonce, self.cookiefile = [], None, None, None
        r = {'up': self.peer is not None}
        r.update(self.saw())
        return r

    def lost(self):
        if self.peer is not None:
            W.close(self.peer.end)
            run_until(W.now)
        self.peer = None

    def cookie(self, k):
        '''a cookie file that holds k'''
        name = ('cookie', 'a cookie', 'back\\slash', 'quo"te', 'sp COOKIEFILE= x')[self.i % 5] + '%d-%d' % (self.i, len(self.tmp))
        self.cookiefile = os.path.join(self.base, name)
        n = {'ok': 32, 'short': (31, 0, 5)[self.i % 3], 'long': (33, 64)[self.i % 2], 'missing': 32}[k]
        self.cookieval = hashlib.sha512('cookie %d' % self.i).digest()[:n]
        if k != 'missing':
            self.tmp.append(self.cookiefile)
            deploy.write(self.cookiefile, self.cookieval)
        else:
            self.cookieval = ''
        return self.cookiefile

    def text(self, l):
        k, i = l['k'], self.i
        if k == 'auth':
            t = '250-AUTH METHODS=' + ','.join(l['m'])
            if l['ck'] != 'none':
                t += ' COOKIEFILE=' + quote(self.cookie(l['ck']))
            elif i % 2:
                t += ' COOKIEFILE=""'
            return t
        if k == 'chal':
            h, n = l['h'], l['n']
            nonce = hashlib.sha256('nonce %d %d' % (i, self.nconn)).digest()
            sent = {'ok': nonce, 'short': nonce[:31], 'long': nonce + 'x', 'badhex': nonce, 'none': ''}[n]
            ck, cn = getattr(self, 'cookieval', ''), self.cnonce or 'c' * 32
            v = {'right': lambda: sign(SERVER, ck, cn, sent), 'wrongkey': lambda: sign('wrong', ck, cn, sent),
                 'otherfile': lambda: sign(SERVER, 'z' * 32, cn, sent),
                 'otherclient': lambda: sign(SERVER, ck, 'o' * 32, sent), 'othernonce': lambda: sign(SERVER, ck, cn, 'm' * 32),
                 'clientkey': lambda: sign(CLIENT, ck, cn, sent), 'zero': lambda: '\0' * 32,
                 'short': lambda: sign(SERVER, ck, cn, sent)[:31], 'long': lambda: sign(SERVER, ck, cn, sent) + 'x',
                 'badhex': lambda: 'z', 'none': lambda: ''}[h]()
            hx = lambda s: s.encode('hex') if i % 2 else s.encode('hex').upper()
            self.snonce = sent
            return '250 AUTHCHALLENGE SERVERHASH=%s SERVERNONCE=%s' % ('xyz' if h == 'badhex' else hx(v),
                                                                     'abc' if n == 'badhex' else hx(sent))
        if k == 'ev':
            a = {'PRIVCOUNT_STREAM_ENDED': '1 2 3 80 10 20 %s %s example.com 192.0.2.1 1' % (W.now - 5, W.now),
                 'PRIVCOUNT_CONNECTION_CLOSE': 'EventTimestamp=%s CreatedTimestamp=%s ChannelId=5 RemoteIsClientFlag=1 RemoteIPAddress=192.0.2.1 '
                     'RemoteIPAddressConnectionCount=1 PeerIPAddressConsensusRelayCount=0 InboundByteCount=3 OutboundByteCount=4 '
                     'InboundCircuitCount=1 OutboundCircuitCount=1 RemoteCountryCode=us' % (W.now, W.now - 5),
                 'PRIVCOUNT_CIRCUIT_CLOSE': 'EventTimestamp=%s CreatedTimestamp=%s IsLegacyCircuitEndEventFlag=1 StateString=open PurposeCode=5 '
                     'IsEntryFlag=1 PreviousChannelId=1 PreviousCircuitId=2 InboundExitByteCount=10 OutboundExitByteCount=10 '
                     'PreviousNodeIPAddress=192.0.2.1' % (W.now, W.now - 5)}.get(l['t'], 'A=1')
            name = l['t'] if l['t'].startswith('PRIVCOUNT_') else 'PRIVCOUNT_' + l['t']
            return '650 ' + name + ('' if l['d'] == 'empty' else ' ' + a)
        if k == 'fp':
            return '250-fingerprint=' + {'ok': FP, 'short': FP[1:], 'bad': 'G' * 40, 'empty': ''}[l['v']]
        v = {'pi': ['250-PROTOCOLINFO 1'], 'ver': ['250-VERSION Tor="0.3.2.10"'], 'ok': ['250 OK', '250 OK  '],
             'ok2': ['250 closing', '200 fine', '250-', '251 x'], 'info': ['250 Nickname=relay', '250-ORPort=9001', '250 ORPort=9002', '250 DirPort',
             '250-version=0.3.2.10 (git-0123456789abcdef)', '250-address=192.0.2.7', '250 GeoIPFile=/x', '250 GeoIPv6File', '250 Nickname'],
             'pcv': ['250-privcount-version=1.1.2'], 'epc1': ['250 EnablePrivCount=1'], 'epc0': ['250 EnablePrivCount=0'],
             'nsbegin': ['250+ns/id/%s=' % FP], 'nsgone': ['250-ns/id/%s=' % FP], 'nsunk': ['552 Unrecognized key "ns/id/%s"' % FP],
             'err': ['515 Authentication failed', '510 Unrecognized command', '551 Internal error', '512 x', '5'],
             'nopcv': ['552 Unrecognized key "privcount-version"'], 'noserver': ['551 Not running in server mode'],
             'unk': ['552 Unrecognized option: Unknown option "EnablePrivCount".  Failing.'], 'noaddr': ['551 Address unknown'],
             'nss': ['s Exit Fast Running'], 'nsend': ['.'], 'junk': ['hello', '', '150 x', '650', 'PRIVCOUNT_STREAM_ENDED 1', '401 no'],
             'bw': ['650 BW 1 2', '650 privcount_x', '651 PRIVCOUNT_X']}[k]
        return v[(i + len(self.sent)) % len(v)]

    def line(self, l):
        if self.peer is None or self.peer.closed:
            return None
        if not self.dc:
            self.f.reject = l.get('d') == 'reject'
            n0 = self.f.n
        t = self.text(l)
        self.sent.append(t)
        if l['k'] != 'ok' and t == '':
            t = ' '
        cut = self.i % 4 == 3      # however the bytes are divided
        if cut:
            self.peer.raw(t[:len(t) // 2])
            self.peer.raw(t[len(t) // 2:] + '\r\n')
        else:
            self.peer.send(t)
        r = {'l': l, 'n': 0 if self.dc else self.f.n - n0}
        r.update(self.saw())
        return r

    def saw(self):
        '''what the collector has said on the control connection'''
        if self.peer is None:
            return {'out': [], 'shut': False}
        out = []
        C = lambda c, v, e=(): out.append({'c': c, 'v': v, 'e': sorted(e)})
        for t in self.peer.got():
            w = t.split(' ')
            if w[0] == 'AUTHCHALLENGE':
                try:
                    nn = w[2].decode('hex') if len(w) == 3 and w[1] == 'SAFECOOKIE' else ''
                except TypeError:
                    nn = ''
                fresh = len(nn) == 32 and nn not in ALLNONCES
                ALLNONCES.add(nn)
                self.cnonce = nn
                C('AUTHCHALLENGE', 'fresh' if fresh else 'stale')
            elif w[0] == 'AUTHENTICATE':
                try:
                    v = ' '.join(w[1:]).decode('hex')
                except TypeError:
                    v = '?'
                if t == 'AUTHENTICATE':
                    C(w[0], 'none')
                elif self.pw and v == self.pwtext:
                    C(w[0], 'pw')
                elif self.cnonce and v == sign(CLIENT, self.cookieval, self.cnonce, self.snonce or ''):
                    C(w[0], 'hash')
                else:
                    C(w[0], 'other')
            elif w[0] == 'SETEVENTS':
                C(w[0], '', w[1:])
            elif w[0] == 'SETCONF' or t in ('GETCONF EnablePrivCount', 'GETINFO fingerprint') or w[0] == 'SET_TMODEL':
                C(w[0], ' '.join(w[1:]))
            elif w[0] in ('PROTOCOLINFO', 'GETCONF', 'GETINFO'):
                pass
            elif t == 'QUIT':
                C(w[0], '')
            else:
                C('other', re.sub('[^A-Za-z0-9 ]', '.', t)[:40])
        seen, uniq = set(), []
        for o in out:
            if repr(o) not in seen:
                seen.add(repr(o))
                uniq.append(o)
        return {'out': uniq, 'shut': bool(self.peer.closed)}

ALLNONCES = set()

def main():
    tr = Tracer(sys.argv[2])
    base = os.path.join(deploy.scratch(), 't')
    for i, s in enumerate(scenarios(sys.argv[1])):
        n = Run(base, s, s.get('k', i))
        ALLNONCES.clear()
        tr.emit({'e': 'reset', 'scn': s['id'], 'mode': s['mode'], 'cfg': s['cfg']})
        for a in s['h']:
            k = a['a']
            if k == 'init':
                if a['w']:
                    tr.emit(dict(n.start(a['w']), e='start', scn=s['id']))
                if n.dc and not a['w']:
                    break
                tr.emit(dict(n.conn(), e='conn', scn=s['id']))
                continue
            elif k == 'line':
                r = n.line(a['l'])
            elif k == 'start':
                r = n.start(a['w'])
            elif k == 'stop':
                r = n.stop()
            elif k == 'conn':
                r = n.conn()
            elif k == 'lost':
                n.lost()
                r = {}
            elif k == 'wait':
                run_for(a['d'])
                r = n.saw()
            if r is None:
                continue
            r.update(e=k, scn=s['id'])
            tr.emit(r)
            if W.exits:
                tr.emit({'e': 'gone', 'scn': s['id']})
                break
        n.done()
    tr.close()

main()
