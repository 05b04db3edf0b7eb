'''C11: the real event injector and arbitrary clients'''
import sys, os, re
from binascii import hexlify, unhexlify
from nodes import *
from tracing import Tracer, scenarios
from privcount import inject
from privcount.protocol import get_valid_events

SERVER = 'Tor safe cookie authentication server-to-controller hash'
CLIENT = 'Tor safe cookie authentication controller-to-server hash'
EVENTS = sorted(get_valid_events())
def sign(key, cookie, a, b):
    return hmac.new(key, cookie + a + b, hashlib.sha256).digest()
def quote(s):
    return '"' + s.replace('\\', '\\\\').replace('"', '\\"') + '"'
def num(x):
    '''times as halves of a second'''
    return '%.1f' % (x / 2.0)

# ---- the log
def text(i, ev):
    a, b, k = num(ev['end'] - ev['dur']), num(ev['end']), ev['kind']
    f = lambda n: ['f%d.%d' % (i, j) for j in range(n)]
    if k == 'bytes':
        p = ['PRIVCOUNT_STREAM_BYTES_TRANSFERRED'] + f(5) + [b]
    elif k in ('stream', 'circuit'):
        p = ['PRIVCOUNT_%s_ENDED' % k.upper()] + f(6) + [a, b] + f({'stream': 11, 'circuit': 12}[k] - 8)
    elif k == 'conn':
        p = ['PRIVCOUNT_CONNECTION_ENDED'] + f(1) + [a, b] + f(2)
    elif k == 'close':
        p = ['PRIVCOUNT_CIRCUIT_CLOSE', 'Id=f%d' % i, 'CreatedTimestamp=' + a, 'EventTimestamp=' + b, 'Empty=', 'Q="x%d"' % i]
    elif k == 'cell':
        p = ['PRIVCOUNT_CIRCUIT_CELL', 'EventTimestamp=' + b, 'Id=f%d' % i, 'CacheCreatedTime=' + a]
    else:
        p = ['PRIVCOUNT_STREAM_ENDED'] + f(3)
    return p

def parse(parts, k):
    '''the times in an event, and everything else'''
    t = {'bytes': (6, 6), 'stream': (7, 8), 'circuit': (7, 8), 'conn': (2, 3)}.get(k)
    if k == 'odd':
        return None, None, parts
    if t:
        rest = [p for j, p in enumerate(parts) if j not in t]
        return parts[t[0]], parts[t[1]], rest
    d = [p.partition('=') for p in parts[1:]]
    v = dict((x[0], x[2]) for x in d)
    end = v.get('EventTimestamp')
    return v.get('CreatedTimestamp', end), end, parts[:1] + sorted(p for p in parts[1:] if not p.startswith(('CreatedTimestamp=', 'EventTimestamp=')))

class Run(object):
    def __init__(self, base, s, i):
        W.reset(T0, seed=i + 1)
        self.s, self.cfg, self.i = s, s['cfg'], i
        if not os.path.isdir(base):
            os.makedirs(base)
        self.tmp = []
        c = self.cfg
        self.pwtext = {'ok': ('correct horse', '8 bytes!', 'back\\slash "quotes"', 'x' * 1024)[i % 4], 'short': ('', '7 bytes', 'a')[i % 3],
                       'long': 'y' * 1025, 'missing': 'a password', 'none': 'a password'}[c['pw']]
        pw = None
        if c['pw'] != 'none':
            pw = os.path.join(base, 'pw%d' % i)
            if c['pw'] != 'missing':
                self.tmp.append(pw)
                deploy.write(pw, self.pwtext)
        ck = None
        if c['ck'] == 'ok':
            ck = os.path.join(base, ('cookie', 'a cookie', 'back\\slash', 'quo"te')[i % 4] + str(i))
            self.tmp.append(ck)
        elif c['ck'] == 'bad':
            ck = os.path.join(base, 'nowhere%d' % i, 'cookie')
        self.ckfile = ck
        log = os.path.join(base, 'log%d' % i)
        self.tmp.append(log)
        self.log = [text(j + 1, e) for j, e in enumerate(c['log'])]
        deploy.write(log, ''.join(' '.join(p) + '\n' for p in self.log))
        class A(object):
            pass
        a = A()
        a.log, a.simulate = log, c['pause']
        a.prune_before, a.prune_after = c['before'] / 2.0, c['after'] / 2.0
        a.control_password, a.control_cookie_file = pw, ck
        a.port, a.ip, a.unix = 30001, '127.0.0.1', None
        W.as_node('inj', inject.run_inject, a)
        self.peers, self.dead = [], False
        self.seen = set()

    def done(self):
        for p in self.tmp:
            if os.path.exists(p):
                os.remove(p)

    def conn(self):
        p = port('inj', 30001)
        if p is None:
            return {'up': False}
        self.peers.append(dial('inj', 30001))
        k = self.peers[-1]
        k.cookie, k.nonces, k.out, k.evs, k.servhash = None, [], [], [], ''
        return {'up': True}

    def lost(self, c):
        W.close(self.peers[c - 1].end)
        run_until(W.now)

    def line(self, p, l):
        k, i = l['k'], self.i
        w = k.split(' ')
        if k == 'authenticate':
            v = l['p']
            other = [q for q in self.peers if q is not p and q.cookie and q.nonces]
            def proof(q, n=-1):
                a, b = q.nonces[n] if len(q.nonces) >= -n else ('', '')
                return sign(CLIENT, q.cookie or '', a, b)
            x = {'pwhex': lambda: hexlify(self.pwtext), 'pwquoted': lambda: quote(self.pwtext),
                 'right': lambda: hexlify(proof(p)),
                 'other': lambda: hexlify(proof(other[0]) if other else 'z' * 32),
                 'mixed': lambda: hexlify(sign(CLIENT, p.cookie or '', *other[0].nonces[-1]) if other else 'z' * 32),
                 'earlier': lambda: hexlify(proof(p, -2) if len(p.nonces) > 1 else 'y' * 32),
                 'reflect': lambda: hexlify(p.servhash or 'x' * 32),
                 'badhex': lambda: 'nothexatall!', 'oddhex': lambda: 'abc', 'bare': lambda: '"' + 'unbalanced',
                 'empty': lambda: '', 'emptyquoted': lambda: '""', 'wrong': lambda: quote('wrong password'),
                 'prefix': lambda: hexlify(self.pwtext[:-1]), 'longer': lambda: hexlify(self.pwtext + 'x'),
                 'case': lambda: hexlify(self.pwtext.swapcase() + '.' * (self.pwtext.swapcase() == self.pwtext)),
                 'zero': lambda: '00' * 32, 'truncated': lambda: hexlify(proof(p)[:31]), 'extended': lambda: hexlify(proof(p) + '\0'),
                 'nonces': lambda: hexlify(sign(CLIENT, p.cookie or '', *reversed(p.nonces[-1] if p.nonces and p.nonces[-1][0] else ('', 'a')))),
                 'cookie': lambda: hexlify(p.cookie or 'w' * 32)}[v]()
            return 'AUTHENTICATE ' + x if x else 'AUTHENTICATE'
        if k == 'challenge':
            n = (32, 0, 1, 1024, 20)[(i + len(p.nonces)) % 5]
            p.ask = hashlib.sha512('%d %d' % (i, len(p.nonces))).digest() * 16
            p.ask = p.ask[:n]
            x = {'ok': (quote('q' * n) if i % 7 == 0 else hexlify(p.ask)), 'long': 'ab' * 1025, 'badhex': 'zz' * 20}
            if l['p'] == 'ok' and i % 7 == 0:
                p.ask = 'q' * n
            if l['p'] == 'other':
                return 'AUTHCHALLENGE ' + ('COOKIE ' + hexlify(p.ask), '')[i % 2]
            return 'AUTHCHALLENGE SAFECOOKIE ' + x[l['p']]
        if k == 'protocolinfo':
            return ('PROTOCOLINFO 1', 'PROTOCOLINFO')[i % 2]
        if k == 'quit':
            return 'QUIT'
        if k == 'events':
            e = [EVENTS[(i * 7 + j * 3) % len(EVENTS)] for j in range(1 + i % 4)]
            return 'SETEVENTS ' + ' '.join(e if i % 3 else [x.lower() for x in e])
        if k == 'events none':
            return 'SETEVENTS'
        if k == 'events unknown':
            return 'SETEVENTS ' + ('BOGUS', EVENTS[0] + ' BOGUS OTHER', 'PRIVCOUNT_')[i % 3]
        cmd = {'info': 'GETINFO', 'conf': 'GETCONF', 'set': 'SETCONF', 'tmodel': 'SET_TMODEL'}.get(w[0])
        if cmd is None:
            return ('FROB x', 'setevents', 'GETINFOX', 'authenticate', 'AUTHENTICATED' if False else 'SIGNAL RELOAD', '')[i % 6] if k == 'junk' else k
        arg = {'info ns': 'ns/id/' + FP, 'info unknown': 'no-such-thing', 'conf geoip': 'GeoIPFile', 'conf privcount': 'EnablePrivCount',
               'conf unknown': 'foo', 'conf nickname': 'Nickname', 'conf orport': 'ORPORT', 'conf dirport': 'dirport',
               'set privcount': 'EnablePrivCount=1', 'set rate': 'PrivCountCircuitSampleRate=0.5',
               'set cells': 'PrivCountMaxCellEventsPerCircuit=25', 'set reload': '__ReloadTorrcOnSIGHUP=0', 'set unknown': 'Nickname=x',
               'tmodel': ('FALSE', 'TRUE {}')[i % 2]}.get(k, ' '.join(w[1:]))
        return (cmd + ' ' + arg).strip()

    def say(self, c, ls):
        p = self.peers[c - 1]
        p.end.write(''.join(str(self.line(p, l)) + '\r\n' for l in ls))
        run_until(W.now)

    def saw(self, c, ls):
        '''what every connection has received: reply codes, what is in them, and events'''
        run_until(W.now)
        r = {'out': [], 'other': [], 'ev': [], 'closed': [bool(q.closed) for q in self.peers], 'pi': [], 'chal': [],
             'now': int(W.now * 2 - T0 * 2)}
        for j, q in enumerate(self.peers):
            for l in q.got():
                if l.startswith('650 '):
                    r['ev'].append(self.event(j + 1, l[4:].split()))
                    continue
                m = re.match('^([0-9]{3})([-+ ])(.*)$', l)
                if not m:
                    continue
                if j + 1 != c:
                    r['other'].append(j + 1)
                    continue
                r['out'].append(int(m.group(1)))
                t = m.group(3)
                if t.startswith('AUTH METHODS='):
                    me, _, cf = t[len('AUTH METHODS='):].partition(' COOKIEFILE=')
                    pi = {'m': sorted(x for x in me.split(',') if x), 'ck': 'none'}
                    if cf:
                        q.cookie, old = '', q.cookie
                        if cf == quote(self.ckfile) or cf == hexlify(self.ckfile):
                            with open(self.ckfile, 'rb') as fh:
                                q.cookie = fh.read()
                        pi['ck'] = 'ok' if len(q.cookie) == 32 and (q.cookie == old or q.cookie not in self.seen) else 'bad'
                        self.seen.add(q.cookie)
                    r['pi'].append(pi)
                m = re.match('^AUTHCHALLENGE SERVERHASH=([0-9A-Fa-f]+) SERVERNONCE=([0-9A-Fa-f]+)$', t)
                if m:
                    h, n = unhexlify(m.group(1)), unhexlify(m.group(2))
                    q.nonces.append((q.ask, n))
                    q.servhash = h
                    r['chal'].append({'proof': 'right' if h == sign(SERVER, q.cookie or '', q.ask, n) else 'wrong',
                                      'fresh': len(n) == 32 and n not in self.seen})
                    self.seen.add(n)
        return r

    def event(self, c, parts):
        for j, p in enumerate(self.log):
            k = self.cfg['log'][j]['kind']
            a, b, rest = parse(p, k)
            if len(parts) != len(p) or parts[0] != p[0]:
                continue
            x, y, rest2 = parse(parts, k)
            if rest2 == rest:
                if k == 'odd':
                    return {'c': c, 'i': j + 1, 'at': -1, 'dur': 0}
                try:
                    s, e = int(round(float(x) * 2)), int(round(float(y) * 2))
                except (TypeError, ValueError):
                    break
                return {'c': c, 'i': j + 1, 'at': e - T0 * 2, 'dur': e - s}
        return {'c': c, 'i': 0, 'at': -1, 'dur': 0}

def main():
    tr = Tracer(sys.argv[2])
    base = os.path.join(deploy.scratch(), 'i')
    for i, s in enumerate(scenarios(sys.argv[1])):
        n = Run(base, s, s.get('k', i))
        c = s['cfg']
        tr.emit({'e': 'reset', 'scn': s['id'], 'cfg': c})
        for a in s['h']:
            k = a['a']
            if k == 'conn':
                r = n.conn()
                if not r['up']:
                    break
                r.update(n.saw(0, []))
            elif k == 'line':
                if n.peers[a['c'] - 1].closed:
                    continue
                n.say(a['c'], a['ls'])
                r = n.saw(a['c'], a['ls'])
                r.update(c=a['c'], ls=a['ls'])
            elif k == 'lost':
                n.lost(a['c'])
                r = n.saw(0, [])
                r['c'] = a['c']
            else:
                run_for(a.get('d', 10000000))
                r = n.saw(0, [])
                r['all'] = 'd' not in a
            r.update(e=k, scn=s['id'])
            tr.emit(r)
            if W.exits:
                break
        n.done()
    tr.close()

main()
