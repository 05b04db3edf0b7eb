"""a real tally server whose data collectors and share keepers are the driver"""
import sys, os, json, re
import sim
from sim import W
import deploy
from deploy import Net, INF
from peers import *
from privcount.counter import counter_modulus

T0 = 1000000
NAMES = {'c1': 'ExitStreamCount', 'c2': 'EntryConnectionCount', 'c3': 'ExitStreamByteHistogram'}
BACK = dict((v, k) for k, v in NAMES.items())
BINS = {'c1': [[0.0, INF]], 'c2': [[0.0, INF]], 'c3': [[0.0, 10.0], [10.0, 20.0], [20.0, INF]]}
M = counter_modulus()
FPS = [None] + [ch * 40 for ch in 'ABCDEF']
def ms(x):
    return int(round(x * 1000))
def rel():
    return ms(W.now - T0)
def unfp(f):
    return FPS.index(f) if f in FPS else 0 if not f else 99

class Conn(object):
    def __init__(self, n):
        self.n = n
        self.p = dial()
        login(self.p)
        self.reply = None

class Ts(object):
    def __init__(self, base, cfg):
        W.reset(T0)
        self.cfg = dict(cfg)
        self.net = Net(base, n_sk=0, dc_names=(), wire=False, **self.conf(cfg))
        self.net.run('ts')
        self.conns, self.nconn = {}, 0
        self.own, self.join = {}, 0
        self.seen = set(os.listdir(self.net.p('results')))
        self.start_conf = {}
        self.probing = None

    def conf(self, c):
        return dict(counters=dict((NAMES[k], {'bins': BINS[k]}) for k in c['alloc']),
                    sigmas=dict((NAMES[k], {'sigma': c['alloc'][k] / 4.0}) for k in c['alloc']),
                    ts_conf={'sk_threshold': c['skth'], 'dc_threshold': c['dcth'], 'collect_period': c['period'],
                             'event_period': c['event'], 'checkin_period': c['checkin'], 'delay_period': c['delay'],
                             'always_delay': c['always'], 'sigma_decrease_tolerance': c['tol'] / 4.0,
                             'continue': True if c['cont'] == -1 else False if c['cont'] == 1 and not c['after'] else c['cont'],
                             'start_after': time_iso(T0 + c['after'])})

    def cfg_ms(self, c):
        return dict(period=ms(c['period']), checkin=ms(c['checkin']), delay=ms(c['delay']), always=c['always'], tol=c['tol'],
                    alloc=c['alloc'], cont=c['cont'], dcth=c['dcth'], skth=c['skth'], after=ms(c['after']), jit=1000)

    def change(self, c, bad=None):
        c = dict(self.cfg, **c)
        x = self.conf(c)
        self.net.counters, self.net.sigmas = x['counters'], x['sigmas']
        keep = dict((k, self.net.ts_conf[k]) for k in self.net.ts_conf if k not in x['ts_conf'])
        self.net.ts_conf = dict(keep, **x['ts_conf'])
        if bad == 'threshold':
            self.net.ts_conf['dc_threshold'] = 0
        elif bad == 'key':
            del self.net.ts_conf['collect_period']
        elif bad == 'bins':
            self.net.counters[NAMES['c1']] = {'bins': [[5.0, 1.0]]}
        elif bad == 'sigma':
            self.net.sigmas[NAMES['c1']] = {'sigma': -3.0}
        elif bad == 'unknown':
            self.net.counters['NoSuchCounter'] = {'bins': [[0.0, INF]]}
            self.net.sigmas['NoSuchCounter'] = {'sigma': 3.0}
        elif bad == 'continue':
            self.net.ts_conf['continue'] = -1
        self.net.write_ts()
        if bad in ('threshold', 'key', 'continue'):
            self.net.ts_conf = dict(keep, **x['ts_conf'])
        if bad is None:
            self.cfg = c
        return self.cfg_ms(c)

    # one status report on connection c, and what the tally server asks for
    def status(self, key, u, lag=0, off=0, fp=0, ver='1.1.2', own=True, state=None, newkey=0):
        c = self.conns.get(key)
        if c is not None and (c.p.closed or c.reply is not None):
            c.p.end.loseConnection()
            W.settle()
            c = None
        if c is None:
            self.nconn += 1
            c = self.conns[key] = Conn(self.nconn)
            self.emit({'e': 'conn', 'c': c.n, 't': rel()})
        if lag:
            run_for(lag)
            self.emit({'e': 'wait', 't': rel()})
        typ = 'dc' if u[0] == 'd' else 'sk'
        st = state or ('active' if self.own.get(u) else 'idle')
        j = {'name': u, 'type': 'DataCollector' if typ == 'dc' else 'ShareKeeper', 'state': st, 'privcount_version': ver}
        k = 'KEY-%s-%d' % (u, newkey)
        if typ == 'sk':
            j['public_key'] = k
        elif fp:
            j['fingerprint'] = FPS[fp]
            j['nickname'] = 'relay'
        c.p.got()
        c.p.send('STATUS %s %s' % (W.time() + off, json.dumps(j)))
        run_until(W.now)
        out = c.p.got()
        r = {'e': 'status', 'c': c.n, 'u': u, 't': rel(), 'off': ms(off), 'closed': c.p.closed,
             'r': {'type': typ, 'state': st, 'fp': fp if typ == 'dc' else 0, 'key': k,
                   'bad': typ == 'dc' and ver.split(' ')[0] in ('1.0.0', '1.0.1')},
             'q': self.request(u, out)}
        q = r['q']
        c.q, c.conf = q['k'], getattr(self, 'conf_', None)
        if q['k'] == 'checkin' and own:
            c.p.send('CHECKIN SUCCESS')
            W.settle()
            self.conns.pop(key).p.end.loseConnection()
            W.settle()
        self.emit(r)
        return q

    def request(self, u, out):
        if len(out) != 1:
            return {'k': 'several' if out else 'none'}
        w, _, j = out[0].partition(' ')
        if w == 'CHECKIN':
            return {'k': 'checkin', 'period': ms(float(j))}
        if w not in ('START', 'STOP'):
            return {'k': 'other'}
        j = json.loads(j)
        if w == 'STOP':
            return {'k': 'stop', 'send': bool(j.get('send_counters'))}
        al = dict((BACK.get(n, n), int(round(x['sigma'] * 4))) for n, x in j['noise']['counters'].items() if n != 'ZeroCount')
        bins = dict((BACK.get(n, n), x['bins']) for n, x in j['counters'].items() if n != 'ZeroCount')
        r = {'k': 'startdc' if 'sharekeepers' in j else 'startsk', 'alloc': al, 'period': ms(j['collect_period']),
             'dcth': j['dc_threshold'], 'bins': bins == dict((k, BINS.get(k)) for k in al)}
        self.start_conf[u] = j
        if r['k'] == 'startdc':
            r['sks'] = dict((n, b64decode(x)) for n, x in j['sharekeepers'].items())
            r['defer'] = ms(j['defer_time'])
        else:
            r['shares'] = sorted(str(x) for x in j['shares'])
        return r

    def counts(self, u, v, odd=None):
        conf = self.start_conf.get(u)
        if conf is None:
            return {}
        out, b = {}, 0
        for n in sorted(conf['counters']):
            bins = []
            for lo, hi in [x[:2] for x in conf['counters'][n]['bins']]:
                bins.append([lo, hi, (v + 1000 * b) % M])
                b += 1
            out[n] = {'bins': bins}
        if odd == 'missing':
            del out[sorted(out)[0]]
        elif odd == 'bins':
            out[sorted(out)[0]]['bins'].append([3.0, 4.0, 0])
        elif odd == 'edge':
            out[sorted(out)[0]]['bins'][0][0] = 2.5
        elif odd == 'extra':
            out['EntryCircuitCount'] = {'bins': [[0.0, INF, v]]}
        elif odd == 'text':
            out[sorted(out)[0]]['bins'][0][2] = 'x'
        elif odd == 'none':
            out[sorted(out)[0]]['bins'][0][2] = None
        return out

    # the reply to the request on connection key
    def answer(self, key, u, q, how='ok', val=0, sks=None):
        '''act like a node that is asked q; returns the reply (kept on the connection)'''
        c = self.conns[key]
        if q['k'] in ('startdc', 'startsk'):
            if how == 'fail' or (q['k'] == 'startdc' and self.own.get(u)):
                c.reply = ('START FAIL', {'k': 'start', 'ok': False, 'sh': {}})
                return
            self.join += 1
            self.own[u] = self.join
            sh = {}
            if q['k'] == 'startdc':
                sh = dict((s, 'share-%s-%s-%d' % (u, s, self.join)) for s in q['sks'])
                if how == 'miss' and sh:
                    del sh[sorted(sh)[val % len(sh)]]
                elif how == 'extra':
                    sh['k9'] = 'share-%s-k9-%d' % (u, self.join)
                elif how == 'swap' and sh:
                    sh['k9'] = sh.pop(sorted(sh)[val % len(sh)])
            c.reply = ('START SUCCESS ' + json.dumps(sh), {'k': 'start', 'ok': True, 'sh': sh})
        elif q['k'] == 'stop':
            had = self.own.get(u)
            if how == 'fail':
                c.reply = ('STOP FAIL', {'k': 'stop', 'ok': False, 'kind': 'none', 'val': 0})
                return
            self.own[u] = 0
            if how == 'empty':
                x, kind = {'Counts': {}}, 'empty'
            elif how == 'null':
                x, kind = {'Counts': None}, 'none'
            elif not had and how != 'odd' or how == 'nocounts' or (not q['send'] and how != 'eager'):
                x, kind = {}, 'none'
            elif how == 'odd':
                odd = ('missing', 'bins', 'edge')[val % 3]
                x, kind = {'Counts': self.counts(u, val, odd)}, 'odd'
            elif how == 'junk':
                odd = ('text', 'none')[val % 2]
                x, kind = {'Counts': self.counts(u, val, odd)}, 'odd'
            else:
                x, kind = {'Counts': self.counts(u, val)}, 'good'
            if kind in ('good', 'odd') and not x['Counts']:
                kind = 'empty'
            x['Config'] = {'name': u, 'secret_handshake': '/path/to/secret'}
            c.reply = ('STOP SUCCESS ' + json.dumps(x), {'k': 'stop', 'ok': True, 'kind': kind, 'val': val})

    def deliver(self, key, u, again=False):
        c = self.conns.get(key)
        if c is None or c.reply is None or c.p.closed:
            return False
        line, r = c.reply
        c.p.got()
        c.p.send(line)
        run_until(W.now)
        out = c.p.got()
        r = dict(r, e='reply', c=c.n, u=u, t=rel(), served=len(out) == 1 and out[0].startswith('STATUS'))
        if not again:
            c.reply = None
        self.emit(r)
        return True

    def lose(self, key):
        c = self.conns.pop(key, None)
        if c is not None:
            c.p.end.loseConnection()
            W.settle()

    def probe(self):
        '''what the tally server says about itself'''
        if 'ts' in W.exits:
            return {'up': False}
        p = self.probing
        if p is not None and not p.closed:
            # the same connection, as long as it lasts
            p.got()
            p.send('START FAIL')
            st = p.got()
        else:
            st = []
        if not st:
            p = self.probing = dial()
            _, _, st = login(p)
        if not st or not st[0].startswith('STATUS'):
            return {'up': False}
        j = json.loads(st[0].split(' ', 2)[2])
        return {'up': True, 'state': j['state'], 'done': j['completed_phases'], 'di': j['dcs_idle'], 'da': j['dcs_active'],
                'si': j['sks_idle'], 'sa': j['sks_active']}

    def outputs(self):
        '''what has been published since the last time'''
        d = self.net.p('results')
        new = sorted(set(os.listdir(d)) - self.seen)
        self.seen |= set(new)
        res = []
        for f in new:
            m = re.match(r'privcount\.(outcome|tallies)\.(\d+)-(\d+)\.json$', f)
            with open(os.path.join(d, f)) as fh:
                j = json.load(fh)
            r = {'kind': m.group(1) if m else 'other', 'begin': ms(int(m.group(2)) - T0) if m else 0, 'end': ms(int(m.group(3)) - T0) if m else 0,
                 'tally': False, 'vals': [], 'fps': {}, 'names': []}
            t = j if r['kind'] == 'tallies' else j.get('Tally')
            if t is not None:
                r['tally'] = True
                r['names'] = sorted(BACK.get(n, n) for n in t)
                r['vals'] = [small(b[2]) for n in sorted(t) for b in t[n]['bins']]
            if r['kind'] == 'outcome':
                for u, x in j['Context'].get('DataCollector', {}).items():
                    r['fps'][u] = unfp(x.get('Status', {}).get('fingerprint'))
                r['start'], r['stop'] = ms(j['Context']['Time']['Start'] - T0), ms(j['Context']['Time']['Stopping'] - T0)
            res.append(r)
        return res

def small(v):
    if not isinstance(v, (int, long)) or abs(v) >= 2 ** 30:
        return 2 ** 30
    return int(v)

def time_iso(t):
    import datetime
    return (datetime.datetime(1970, 1, 1) + datetime.timedelta(seconds=t)).strftime('%Y-%m-%dT%H:%M:%SZ')
