'''C24: real nodes whose configuration files the driver rewrites'''
import sys, os, json, hmac, hashlib
import yaml
import sim
from sim import W
import deploy
from deploy import Net, INF, write, make_key
from peers import *
from tor import Tor, FP
from tracing import Tracer, scenarios
import privcount.crypto

T0 = 1000000
COUNTERS = {'c1': 'ExitStreamCount', 'c2': 'EntryConnectionCount', 'c3': 'ExitCircuitCount', 'cx': 'NoSuchCounter'}
BACK = dict((v, k) for k, v in COUNTERS.items())
BINS = {1: [[0.0, INF]], 2: [[0.0, 10.0]], 3: [[1.0, 5.0]],
        -1: [[5.0, 1.0]], -2: [], -3: [[0.0]], -4: 'x', -5: [[0.0, 10.0], [5.0, INF]], -6: None}
SECRETS = {'secret': b64decode(deploy.SECRET_K), 'secret_x': b64decode(deploy.SECRET_X)}
MILLIONTHS = ('sigma_decrease_tolerance', 'circuit_sample_rate')

def val(k, x):
    '''as the model sees the value x of key k'''
    if isinstance(x, bool):
        return {'t': 'bool', 'n': int(x), 's': ''}
    if isinstance(x, (int, long, float)):
        return {'t': 'num', 'n': int(round(x * 1e6)) if k in MILLIONTHS else int(x), 's': ''}
    if isinstance(x, list):
        return {'t': 'str', 'n': 0, 's': ','.join(str(i) for i in x)}
    if isinstance(x, dict):
        return {'t': 'conn', 'n': int(x['port']) if str(x.get('port', '')).lstrip('-').isdigit() else -1, 's': str(x.get('ip', ''))}
    if k == 'start_after':
        return {'t': 'time', 'n': since(x), 's': ''} if since(x) is not None else {'t': 'str', 'n': 0, 's': str(x)}
    return {'t': 'str', 'n': 0, 's': short(str(x))}

def since(x):
    import datetime
    try:
        return int((datetime.datetime.strptime(x, '%Y-%m-%dT%H:%M:%SZ') - datetime.datetime(1970, 1, 1)).total_seconds())
    except (ValueError, TypeError):
        return None

base = ''
def short(x):
    x = x[2:] if x.startswith('./') else x
    return x[len(base) + 1:] if base and x.startswith(base + '/') else '.' if x == base else x

def plain(x):
    if isinstance(x, dict):
        return dict((plain(k), plain(x[k])) for k in x)
    if isinstance(x, list):
        return [plain(i) for i in x]
    return str(x) if isinstance(x, unicode) else x

PATHS = ('secret_handshake', 'key', 'results')
def here(s):
    return dict((k, os.path.join(base, v) if k in PATHS and not v.startswith('./') else v) for k, v in s.items())

BROKEN = {'syntax': lambda t: t + '\n}:{ - [\n', 'empty': lambda t: '', 'tab': lambda t: '\t' + t, 'text': lambda t: 'just some words',
          'list': lambda t: '- 1\n- 2\n', 'cut': lambda t: t[:len(t) // 2] + '\n"x', 'nul': lambda t: t + '\0', 'number': lambda t: '17\n', 'comment': lambda t: '# ' + t.replace('\n', '\n# ')}
SECTION = {'dc': 'data_collector', 'sk': 'share_keeper', 'ts': 'tally_server'}

def write_file(path, kind, f):
    form = f['form']
    if os.path.exists(path):
        os.remove(path)
    sec = here(plain(f['sec']))
    top = dict(here(plain(f['top'])))
    if form == 'nosection':
        top['some_section'] = sec
    elif form == 'nullsection':
        top[SECTION[kind]] = None
    elif form == 'listsection':
        top[SECTION[kind]] = [sec]
    else:
        top[SECTION[kind]] = sec
    if f.get('others'):
        for k in SECTION:
            if k != kind:
                top[SECTION[k]] = {'name': 'of ' + k, 'delay_period': 77}
    text = yaml.dump(top)
    if form == 'missing':
        return
    if form == 'dir':
        return
    write(path, BROKEN[form](text) if form in BROKEN else text)

class Client(object):
    def __init__(self, s, tr):
        W.reset(T0)
        self.s, self.tr, self.kind = s, tr, s['kind']
        self.n = {'dc': 'dc1', 'sk': 'sk1'}[self.kind]
        self.net = Net(base, n_sk=3, dc_names=('dc1',), wire=False)
        self.digest = dict((n, self.net.sk_names[n]) for n in self.net.sk_names)
        self.path = self.net.p(self.n + '.yaml')
        self.alloc, self.peer, self.tor = None, None, None

    def model(self, f):
        sec = here(plain(f['sec']))
        return {'form': 'ok' if f['form'] == 'ok' else 'broken', 'sec': dict((k, val(k, v)) for k, v in sec.items() if v is not None),
                'top': dict((k, val(k, v)) for k, v in here(plain(f['top'])).items())}

    def fill(self, f):
        f = dict(f, sec=dict(f['sec']))
        if 'share_keepers' in f['sec']:
            f['sec']['share_keepers'] = [self.digest[n] for n in f['sec']['share_keepers']]
        return f

    def gone(self):
        return self.n in W.exits

    def edit(self, f):
        f = self.fill(f)
        write_file(self.path, self.kind, f)
        return self.model(f)

    def begin(self):
        f = self.edit(self.s['first'])
        try:
            self.net.run(self.n)
        except Exception as e:
            self.up = False
        else:
            self.up = not self.gone() and any(c.node == self.n for c in W.connecting)
        self.tr.emit({'e': 'reset', 'scn': self.s['id'], 'kind': self.kind, 'f': f, 'up': self.up,
                      'names': dict((n + '.key', d) for n, d in self.digest.items())})

    def read(self, fresh=False):
        '''a check-in'''
        if self.peer is not None and not self.peer.closed:
            self.peer.end.loseConnection()
            W.settle()
        for c in list(W.connecting):
            if c.node == self.n and c.dest.port < 30000:
                W.as_node(self.n, c.stopConnecting)
        if not fresh and not self.gone():
            try:
                W.as_node(self.n, self.net.nodes[self.n].do_checkin)
            except Exception as e:
                self.tr.emit({'e': 'read', 'gone': True})
                return
        self.tr.emit({'e': 'read', 'gone': self.gone()})

    def look(self):
        for c in list(W.connecting):
            if c.node == self.n and c.dest.port < 30000:
                break
        else:
            self.tr.emit({'e': 'look', 'gone': True, 'ip': '', 'port': 0, 'secret': '', 'name': ''})
            return False
        r = {'e': 'look', 'gone': False, 'ip': c.dest.host, 'port': c.dest.port, 'secret': '', 'name': ''}
        p = self.peer = Peer(W.accept_raw(c))
        cookie = 's' * 32
        p.send(P1 + ' ' + b64encode(cookie))
        h2 = p.got()[0].split()
        cc = b64decode(h2[4])
        for n in SECRETS:
            if h2[5] == mac(P2, cookie, cc, SECRETS[n]):
                r['secret'] = n
                p.send(P3 + ' ' + mac(P3, cookie, cc, SECRETS[n]))
        p.got()
        st = [l for l in self.ask(status_line()) if l.startswith('STATUS')]
        if st:
            r['name'] = json.loads(st[0].split(' ', 2)[2])['name']
        self.tr.emit(r)
        return True

    def ask(self, line):
        self.peer.send(line)
        run_until(W.now)
        return self.peer.got()

    def conf(self, j):
        c = dict(j['Config'])
        for k in ('modulus', 'min_blinded_counter_value', 'max_blinded_counter_value', 'min_tally_counter_value', 'max_tally_counter_value',
                  'Start', 'Stop', 'Time'):
            c.pop(k, None)
        self.tr.emit({'e': 'conf', 'conf': dict((str(k), val(k, v)) for k, v in plain(c).items())})

    def start(self, a):
        alloc = a['alloc']
        c = {'counters': dict((COUNTERS[k], {'bins': BINS[1]}) for k in alloc),
             'noise': {'counters': dict((COUNTERS[k], {'sigma': float(alloc[k])}) for k in alloc)},
             'noise_weight': {'*': 1.0}, 'dc_threshold': 1, 'collect_period': 100}
        r = {'e': 'start', 'sks': '', 'alloc': dict((k, alloc[k] * 1000000) for k in alloc), 'from': ''}
        if self.kind == 'dc':
            c['sharekeepers'] = dict(('u' + n, b64encode(privcount.crypto.get_serialized_public_key(self.net.p(n + '.key')))) for n in a['sks'])
            c['defer_time'] = 5.0
            r['sks'] = ','.join(self.digest[n] for n in a['sks'])
        else:
            c['shares'] = []
        out = [l for l in self.ask('START ' + json.dumps(c)) if l.startswith('START')]
        r['ok'] = bool(out) and out[0].startswith('START SUCCESS')
        if r['ok']:
            self.alloc = r['alloc']
            if self.kind == 'dc':
                sh = json.loads(out[0].split(' ', 2)[2])
                r['from'] = sorted(set(x['dc_name'] for x in sh.values()))[0]
                self.tor = None
        r['t'] = int(W.now - T0)
        self.tr.emit(r)

    def relay(self):
        '''the deferred connection to the relay'''
        if self.kind != 'dc' or self.alloc is None or self.tor is not None:
            return
        run_for(6)
        for c in list(W.connecting):
            if c.node == self.n and c.dest.port >= 30000:
                p = Peer(W.accept_raw(c))
                self.tor = Tor(p)
                run_for(1)
                self.tor.serve()
                self.tr.emit({'e': 'tor', 'port': c.dest.port, 'setconf': any(l.startswith('SETCONF EnablePrivCount=1') for l in self.tor.log)})

    def stop(self, send):
        run_for(1)
        out = [l for l in self.ask('STOP ' + json.dumps({'send_counters': send})) if l.startswith('STOP')]
        j = json.loads(out[0].split(' ', 2)[2])
        if self.tor is not None:
            self.tor.serve()
            self.tor = None
        self.conf(j)
        self.tr.emit({'e': 'stop', 'counts': bool(j.get('Counts')), 'alloc': self.alloc or {}, 't': int(W.now - T0)})
        self.alloc = None

    def run(self):
        self.begin()
        if not self.up or not self.look():
            return
        for a in self.s['acts']:
            k = a['a']
            if k == 'edit':
                self.tr.emit({'e': 'edit', 'kind': self.kind, 'f': self.edit(a['f'])})
            elif k == 'read':
                self.read()
                if self.gone() or not self.look():
                    break
            elif k == 'start' and self.alloc is None:
                self.start(a)
            elif k == 'relay':
                self.relay()
            elif k == 'stop':
                self.stop(a['send'])
            elif k == 'conf' and self.alloc is None:
                self.stop(False)
            elif k == 'wait':
                run_for(a['d'])
            run_until(W.now)
            if self.tor is not None:
                self.tor.serve()

class Server(object):
    '''a tally server with one data collector and one share keeper'''
    def __init__(self, s, tr):
        W.reset(T0)
        self.s, self.tr = s, tr
        self.net = Net(base, n_sk=0, dc_names=(), wire=False)
        self.path = self.net.p('ts.yaml')
        os.mkdir(self.net.p('other'))
        self.seen = dict((d, set()) for d in ('results', 'other', '.'))
        self.own, self.state = {}, 'idle'
        self.seen['.'] = set(os.listdir(base))

    def edit(self, f):
        for n, what in (('bins.yaml', 'bins'), ('sigmas.yaml', 'sig')):
            form = f[what + 'ok']
            p = self.net.p(n)
            d = {'counters': dict((COUNTERS[k], {'bins': BINS[v]} if what == 'bins' else {'sigma': float(v)}) for k, v in f[what].items())}
            if os.path.exists(p):
                os.remove(p)
            if form == 'ok':
                deploy.write_yaml(p, d)
            elif form == 'empty':
                write(p, '')
            elif form == 'syntax':
                write(p, yaml.dump(d) + '\n}:[')
            elif form == 'nokey':
                deploy.write_yaml(p, d['counters'])
            elif form == 'null':
                deploy.write_yaml(p, {'counters': None})
        sec = plain(f['sec'])
        full = dict(sec, key=self.net.p('ts.key'), cert=self.net.p('ts.cert'), secret_handshake=self.net.p('secret'),
                    counters=self.net.p('bins.yaml'), sigmas=self.net.p('sigmas.yaml'))
        if f['weights']:
            full['noise_weight'] = plain(f['weights'][0])
        for k in ('accept', 'reject'):
            if f[k]:
                full['counter_name_' + k] = str(f[k][1])
        write_file(self.path, 'ts', dict(f, sec=full, top=f['top']))
        return {'form': 'ok' if f['form'] == 'ok' else 'broken', 'sec': dict((k, val(k, v)) for k, v in here(sec).items()), 'top': {},
                'bins': f['bins'], 'sig': f['sig'], 'binsok': f['binsok'] == 'ok', 'sigok': f['sigok'] == 'ok',
                'accept': [f['accept'][0]] if f['accept'] else [], 'reject': [f['reject'][0]] if f['reject'] else [],
                'known': ['c1', 'c2', 'c3'], 'weights': f['weights'], 'dirs': ['results', 'other', '.']}

    def gone(self):
        return 'ts' in W.exits or port('ts') is None

    def begin(self):
        f = self.edit(self.s['first'])
        try:
            self.net.run('ts')
        except Exception as e:
            pass
        self.up = not self.gone()
        self.tr.emit({'e': 'reset', 'scn': self.s['id'], 'kind': 'ts', 'f': f, 'up': self.up, 'names': {}})

    def talk(self, u, state=None):
        '''a report of node u: (what the server says of itself, what it asks)'''
        p = dial()
        _, _, st = login(p)
        typ = 'DataCollector' if u == 'd1' else 'ShareKeeper'
        j = {'name': u, 'type': typ, 'state': state or ('active' if u in self.own else 'idle'), 'privcount_version': '1.1.2'}
        if u == 's1':
            j['public_key'] = 'KEY'
        else:
            j.update(fingerprint=FP, nickname='r')
        p.send('STATUS %s %s' % (W.time(), json.dumps(j)))
        run_until(W.now)
        return p, json.loads(st[0].split(' ', 2)[2]), p.got()

    def tlook(self, st, checkin=-1):
        c = st['continue']
        left = -1
        if 'expected_end_time' in st:
            left = int(round(st['expected_end_time'] - self.began)) if self.state == 'active' else -1
        u = st['delay_until']
        self.tr.emit({'e': 'tlook', 'dcth': st['dcs_required'], 'skth': st['sks_required'], 'cont': -1 - int(c) if isinstance(c, bool) else c,
                      'until': int(u) if u else 0, 'checkin': checkin, 'left': left})

    def step(self):
        '''both nodes report, and do what they are asked'''
        for u in ('d1', 's1'):
            if self.gone():
                return
            p, st, out = self.talk(u)
            if len(out) != 1:
                continue
            w, _, x = out[0].partition(' ')
            if w == 'CHECKIN':
                self.tlook(st, int(float(x)))
                p.send('CHECKIN SUCCESS')
            else:
                self.tlook(st)
                j = json.loads(x)
            if w == 'START':
                self.ask(u, j)
                self.own[u] = j
                sh = dict((n, 'share') for n in j.get('sharekeepers', {}))
                p.send('START SUCCESS ' + json.dumps(sh))
            elif w == 'STOP':
                c = self.own.pop(u, None)
                rep = {'Config': {'name': u}}
                if c is not None and j.get('send_counters'):
                    rep['Counts'] = dict((n, {'bins': [b[:2] + [5] for b in x['bins']]}) for n, x in c['counters'].items())
                p.send('STOP SUCCESS ' + json.dumps(rep))
            run_until(W.now)
            p.end.loseConnection()
            run_until(W.now)

    def ask(self, u, j):
        bins = {}
        for n, x in j['counters'].items():
            if n != 'ZeroCount':
                bins[BACK.get(n, n)] = ([k for k in BINS if BINS[k] == x['bins']] or [99])[0]
        sig = dict((BACK.get(n, n), int(round(x['sigma']))) for n, x in j['noise']['counters'].items() if n != 'ZeroCount')
        self.tr.emit({'e': 'ask', 'dc': u == 'd1', 'bins': bins, 'sig': sig, 'collect': int(j['collect_period']), 'dcth': j['dc_threshold'],
                      'weights': dict((str(k), int(v)) for k, v in j['noise_weight'].items()),
                      'rate': int(round(j.get('circuit_sample_rate', 1) * 1e6)), 'cells': j.get('max_cell_events_per_circuit', -1)})

    def outputs(self):
        for d in sorted(self.seen):
            new = sorted(f for f in set(os.listdir(self.net.p(d))) - self.seen[d] if f.startswith('privcount.'))
            self.seen[d] |= set(new)
            for f in new:
                if not f.startswith('privcount.outcome'):
                    continue
                with open(os.path.join(self.net.p(d), f)) as fh:
                    j = json.load(fh)
                c = j['Context']['TallyServer']['Config']
                k = c['continue']
                conf = {'collect': c['collect_period'], 'event': c['event_period'], 'checkin': c['checkin_period'], 'delay': c['delay_period'],
                        'always': c['always_delay'], 'tol': int(round(c['sigma_decrease_tolerance'] * 1e6)), 'dcth': c['dc_threshold'], 'skth': c['sk_threshold'],
                        'rate': int(round(c['circuit_sample_rate'] * 1e6)), 'cells': c['max_cell_events_per_circuit'],
                        'cont': -1 - int(k) if isinstance(k, bool) else k, 'after': int(c['start_after_time']),
                        'rej': c['reject_overlapping_lists'], 'weights': dict((str(x), int(y)) for x, y in c['noise_weight'].items())}
                t = j.get('Tally')
                self.tr.emit({'e': 'out', 'hastally': t is not None, 'tally': sorted(BACK.get(n, n) for n in t if n != 'ZeroCount') if t else [],
                              'counts': t is not None, 'conf': conf, 'dir': d, 't': int(round(j['Context']['Time']['End']))})
                self.state, self.own = 'idle', {}

    def run(self):
        self.begin()
        if not self.up:
            return
        self.step()
        for a in self.s['acts']:
            if self.gone():
                break
            k = a['a']
            if k == 'edit':
                self.tr.emit({'e': 'edit', 'kind': 'ts', 'f': self.edit(a['f'])})
            elif k == 'read':
                # every turn of the loop reads the file
                self.loop()
                if self.gone():
                    break
            elif k == 'step':
                self.step()
                self.outputs()
            elif k == 'wait':
                for _ in range(a['d']):
                    self.loop()
                    if self.gone():
                        break
                    if a.get('step', True):
                        self.step()
                        self.outputs()

    def loop(self):
        '''the next turn of the server's loop: it reads the file first'''
        self.tr.emit({'e': 'read', 'gone': False})
        run_for(self.every)
        if self.gone():
            self.tr.emit({'e': 'read', 'gone': True})
            return
        self.outputs()
        p = dial()
        st = json.loads(login(p)[2][0].split(' ', 2)[2])
        p.end.loseConnection()
        run_until(W.now)
        if st['state'] == 'active' and self.state == 'idle':
            self.state, self.began = 'active', int(round(st['time']))
            self.tr.emit({'e': 'begin', 't': int(W.now)})
        self.tlook(st)

    @property
    def every(self):
        return self.s['every']

def main():
    global base
    tr = Tracer(sys.argv[2])
    base = os.path.join(deploy.scratch(), 'n')
    for s in scenarios(sys.argv[1]):
        (Server if s['kind'] == 'ts' else Client)(s, tr).run()
    tr.close()

main()
