'''C15: start requests and configuration files, good and bad, for real nodes'''
import sys, os, json
import sim
from sim import W
import deploy
from deploy import Net, INF
from peers import *
from tracing import Tracer, scenarios

SCALE = 4.0
def num(x):
    t = x['t']
    if t == 'n':
        return int(x['v'] / SCALE) if x.get('int') else x['v'] / SCALE
    if t in ('inf', 'ninf', 'nan'):
        return {'inf': INF, 'ninf': -INF, 'nan': INF - INF}[t]
    if t == 'w':
        v = x['u'] * 2 ** 60 + x['m']
        return v if x['m'] or x.get('int') else float(v)
    if t == 'dict':
        return dict((k, num(v)) for k, v in x['d'].items())
    if t == 'list':
        return [num(v) for v in x['s']]
    return x.get('x')

def tagged(x):
    '''the structure without the concrete values'''
    if x['t'] == 'dict':
        return {'t': 'dict', 'd': dict((k, tagged(v)) for k, v in x['d'].items())}
    if x['t'] == 'list':
        return {'t': 'list', 's': [tagged(v) for v in x['s']]}
    return dict((k, v) for k, v in x.items() if k in ('t', 'v', 'u', 'm'))

class Clients(object):
    '''a share keeper and a data collector whose tally server is the driver'''
    def __init__(self, base):
        self.base, self.peer = base, {}
        W.reset()
        self.net = Net(base, n_sk=1, dc_names=('dc1',), wire=False)
        for n in ('sk1', 'dc1'):
            self.net.run(n)
        self.key = {}

    def connect(self, n):
        if n in W.exits:
            W.exits.pop(n)
            W.timers[:] = [t for t in W.timers if t[2].node != n]
            self.net.nodes.pop(n)
            self.net.run(n)
        for _ in range(100):
            p = take(n)
            if p is not None:
                break
            run_until(W.next_timer() or W.now + 60)
        serve(p)
        self.peer[n] = p
        p.send(status_line())
        l = p.got()
        return json.loads(l[-1].split(" ", 2)[2])

    def talk(self, n, line):
        self.peer[n].send(line)
        return self.peer[n].got()

    def start(self, n, config):
        '''reply, state afterwards, exited'''
        if n not in self.peer or self.peer[n].closed or n in W.exits:
            self.connect(n)
        out = self.talk(n, 'START ' + json.dumps(config))
        rep = [l for l in out if l.startswith('START')]
        accepted = any(l.startswith('START SUCCESS') for l in rep)
        refused = any(l.startswith('START FAIL') for l in rep)
        state = 'gone'
        if n not in W.exits and not self.peer[n].closed:
            st = self.talk(n, status_line())
            st = [l for l in st if l.startswith('STATUS')]
            if st:
                state = json.loads(st[-1].split(" ", 2)[2])['state']
        stopped = 'none'
        if state == 'active':
            W.now += 1
            out = self.talk(n, 'STOP ' + json.dumps({'send_counters': False}))
            stopped = 'ok' if any(l.startswith('STOP SUCCESS') for l in out) else 'bad'
        return accepted, refused, state, n in W.exits, stopped

class Server(object):
    '''a tally server started from configuration files'''
    def __init__(self, base):
        self.base = base
        W.reset()
        self.net = Net(base, n_sk=1, dc_names=('dc1',), wire=False)

    def start(self, c):
        W.reset()
        net = self.net
        conf = dict(net.ts_conf)
        d = c['d']
        conf.pop('noise_weight', None)
        conf.pop('dc_threshold', None)
        for k in ('noise_weight', 'dc_threshold', 'collect_period'):
            if k in d:
                conf[k] = num(d[k])
        deploy.write_yaml(net.p('bins.yaml'), {'counters': num(d['counters'])} if 'counters' in d else {'other': 1})
        noise = d.get('noise')
        if noise is None or noise['t'] != 'dict':
            deploy.write_yaml(net.p('sigmas.yaml'), num(noise) if noise else {'other': 1})
        else:
            deploy.write_yaml(net.p('sigmas.yaml'), num(noise))
        conf['counters'], conf['sigmas'] = net.p('bins.yaml'), net.p('sigmas.yaml')
        deploy.write_yaml(net.p('ts.yaml'), {'tally_server': conf})
        net.nodes.pop('ts', None)
        W.errors[:] = []
        net.run('ts')
        up = any(p.node == 'ts' for p in W.ports)
        crashed = 'ts' in W.exits
        # exceptions that reach the operator: a refusal in so many words
        W.reset()
        return up, crashed

def main():
    tr = Tracer(sys.argv[2])
    base = os.path.join(deploy.scratch(), 'n')
    cl = srv = None
    pk = None
    for s in scenarios(sys.argv[1]):
        req = s['req']
        r = {'e': 'case', 'scn': s['id'], 'node': s['node'], 'names': s['names'], 'req': tagged(req)}
        if s['node'] == 'ts':
            if srv is None:
                srv, cl = Server(base), None
            up, crashed = srv.start(req)
            r.update(accepted=up, refused=not up, exit=crashed, state='idle', stopped='none')
        else:
            if cl is None:
                cl, srv = Clients(base), None
                pk = cl.connect('sk1')['public_key']
            conf = num(req)
            if isinstance(conf, dict):
                if 'sharekeepers' in conf:
                    conf['sharekeepers'] = {cl.net.sk_names['sk1']: b64encode(pk)}
                if 'shares' in conf:
                    conf['shares'] = []
            a, f, st, ex, stopped = cl.start({'sk': 'sk1', 'dc': 'dc1'}[s['node']], conf)
            r.update(accepted=a, refused=f, exit=ex, state=st, stopped=stopped)
        tr.emit(r)
    tr.close()

main()
