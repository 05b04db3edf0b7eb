'''C04-C07, C27: a real share keeper or data collector under an arbitrary tally server'''
import sys, os
from nodes import *
from tracing import Tracer, scenarios

def main():
    tr = Tracer(sys.argv[2])
    for s in scenarios(sys.argv[1]):
        n = Node(os.path.join(deploy.scratch(), 'n'), s)
        tr.emit({'e': 'reset', 'scn': s['id'], 'kind': s['kind'], 'cfg': s['cfg'], 't': W.now - T0})
        for i, a in enumerate(s['acts']):
            r = {'e': a['a'], 'scn': s['id']}
            if a['a'] == 'start':
                r.update(n.start(a['q'], a.get('i', i)), q=a['q'])
            elif a['a'] == 'stop':
                r.update(n.stop(a['send']), send=bool(a['send']))
            elif a['a'] == 'wait':
                run_for(a['d'])
                r['d'] = a['d']
                if a.get('checkin') and n.n not in W.exits:
                    W.as_node(n.n, n.net.nodes[n.n].do_checkin)
            elif a['a'] == 'tor':
                r.update(conn=n.connect_tor(a['f']), f=a['f'])
            elif a['a'] == 'refuse':
                r['conn'] = n.refuse()
            elif a['a'] == 'drop':
                n.drop()
            elif a['a'] == 'event':
                n.event(a['k'])
            run_until(W.now)
            if n.tor is not None:
                n.tor.serve()
            r['t'] = int(W.now - T0)
            st, tor = n.state()
            r.update(state=st, ctl=tor, exit=n.n in W.exits, leak=n.leak)
            tr.emit(r)
            if n.n in W.exits:
                break
    tr.close()

main()
