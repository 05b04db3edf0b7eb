'''C01, C02: a whole deployment of real nodes, from the relays' events to the published tally'''
import sys, os
from round_ import *
from tracing import Tracer, scenarios

def main():
    tr = Tracer(sys.argv[2])
    for s in scenarios(sys.argv[1]):
        outs = [0]
        def emit(r, i=s['id']):
            r['scn'] = i
            outs[0] += r['e'] == 'out'
            tr.emit(r)
        n = Deployment(os.path.join(deploy.scratch(), 'n'), s['cfg'], emit)
        for a in s['acts']:
            k, u = a['a'], a.get('u')
            if k == 'poll':
                n.poll(u)
            elif k == 'talk':
                n.poll(u, False)
            elif k == 'deliver':
                n.flow(u, False)
            elif k == 'lose':
                n.lose(u)
            elif k == 'crash':
                n.crash(u)
            elif k == 'event':
                n.event(u, a['b'])
            elif k == 'tor':
                n.drop_tor(u)
            elif k == 'tick':
                n.tick(a['d'])
            if 'ts' in W.exits:
                emit({'e': 'gone', 't': rel()})
                break
        emit({'e': 'end', 't': rel(), 'outs': outs[0]})
    tr.close()

main()
