'''C01-C03, C07, C12, C13: a real tally server; the nodes are played by the driver'''
import sys, os
from tsworld import *
from tracing import Tracer, scenarios

def main():
    tr = Tracer(sys.argv[2])
    for s in scenarios(sys.argv[1]):
        n = Ts(os.path.join(deploy.scratch(), 'n'), s['cfg'])
        def emit(r):
            r['scn'] = s['id']
            if r['e'] != 'conn':
                r['ts'] = n.probe()
                r['outs'] = n.outputs()
            tr.emit(r)
        n.emit = emit
        emit({'e': 'reset', 't': rel(), 'step': ms(s['cfg']['event']), 'cfg': n.cfg_ms(s['cfg'])})
        for i, a in enumerate(s['acts']):
            u = a.get('u')
            key = (u, a.get('c', 1))
            opt = a.get('o', {})
            if a['a'] == 'visit':
                # a report, and the node's reaction; the reply is kept
                q = n.status(key, u, **opt)
                if not a.get('lost'):
                    if key in n.conns:
                        n.answer(key, u, q, a.get('how', 'ok'), a.get('val', 0))
                elif key in n.conns:
                    n.lose(key)
            elif a['a'] == 'talk':
                # a whole conversation: until the tally server is done
                for turn in range(6):
                    q = n.status(key, u, **opt)
                    if key not in n.conns:
                        break
                    how = a.get('how', 'ok') if turn == 0 else 'ok'
                    n.answer(key, u, q, how, a.get('val', 0))
                    if a.get('slow'):
                        run_for(a['slow'])
                        emit({'e': 'wait', 't': rel()})
                    if how == 'mute':
                        n.lose(key)
                        break
                    if how == 'dup':
                        n.deliver(key, u, True)
                    got = n.deliver(key, u)
                    if not got:
                        break
            elif a['a'] == 'deliver':
                n.deliver(key, u, a.get('again'))
            elif a['a'] == 'foreign':
                # a reply that nobody asked for, on an idle connection
                q = n.status(key, u, own=False, **opt)
                c = n.conns.get(key)
                if c is not None:
                    own = n.own.get(u)
                    n.answer(key, u, {'k': a['k'], 'send': True, 'sks': a.get('sks', {})}, 'ok' if a['k'] != 'stop' else 'odd', a.get('val', 0))
                    if a['k'] == 'stop' and u in n.start_conf:
                        c.reply = ('STOP SUCCESS ' + json.dumps({'Counts': n.counts(u, a.get('val', 0))}), {'k': 'stop', 'ok': True, 'kind': 'good', 'val': a.get('val', 0)})
                    n.own[u] = own
                    n.deliver(key, u)
                    n.lose(key)
            elif a['a'] == 'lose':
                n.lose(key)
                emit({'e': 'note', 't': rel()})
            elif a['a'] == 'restart':
                n.own[u] = 0
                emit({'e': 'note', 't': rel()})
            elif a['a'] == 'wait':
                run_for(a['d'])
                emit({'e': 'wait', 't': rel()})
            elif a['a'] == 'cfg':
                bad = a.get('bad')
                c = n.change(a['to'], bad)
                emit({'e': 'cfg', 't': rel(), 'cfg': c, 'good': bad is None})
            if 'ts' in W.exits:
                break
    tr.close()

main()
