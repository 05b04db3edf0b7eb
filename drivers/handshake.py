'''Deliver symbolic handshake exchanges to the real protocol classes of a real
tally server, share keeper and data collector, and record what they do.'''
import sys, os, json, hmac, hashlib, re
from base64 import b64encode, b64decode
import sim
from sim import W
import deploy
from deploy import Net
from tracing import Tracer, scenarios

KEYS = {'K': b64decode(deploy.SECRET_K), 'X': b64decode(deploy.SECRET_X)}
PRE = {'2': 'HANDSHAKE2-CLIENT-COOKIE-HMAC PRIVCOUNT-100 CLIENT HMAC-SHA256',
       '3': 'HANDSHAKE3-SERVER-HMAC PRIVCOUNT-100 SERVER HMAC-SHA256'}
MACRE = re.compile(r'^M\(([KX]),([23]),(.*),([^,]*)\)$')

def mac(key, stage, sc, cc):
    return hmac.new(KEYS[key], PRE[stage] + sc + cc, hashlib.sha256).digest()

class Scenario(object):
    def __init__(self, tr, base):
        self.tr, self.base = tr, base
        self.net = None

    def fresh_nodes(self):
        W.reset()
        self.net = Net(self.base, n_sk=1, dc_names=('dc1',), wire=False)
        for n in ('ts', 'sk1', 'dc1'):
            self.net.run(n)
        # the main loop of the tally server is not what is tested here
        W.timers = [t for t in W.timers if t[2].node != 'ts']

    def ensure(self, need_clients):
        if self.net is None or W.exits or W.errors:
            self.fresh_nodes()
        for e in list(W.ends):
            if e.node is None and not e.disconnected:
                W.close(e)
        W.errors[:] = []
        if need_clients:
            self.advance()

    def connector(self, node):
        for c in W.connecting:
            if c.node == node and c.dest.port == 20001:
                return c

    def advance(self, nodes=('sk1', 'dc1')):
        '''let time pass until both client nodes want to connect'''
        self.last = None
        for _ in range(300):
            if 'ts' in W.exits:
                return
            if all(self.connector(n) for n in nodes):
                break
            t = W.next_timer()
            if t is None:
                break
            W.now = max(W.now, t)
            while W.run_due():
                pass
        # drop spare connection attempts
        for n in ('sk1', 'dc1'):
            cs = [c for c in W.connecting if c.node == n and c.dest.port == 20001]
            for c in cs[1:]:
                W.connecting.remove(c)

    # names of values
    def name_of(self, raw):
        return self.names.get(raw)
    def bind(self, name, raw):
        self.names[raw] = name
        self.values[name] = raw
    def value(self, name):
        m = MACRE.match(name)
        if m:
            a, b = self.value(m.group(3)), self.value(m.group(4))
            v = mac(m.group(1), m.group(2), a, b)
            self.bind('M(%s,%s,%s,%s)' % (m.group(1), m.group(2), self.names[a], self.names[b]), v)
            return v
        if name in self.values:
            return self.values[name]
        if name[:1] == 'n':     # a value that the node has not made yet: some other value
            return self.value('u' + name)
        v = hashlib.sha256('value ' + name).digest()
        self.bind(name, v)
        return v
    def canon_mac(self, name):
        '''the canonical name of a mac over actual values'''
        return self.names[self.value(name)]

    def text(self, tok):
        if tok['k'] in ('c', 'm'):
            return b64encode(self.value(tok['v']))
        if tok['k'] == 'x':
            return tok['v'].encode('latin1')
        return tok['v'].encode('ascii')

    def abstract_tok(self, s, n):
        if len(s) == 44:
            try:
                raw = b64decode(s)
            except TypeError:
                raw = None
            if raw is not None and len(raw) == 32:
                if raw not in self.names:
                    # a mac over known values?
                    known = list(self.names)
                    for k in 'KX':
                        for st in '23':
                            for a in known:
                                for b in known:
                                    if mac(k, st, a, b) == raw:
                                        self.bind('M(%s,%s,%s,%s)' % (k, st, self.names[a], self.names[b]), raw)
                if raw not in self.names:
                    self.bind(n(), raw)
                nm = self.names[raw]
                return {'k': 'm' if nm.startswith('M(') else 'c', 'v': nm}
        if re.match(r'^[A-Za-z0-9-]{1,40}$', s):
            return {'k': 'w', 'v': s}
        return {'k': 'x', 'v': re.sub(r'[^A-Za-z0-9]', '.', s)[:16]}

    def abstract(self, line, namer):
        parts = line.split()
        if parts and parts[0] in ('STATUS', 'START', 'STOP', 'CHECKIN'):
            return [{'k': 'w', 'v': parts[0]}, {'k': 'w', 'v': '...'}]
        return [self.abstract_tok(p, namer) for p in parts[:10]]

    def namer(self, c):
        def n():
            i = self.count.get(c, 0)
            self.count[c] = i + 1
            return 'n%s' % c if self.role[c] == 'S' else 'n%s%d' % (c, i)
        return n

    def outputs(self, c):
        e = self.end[c]
        while e.inq:
            W.deliver(e)
        data = ''.join(e.rx)
        e.rx = []
        return [self.abstract(l, self.namer(c)) for l in data.split('\r\n') if l]

    def snap(self):
        r = {}
        for n in ('ts', 'sk1', 'dc1'):
            if n not in W.exits:
                r[n] = json.dumps(self.net.nodes[n].get_status(), sort_keys=True, default=str)
        return r

    def is_closed(self, c):
        e = self.end[c]
        return bool(e.disconnected or e.other.disconnecting or e.other.disconnected)

    def open(self, c, role, node):
        self.role[c] = role
        if role == 'S':
            ports = [p for p in W.ports if p.addr.port == 20001]
            e = W.dial_raw(ports[0]) if ports else None
        else:
            k = self.connector(node)
            e = W.accept_raw(k) if k is not None else None
        if e is None:
            self.tr.emit({'e': 'open', 'c': c, 'role': role, 'out': [[{'k': 'x', 'v': 'no-connection'}]],
                          'exit': bool(W.exits)})
            return False
        self.end[c] = e
        out = self.outputs(c)
        self.tr.emit({'e': 'open', 'c': c, 'role': role, 'out': out, 'exit': bool(W.exits)})
        return True

    def status_text(self, c):
        if self.role[c] == 'S':
            st = {'type': 'ShareKeeper', 'name': 'peer', 'state': 'idle', 'public_key': 'x',
                  'privcount_version': '3.1.0'}
        else:
            st = self.net.nodes['ts'].get_status()
        return 'STATUS %s %s' % (W.time(), json.dumps(st))

    def seg(self, c, lines, tail):
        '''deliver one data segment'''
        if c not in self.end:
            return
        e = self.end[c]
        if self.is_closed(c):
            # nothing can be sent on a closed connection
            return
        before = self.last or self.snap()
        others = dict((d, self.is_closed(d)) for d in self.end if d != c)
        data, logged = '', []
        buf = self.buf.get(c, 0)
        for ln in lines:
            toks = ln['t']
            if toks and toks[0]['v'] == 'STATUS' and len(toks) == 3:
                text = self.status_text(c)
            else:
                text = ' '.join([self.text(t) for t in toks])
            padded = False
            if ln.get('to'):
                text = text + ' ' * (ln['to'] - len(text)) if not ln.get('fill') else text + ln['fill'] * (ln['to'] - len(text))
                padded = True
            data += text + '\r\n'
            if buf:             # completes an unterminated line
                toks = [{'k': 'x', 'v': 'T' * 5}] + toks
                text = 'T' * buf + text
                buf = 0
            logged.append({'l': [dict(t, v=(self.canon_mac(t['v']) if t['k'] in 'cm' else
                                            re.sub(r'[^A-Za-z0-9{}-]', '.', t['v'])[:40])) for t in toks],
                           'n': len(text), 'p': padded})
        tailtext = 'T' * tail
        self.buf[c] = tail = buf + tail
        nexit = len(W.exits)
        e.write(data + tailtext)
        while e.other.inq and not e.other.disconnected:
            W.deliver(e.other)
        out = self.outputs(c)
        after = self.last = self.snap()
        dist = any(self.is_closed(d) != o for d, o in others.items())
        for d in others:
            if d in self.end and self.end[d].rx:
                dist = True
        self.tr.emit({'e': 'recv', 'c': c, 'lines': logged, 'tail': tail, 'out': out,
                      'closed': self.is_closed(c), 'exit': len(W.exits) > nexit or bool(W.errors),
                      'changed': before != after and not W.exits, 'others': dist and not W.exits})

    def honest(self, c, role):
        '''a peer that knows the secret completes the handshake'''
        w = lambda v: {'k': 'w', 'v': v}
        if role == 'S':
            cc = 'h' + c
            self.seg(c, [{'t': [w(x) for x in PRE['2'].split()] + [{'k': 'c', 'v': cc},
                     {'k': 'm', 'v': 'M(K,2,n%s,%s)' % (c, cc)}]}], 0)
            self.seg(c, [{'t': [w(x) for x in 'HANDSHAKE4-CLIENT-VERIFY PRIVCOUNT-100 CLIENT HMAC-SHA256 SUCCESS'.split()]}], 0)
            self.seg(c, [{'t': [w('STATUS'), w('t'), w('{}')]}], 0)
            self.seg(c, [{'t': [w('CHECKIN'), w('SUCCESS')]}], 0)
        else:
            sc = 'h' + c
            self.seg(c, [{'t': [w(x) for x in 'HANDSHAKE1-SERVER-COOKIE PRIVCOUNT-100 SERVER HMAC-SHA256'.split()]
                          + [{'k': 'c', 'v': sc}]}], 0)
            self.seg(c, [{'t': [w(x) for x in PRE['3'].split()] + [{'k': 'm', 'v': 'M(K,3,%s,n%s0)' % (sc, c)}]}], 0)
            self.seg(c, [{'t': [w('STATUS'), w('t'), w('{}')]}], 0)
            self.seg(c, [{'t': [w('CHECKIN'), w('3000')]}], 0)

    def run(self, s):
        self.names, self.values, self.count = {}, {}, {}
        self.end, self.role, self.buf = {}, {}, {}
        roles = s['conns']
        self.last = None
        self.ensure(True)
        self.tr.emit({'e': 'reset', 'scn': str(s['id']), 'key': 'K'})
        for c in sorted(roles):
            if not self.open(c, roles[c], {'c1': 'sk1', 'c2': 'dc1'}.get(c)):
                return
        for op in s['steps']:
            if W.exits:
                return
            self.seg(op['c'], op['lines'] if 'lines' in op else [{'t': op['line']}],
                     op.get('tail', 0))
        if W.exits:
            return
        # whoever misbehaved, a peer that knows the secret is still served
        if self.open('s9', 'S', None):
            self.honest('s9', 'S')
        for c, node in (('c8', 'sk1'), ('c9', 'dc1')):
            used = {'c8': 'c1', 'c9': 'c2'}[c]
            if used in self.end and self.is_closed(used) and s.get('finish', True):
                W.close(self.end[used])
                self.advance((node,))
                if W.exits:
                    return
                if self.open(c, 'C', node):
                    self.honest(c, 'C')

def main():
    tr = Tracer(sys.argv[2])
    sc = Scenario(tr, os.path.join(deploy.scratch(), 'net'))
    for s in scenarios(sys.argv[1]):
        sc.run(s)
    tr.close()

main()
