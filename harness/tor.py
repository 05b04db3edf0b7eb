'''a Tor relay's control port, played by a driver'''
from peers import *

FP = 'A' * 39 + '1'

class Tor(object):
    def __init__(self, peer, fp=FP, auth='NULL', extra=None):
        self.peer, self.fp, self.auth = peer, fp, auth
        self.log, self.events, self.enabled, self.authed = [], None, False, False
        self.extra = extra or {}
        self.serve()

    def answer(self, line):
        w = line.split(' ')
        cmd, arg = w[0], ' '.join(w[1:])
        if line in self.extra:
            return self.extra[line]
        if cmd == 'PROTOCOLINFO':
            return ['250-PROTOCOLINFO 1', '250-AUTH METHODS=%s' % self.auth, '250-VERSION Tor="0.3.2.10"', '250 OK']
        if cmd == 'AUTHENTICATE':
            self.authed = True
            return ['250 OK']
        if cmd == 'SETEVENTS':
            self.events = w[1:]
            return ['250 OK']
        if cmd == 'SETCONF':
            if arg.startswith('EnablePrivCount='):
                self.enabled = arg.endswith('1')
            return ['250 OK']
        if cmd == 'SET_TMODEL':
            return ['250 OK']
        if cmd == 'GETCONF':
            v = {'Nickname': 'relay', 'ORPort': '9001', 'DirPort': '9030', 'EnablePrivCount': '%d' % self.enabled}.get(arg)
            return ['250 %s%s' % (arg, '' if v is None else '=' + v)]
        if cmd == 'GETINFO':
            if arg.startswith('ns/id/'):
                return ['250+%s=' % arg, 'r relay x y 2017-06-22 03:59:43 127.0.0.1 5000 7000',
                        's Exit Fast Guard HSDir Running Stable V2Dir Valid', '.', '250 OK']
            v = {'version': '0.3.2.10', 'address': '192.0.2.7', 'privcount-version': '1.1.2', 'fingerprint': self.fp}.get(arg)
            return ['250-%s=%s' % (arg, v), '250 OK'] if v else ['552 Unrecognized key "%s"' % arg]
        if cmd == 'QUIT':
            return ['250 closing connection']
        return ['510 Unrecognized command']

    def serve(self):
        '''answer everything the client has asked'''
        while True:
            lines = self.peer.got()
            if not lines:
                return
            for l in lines:
                self.log.append(l)
                self.peer.send(*self.answer(l))

    def event(self, name, *items):
        self.peer.send('650 ' + ' '.join([name] + [str(i) for i in items]))
        self.serve()

    @property
    def closed(self):
        return self.peer.closed
