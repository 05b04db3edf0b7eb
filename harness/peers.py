'''peers that speak the PrivCount protocol to real nodes, played by a driver'''
import sys, os, hmac, hashlib, json
from base64 import b64encode, b64decode
import sim
from sim import W
import deploy
from deploy import Net, INF

KEY = b64decode(deploy.SECRET_K)
P2 = 'HANDSHAKE2-CLIENT-COOKIE-HMAC PRIVCOUNT-100 CLIENT HMAC-SHA256'
P3 = 'HANDSHAKE3-SERVER-HMAC PRIVCOUNT-100 SERVER HMAC-SHA256'
P4 = 'HANDSHAKE4-CLIENT-VERIFY PRIVCOUNT-100 CLIENT HMAC-SHA256 SUCCESS'
P1 = 'HANDSHAKE1-SERVER-COOKIE PRIVCOUNT-100 SERVER HMAC-SHA256'

def mac(prefix, sc, cc, key=KEY):
    return b64encode(hmac.new(key, prefix + sc + cc, hashlib.sha256).digest())

class Peer(object):
    '''the driver's end of a connection to a node'''
    def __init__(self, end):
        self.end = end
    def send(self, *lines):
        self.raw(''.join(l + '\r\n' for l in lines))
    def raw(self, data):
        self.end.write(data)
        W.settle()
    def got(self):
        W.settle()
        d = ''.join(self.end.rx)
        self.end.rx[:] = []
        return [l for l in d.split('\r\n') if l]
    @property
    def closed(self):
        W.settle()
        return self.end.disconnected

def port(node, number=20001):
    for p in W.ports:
        if p.node == node and p.addr.port == number:
            return p

def dial(node='ts', number=20001):
    return Peer(W.dial_raw(port(node, number)))

def take(node, number=20001):
    '''accept a node's own connection attempt'''
    for c in list(W.connecting):
        if c.node == node and c.dest.port == number:
            return Peer(W.accept_raw(c))

def run_until(t):
    while True:
        W.settle()
        n = W.next_timer()
        if n is None or n > t:
            break
        W.now = max(W.now, n)
        while W.run_due():
            W.settle()
    W.now = max(W.now, t)

def run_for(d):
    run_until(W.now + d)

def login(peer, name_cookie='c' * 32):
    '''a genuine client authenticates to the tally server'''
    h1 = peer.got()[0]
    sc = b64decode(h1.split()[4])
    peer.send(P2 + ' ' + b64encode(name_cookie) + ' ' + mac(P2, sc, name_cookie))
    h3 = peer.got()
    peer.send(P4)
    return h1, h3, peer.got()


def serve(peer, cookie='s' * 32):
    '''the driver plays a genuine tally server to a node that has connected'''
    peer.send(P1 + ' ' + b64encode(cookie))
    h2 = peer.got()[0].split()
    cc = b64decode(h2[4])
    peer.send(P3 + ' ' + mac(P3, cookie, cc))
    return peer.got()


def ts_status(**k):
    '''what an idle tally server says about itself'''
    r = {'state': 'idle', 'time': W.time(), 'dcs_idle': 0, 'dcs_active': 0, 'dcs_total': 0,
         'dcs_required': 1, 'dcs_control': 0, 'dcs_event': 0, 'sks_idle': 0, 'sks_active': 0,
         'sks_total': 0, 'sks_required': 1, 'completed_phases': 0, 'continue': True,
         'delay_until': 0, 'delay_reason': 'clients are ready', 'privcount_version': '1.1.2'}
    r.update(k)
    return r

def status_line(**k):
    return 'STATUS %s %s' % (W.time(), json.dumps(ts_status(**k)))
