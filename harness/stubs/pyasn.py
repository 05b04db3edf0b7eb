'''Longest-prefix lookups over "prefix\tASN" lines, like pyasn.pyasn(None, ipasn_string=...)'''
import ipaddress

class pyasn(object):
    def __init__(self, ipasndb=None, as_names_file=None, ipasn_string=None):
        if ipasn_string is None:
            with open(ipasndb) as f:
                ipasn_string = f.read()
        self._nets = []
        for line in ipasn_string.splitlines():
            line = line.strip()
            if not line or line.startswith(';') or line.startswith('#'):
                continue
            prefix, asn = line.split()[:2]
            net = ipaddress.ip_network(unicode(prefix))
            self._nets.append((net.version, net.prefixlen, net, int(asn)))
        self._nets.sort(key=lambda n: -n[1])

    def lookup(self, ip):
        addr = ipaddress.ip_address(unicode(ip))
        for version, plen, net, asn in self._nets:
            if version == addr.version and addr in net:
                return asn, str(net)
        return None, None

    def get_as_prefixes(self, asn):
        s = set(str(n[2]) for n in self._nets if n[3] == int(asn))
        return s or None
