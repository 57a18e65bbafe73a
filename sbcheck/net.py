"""Models of the socket and ipaddress modules.

The timeout in force is found in the events of the path. What the resolver
finds is a symbol; with faults it fails in every way that it can.
"""
from . import terms as T
from .models import model, method, fault
from .state import St

IMPORTED = T.S('timeout at the import')


def timeout(st):
    for e in reversed(st.events):
        if e[0] == 'timeout':
            return e[1]
    return IMPORTED


@model('socket.getdefaulttimeout')
def m_getdefaulttimeout(ip, st, args, kwargs, node):
    yield st, timeout(st)


@model('socket.setdefaulttimeout')
def m_setdefaulttimeout(ip, st, args, kwargs, node):
    t = args[0] if args else kwargs.get('timeout', T.unk('timeout'))
    if T.is_unk(t):
        st.note('a timeout that is not known')
    if t[0] == 'c' and t[2] is not None and (not isinstance(t[2], (int, float)) or t[2] < 0):
        yield ip.raises(st, 'ValueError' if isinstance(t[2], (int, float)) else 'TypeError', node)
        return
    st.event('timeout', t, ip.site(st, node))
    yield st, T.NONE


RESOLVER = ('socket.gaierror', 'OSError', 'TimeoutError', 'UnicodeError', 'KeyboardInterrupt')


def resolver(ip, st, name, args, node, extra=()):
    """Yields (state, whether it did not fail, value to yield)."""
    t = timeout(st)
    for s, x in fault(ip, st, name, RESOLVER + extra, node):
        if x.name not in ('UnicodeError', 'KeyboardInterrupt'):
            x.payload = (T.S('errno'), T.S('error text'))
        s.event('lookup', name, args, t, x.name)
        yield s, False, x
    st.event('lookup', name, args, t, None)
    yield st, True, None


@model('socket.getaddrinfo')
def m_getaddrinfo(ip, st, args, kwargs, node):
    for s, ok, x in resolver(ip, st, 'getaddrinfo', tuple(args), node):
        if not ok:
            yield s, x
            continue
        found = getattr(ip, 'addresses', None)
        if found is None:
            yield s, ip.new_list(s, [('tup', T.S('family'), T.S('type'), T.S('proto'), T.C(''),
                                      ('tup', T.S('found'), args[1] if len(args) > 1 else
                                       T.S('port')))])
            continue
        for some in found:
            s2 = s.copy()
            s2.event('found', some)
            yield s2, ip.new_list(s2, [
                ('tup', T.S('family'), T.S('type'), T.S('proto'), T.C(''),
                 ('tup', a, args[1] if len(args) > 1 else T.S('port'))) for a in some])


@model('socket.gethostbyaddr')
def m_gethostbyaddr(ip, st, args, kwargs, node):
    a = args[0]
    bad = None
    if a[0] == 'c':
        bad = isinstance(a[2], (str, bytes)) and ('\0' if isinstance(a[2], str) else b'\0') in a[2]
        if not isinstance(a[2], (str, bytes)):
            bad = True
    forks = [(st, bad)] if bad is not None else ip.fork(
        ('bool', T.app('contains', a, T.C('\0'))), st)
    for s, b in forks:
        if b:
            s.event('lookup', 'gethostbyaddr', tuple(args), timeout(s), 'TypeError')
            yield ip.raises(s, 'TypeError', node)
            continue
        for s2, ok, x in resolver(ip, s, 'gethostbyaddr', tuple(args), node, ('socket.herror',)):
            if not ok:
                yield s2, x
                continue
            name = T.S('name found')
            s2.event('found', (name,))
            yield s2, ('tup', name, ip.new_list(s2, [T.S('alias')]), ip.new_list(s2, [a]))


# --- ipaddress -------------------------------------------------------------------------

def address_of(st, t):
    """The address as it was given, without what does not change it."""
    while True:
        if t[0] == 'ref' and st.heap[t].kind == 'ext' and st.heap[t].type == 'ipaddress':
            t = st.heap[t].data['~text']
        elif t[0] == 'fmt' and not t[1]:
            t = t[2]
        elif t[0] == 'cat' and len(t) == 2:
            t = t[1]
        elif t[0] == 'app' and t[1] == 'str' and len(t) == 3:
            t = t[2]
        else:
            return t


def number_of(t):
    t = address_of(St(), t) if t[0] in ('fmt', 'cat', 'app') else t
    if t[0] == 'c' and isinstance(t[2], str) and t[2].isdigit():
        return T.C(int(t[2]))
    return t


def split(st, t):
    """(address, prefix length) of what ip_network() is given, or None."""
    if t[0] == 'tup':
        return (address_of(st, t[1]), number_of(t[2])) if len(t) == 3 else None
    if t[0] == 'c' and isinstance(t[2], str):
        a, sep, n = t[2].partition('/')
        return T.C(a), T.C(int(n)) if sep and n.isdigit() else T.C(32) if not sep else None
    if t[0] == 'cat':
        parts = list(t[1:])
        for i, p in enumerate(parts):
            if p[0] == 'c' and '/' in p[2]:
                a, _s, b = p[2].partition('/')
                left = parts[:i] + ([T.C(a)] if a else [])
                right = ([T.C(b)] if b else []) + parts[i + 1:]
                if len(left) == 1 and len(right) == 1:
                    return address_of(st, left[0]), number_of(right[0])
                return None
        if len(parts) > 1:
            return None
    return address_of(st, t), T.C(32)


def network(st, a, n):
    at = T.app('network address', a, n)
    return st.new('ext', type='ipnetwork', data={
        '~address': a, '~length': n, 'prefixlen': n, 'network_address': at,
        'with_prefixlen': T.cat([('fmt', '', at), T.C('/'), ('fmt', '', n)]),
        'version': T.C(4), 'max_prefixlen': T.C(32)})


def m_network(ip, st, args, kwargs, node):
    x = split(st, args[0]) if args else None
    if x is None or x[1] is None:
        st.note('the argument of ip_network()')
        yield st, T.unk('network')
        return
    a, n = x
    strict = kwargs.get('strict', args[1] if len(args) > 1 else T.TRUE)
    states = [(st, True)]
    for bound, atom in ((0, ('le', False, T.C(0), n)), (32, ('le', False, n, T.C(32)))):
        states = [o for s, ok in states for o in (ip.fork(atom, s) if ok else [(s, ok)])]
    for s, ok in states:
        if not ok:
            yield ip.raises(s, 'ValueError', node)
            continue
        for s2, b in ip.truth(strict, s, node):
            if not b or n == T.C(32):
                yield s2, network(s2, a, n)
                continue
            for s3, bits in ip.fork(('bool', T.app('host bits', a, n)), s2):
                if bits:
                    yield ip.raises(s3, 'ValueError', node)
                else:
                    yield s3, network(s3, a, n)


for _n in ('ip_network', 'IPv4Network'):
    model('ipaddress.' + _n)(m_network)


@model('ipaddress.ip_address', 'ipaddress.IPv4Address')
def m_address(ip, st, args, kwargs, node):
    yield st, st.new('ext', type='ipaddress', data={'~text': address_of(st, args[0])})


@model('ipaddress.ip_interface', 'ipaddress.IPv4Interface')
def m_interface(ip, st, args, kwargs, node):
    for s, v in m_network(ip, st, args, {'strict': T.FALSE}, node):
        if isinstance(v, tuple) and v and v[0] == 'ref':
            n = s.heap[v].data
            v = s.new('ext', type='ipinterface', data={
                'network': v, 'ip': s.new('ext', type='ipaddress',
                                          data={'~text': n['~address']})})
        yield s, v


@method(('ipnetwork', 'supernet'))
def m_supernet(ip, st, recv, args, kwargs, node):
    d = st.heap[recv].data
    n = number_of(kwargs['new_prefix']) if 'new_prefix' in kwargs else None
    if n is None:
        st.note('the argument of supernet()')
        yield st, T.unk('network')
        return
    for s, b in ip.fork(('le', False, n, d['~length']), st):
        yield (s, network(s, d['~address'], n)) if b else ip.raises(s, 'ValueError', node)
