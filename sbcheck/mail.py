"""Models of email.message.Message and its relatives for the interpreter.

A message keeps its headers as a list of (name, value) in the attribute
'~headers'. The first item may be ('base', name, removed): headers of the
message as it was found, of which nothing is known but that those named in
`removed` are gone. Values of such headers are symbols.
"""
from . import terms as T
from .models import model
from .state import Exc

M = 'email.message.Message.'
ORIGINAL = T.S('original')


def headers(st, m):
    return st.heap[m].attrs.get('~headers', ('tup',))[1:]


def set_headers(st, m, hs):
    st.setattr(m, '~headers', ('tup',) + tuple(hs))


def low(t):
    return t[2].lower() if t[0] == 'c' and isinstance(t[2], str) else None


def names_differ(a, b):
    return low(a) is not None and low(b) is not None and low(a) != low(b)


def find(ip, st, m, name):
    """Yields (state, index in the list or None): the first header so named."""
    hs = headers(st, m)
    if low(name) is None:
        if ip.sort(name, st) in ('none', 'int', 'bytes'):
            yield st, None
            return
        st.note('a header name that is not known: %s' % T.show(name))
    def go(s, i):
        if i == len(hs):
            yield s, None
            return
        h = hs[i]
        if h[0] == 'base':
            if low(name) in h[2]:
                yield from go(s, i + 1)
                return
            for s2, b in ip.fork(('bool', T.app('hasheader', h[1], T.C(low(name)))), s):
                if b:
                    yield s2, i
                else:
                    yield from go(s2, i + 1)
            return
        if low(h[1]) == low(name):
            yield s, i
        else:
            yield from go(s, i + 1)
    yield from go(st, 0)


def value(st, m, i, name):
    h = headers(st, m)[i]
    if h[0] == 'base':
        return T.app('header', h[1], T.C(low(name)))
    return h[2]


@model(M + '__init__')
def e_init(ip, st, args, kwargs, node):
    m = args[0]
    set_headers(st, m, ())
    st.setattr(m, '~payload', T.NONE)
    yield st, T.NONE


@model(M + '__setitem__', M + 'add_header')
def e_setitem(ip, st, args, kwargs, node):
    m, name, v = args[:3]
    if ip.sort(v, st) == 'bytes' or ip.sort(name, st) in ('bytes', 'none'):
        # Kept as it is, but fails when the message is rendered.
        st.event('badheader', name, v, ip.site(st, node))
    set_headers(st, m, headers(st, m) + (('h', name, v),))
    st.event('header', m, name, v, ip.site(st, node))
    changed(st, m)
    yield st, T.NONE


def changed(st, m):
    raw = st.heap[m].attrs.get('~raw')
    if raw is not None and raw != T.NONE:
        st.setattr(m, '~raw', T.NONE)
        st.setattr(m, '~was', raw)


@model(M + '__getitem__', M + 'get')
def e_get(ip, st, args, kwargs, node):
    m, name = args[:2]
    failobj = args[2] if len(args) > 2 else kwargs.get('failobj', T.NONE)
    for s, i in find(ip, st, m, name):
        yield s, failobj if i is None else value(s, m, i, name)


@model(M + '__contains__')
def e_contains(ip, st, args, kwargs, node):
    for s, i in find(ip, st, args[0], args[1]):
        yield s, T.C(i is not None)


@model(M + 'has_key')
def e_has_key(ip, st, args, kwargs, node):
    yield ip.raises(st, 'AttributeError', node, T.C('has_key'))


@model(M + '__delitem__')
def e_del(ip, st, args, kwargs, node):
    m, name = args[:2]
    n = low(name)
    if n is None:
        st.note('a header name that is not known is deleted')
    hs = []
    for h in headers(st, m):
        if h[0] == 'base':
            hs.append((h[0], h[1], tuple(sorted(set(h[2]) | {n}))))
        elif low(h[1]) != n:
            hs.append(h)
    set_headers(st, m, hs)
    st.event('delheader', m, name, ip.site(st, node))
    changed(st, m)
    yield st, T.NONE


@model(M + 'replace_header')
def e_replace(ip, st, args, kwargs, node):
    m, name, v = args[:3]
    for s, i in find(ip, st, m, name):
        if i is None:
            yield ip.raises(s, 'KeyError', node, name)
            continue
        hs = list(headers(s, m))
        h = hs[i]
        if h[0] == 'base':
            hs[i] = (h[0], h[1], tuple(sorted(set(h[2]) | {low(name)})))
            hs.insert(i + 1, ('h', name, v))
        else:
            hs[i] = ('h', h[1], v)
        set_headers(s, m, hs)
        s.event('header', m, name, v, ip.site(s, node))
        changed(s, m)
        yield s, T.NONE


@model(M + 'get_all')
def e_get_all(ip, st, args, kwargs, node):
    m, name = args[:2]
    failobj = args[2] if len(args) > 2 else kwargs.get('failobj', T.NONE)
    for s, i in find(ip, st, m, name):
        if i is None:
            yield s, failobj
            continue
        if headers(s, m)[i][0] == 'base':
            s.note('all headers of one name')
        yield s, ip.new_list(s, [h[2] for h in headers(s, m)[i:]
                                 if h[0] == 'h' and low(h[1]) == low(name)]
                             or [value(s, m, i, name)])


def listing(what):
    def f(ip, st, args, kwargs, node):
        hs = headers(st, args[0])
        if any(h[0] == 'base' for h in hs):
            st.note('the headers of a message')
            yield st, T.unk('the headers of a message')
            return
        yield st, ip.new_list(st, [h[1] if what == 'keys' else h[2] if what == 'values'
                                   else ('tup', h[1], h[2]) for h in hs])
    return f


for _w in ('keys', 'values', 'items'):
    model(M + _w)(listing(_w))
model(M + '__iter__')(listing('keys'))


@model(M + '__len__')
def e_len(ip, st, args, kwargs, node):
    hs = headers(st, args[0])
    if any(h[0] == 'base' for h in hs):
        yield st, T.app('len', args[0])
        return
    yield st, T.C(len(hs))


def rendered(kind):
    def f(ip, st, args, kwargs, node):
        m = args[0]
        a = st.heap[m].attrs
        raw = a.get('~raw', T.NONE)
        if kind == 'bytes' and raw != T.NONE and ip.sort(raw, st) == 'bytes':
            yield st, raw
            return
        yield st, T.app('encode' if kind == 'bytes' else 'rendered',
                        T.app('rendering', a.get('~was', raw), a.get('~headers', T.NONE)),
                        T.C(kind))
    return f


model(M + 'as_bytes', M + '__bytes__')(rendered('bytes'))
model(M + 'as_string')(rendered('str'))


@model(M + '__str__')
def e_str(ip, st, args, kwargs, node):
    for s, f in ip.getattr(st, args[0], 'as_string'):
        yield from ip.call(s, f, [], {}, node)


@model(M + 'get_payload')
def e_payload(ip, st, args, kwargs, node):
    v = st.heap[args[0]].attrs.get('~payload')
    if v is None or len(args) > 1 or kwargs:
        yield st, T.app('payload', *args[:1])
        return
    yield st, v


@model(M + 'set_payload')
def e_set_payload(ip, st, args, kwargs, node):
    st.setattr(args[0], '~payload', args[1])
    changed(st, args[0])
    yield st, T.NONE


@model(M + 'is_multipart')
def e_multi(ip, st, args, kwargs, node):
    for s, b in ip.fork(('bool', T.app('is_multipart', args[0])), st):
        yield s, T.C(b)


def parse(kind):
    def f(ip, st, args, kwargs, node):
        src = args[0]
        sort = ip.sort(src, st)
        want = 'bytes' if kind in ('bytes', 'binary_file') else 'str'
        if kind in ('bytes', 'str') and (sort in ('none', 'int') or
                                         sort in ('str', 'bytes') and sort != want):
            yield ip.raises(st, 'TypeError', node)
            return
        if kind.endswith('file'):
            st.note('a message read from a file object')
        cls = args[1] if len(args) > 1 else kwargs.get('_class')
        if cls is None or cls == T.NONE:
            cls = ('ext', 'email.message.Message')
        if cls[0] not in ('cls', 'fn', 'bm', 'partial'):
            yield st, T.app('parsed', src)
            return
        for s, m in ip.call(st, cls, [], {}, node):
            if not isinstance(m, Exc) and m[0] == 'ref':
                s.setattr(m, '~raw', src)
                set_headers(s, m, (('base', T.app('parsed', src), ()),))
                s.setattr(m, '~payload', T.app('payload', T.app('parsed', src)))
            yield s, m
    return f


for _k, _n in (('bytes', 'message_from_bytes'), ('str', 'message_from_string'),
               ('file', 'message_from_file'), ('binary_file', 'message_from_binary_file')):
    model('email.' + _n)(parse(_k))


@model('email.header.Header')
def h_header(ip, st, args, kwargs, node):
    v = args[0] if args else kwargs.get('s', T.C(''))
    charset = args[1] if len(args) > 1 else kwargs.get('charset', T.NONE)
    yield st, T.app('Header', v, *(() if charset == T.NONE else (charset,)))


@model('email.header.make_header')
def h_make(ip, st, args, kwargs, node):
    yield st, T.app('Header', *args[:1])
