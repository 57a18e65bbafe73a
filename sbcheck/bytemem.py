"""Files of bytes with symbolic contents, positions and lengths; struct; mmap.

A file is an ext object 'bytefile' with the pieces written to it, each with
its position, a linear term; bytes are concatenations of constants, packed
numbers and symbols, each with a length.
"""
import bisect
import struct
from fractions import Fraction

from . import terms as T
from .models import model, method

ZERO = T.C(0)


def new_file(st):
    return st.new('ext', type='bytefile', data={'~pieces': (), '~pos': ZERO, '~size': ZERO})


# --- bytes -----------------------------------------------------------------------------

def parts_of(t):
    if t[0] == 'cat':
        return [p if p[0] == 'c' else p[2] for p in t[1:]]
    return [t]


def length(ip, st, t):
    """(state, length) of bytes."""
    n = ZERO
    for p in parts_of(t):
        if p[0] == 'c':
            n = T.radd(n, T.C(len(p[2])))
        elif p[0] == 'app' and p[1] == 'pack':
            n = T.radd(n, T.C(4))
        else:
            x = T.app('len', p)
            st = ip.assume_le(ZERO, x, True, st) or st
            n = T.radd(n, x)
    return st, n


def joined(parts):
    if not parts:
        return T.C(b'')
    t = T.cat([p if p[0] == 'c' else ('fmt', '', p) for p in parts])
    if t[0] == 'cat' and len(t) == 2:
        return t[1] if t[1][0] == 'c' else t[1][2]
    if t[0] == 'fmt':
        return t[2]
    return t


def is_bytes(ip, st, t):
    return ip.sort(t, st) == 'bytes' or t[0] == 'app' and t[1] == 'pack'


# --- struct ----------------------------------------------------------------------------

def numbers(fmt):
    """(byte order, how many 32-bit numbers) of a format, or None."""
    if isinstance(fmt, bytes):
        fmt = fmt.decode('latin-1')
    if not fmt or fmt[0] not in '<>=!':
        return None
    n, k = 0, ''
    for c in fmt[1:]:
        if c.isdigit():
            k += c
        elif c in 'LI':
            n += int(k or 1)
            k = ''
        else:
            return None
    return {'=': '<', '!': '>'}.get(fmt[0], fmt[0]), n


def pack(ip, st, fmt, xs, node):
    f = numbers(fmt[2]) if fmt[0] == 'c' else None
    if f is None:
        st.note('a format that is not known: %s' % T.show(fmt))
        yield st, T.unk('packed')
        return
    order, n = f
    if any(x[0] == 'star' or T.is_unk(x) for x in xs):
        st.note('numbers to pack that are not known')
        yield st, T.unk('packed')
        return
    if n != len(xs):
        yield ip.raises(st, 'struct.error', node)
        return
    out = []
    for x in xs:
        if x[0] == 'c' and x[1] in ('int', 'bool'):
            if not 0 <= x[2] < 2 ** 32:
                yield ip.raises(st, 'struct.error', node)
                return
            out.append(T.C(struct.pack(order + 'L', x[2])))
        elif ip.sort(x, st) not in ('int', None):
            yield ip.raises(st, 'struct.error', node)
            return
        else:
            out.append(T.app('pack', T.C(order), x))
    yield st, joined(out)


def unpack(ip, st, fmt, t, node):
    f = numbers(fmt[2]) if fmt[0] == 'c' else None
    if f is None or T.is_unk(t):
        st.note('numbers that cannot be unpacked')
        yield st, T.unk('unpacked')
        return
    order, n = f
    st, size = length(ip, st, t)
    if ip.decide(('eq', size, T.C(4 * n)), st) is False:
        yield ip.raises(st, 'struct.error', node)
        return
    out = []
    parts = parts_of(t)
    while parts and len(out) < n:
        p = parts.pop(0)
        if p[0] == 'app' and p[1] == 'pack':
            out.append(p[3] if p[2] == T.C(order) else T.app('unpack', p, T.C(order)))
        elif p[0] == 'c' and len(p[2]) >= 4:
            out.append(T.C(struct.unpack(order + 'L', p[2][:4])[0]))
            if len(p[2]) > 4:
                parts.insert(0, T.C(p[2][4:]))
        else:
            break
    while len(out) < n:
        x = T.app('unpack', t, T.C(order), T.C(len(out)))
        st = ip.assume_le(ZERO, x, True, st) or st
        out.append(x)
    yield st, ('tup',) + tuple(out)


@model('struct.pack')
def m_pack(ip, st, args, kwargs, node):
    yield from pack(ip, st, args[0], args[1:], node)


@model('struct.unpack')
def m_unpack(ip, st, args, kwargs, node):
    yield from unpack(ip, st, args[0], args[1], node)


@model('struct.calcsize')
def m_calcsize(ip, st, args, kwargs, node):
    f = numbers(args[0][2]) if args[0][0] == 'c' else None
    yield st, T.C(4 * f[1]) if f else T.unk('size')


@model('struct.unpack_from')
def m_unpack_from(ip, st, args, kwargs, node):
    yield from unpack_from(ip, st, args[0], args[1:], kwargs, node)


def unpack_from(ip, st, fmt, args, kwargs, node):
    f = numbers(fmt[2]) if fmt[0] == 'c' else None
    at = args[1] if len(args) > 1 else kwargs.get('offset', ZERO)
    if f is None:
        st.note('a format that is not known')
        yield st, T.unk('unpacked')
        return
    for s, v in ip.getslice(st, args[0], [at, T.radd(at, T.C(4 * f[1])), None], node):
        yield from unpack(ip, s, fmt, v, node)


@model('struct.Struct')
def m_struct(ip, st, args, kwargs, node):
    yield st, T.app('struct', args[0])


def struct_method(name, f):
    from .models import METHODS as ALL
    other = ALL.get(('any', name))
    @method(('any', name))
    def g(ip, st, recv, args, kwargs, node):
        if recv[0] == 'app' and recv[1] == 'struct':
            yield from f(ip, st, recv[2], args, kwargs, node)
        elif other is not None:
            yield from other(ip, st, recv, args, kwargs, node)
        else:
            st.event('method', name, recv, tuple(args), ip.site(st, node))
            yield st, T.app('method', name, recv, *args)


struct_method('pack', lambda ip, st, f, a, kw, n: pack(ip, st, f, a, n))
struct_method('unpack', lambda ip, st, f, a, kw, n: unpack(ip, st, f, a[0], n))
struct_method('unpack_from', lambda ip, st, f, a, kw, n: unpack_from(ip, st, f, a, kw, n))


# --- memory ----------------------------------------------------------------------------

INDEX = {}


def split_poly(t):
    """(part that is not constant, constant) of a linear term."""
    if t[0] == 'c':
        return (), Fraction(t[2])
    r = T.to_rat(t)
    if r is None or r[1] != T.ONE:
        return (t,), Fraction(0)
    c = Fraction(0)
    rest = []
    for m, k in r[0]:
        if m == ():
            c = Fraction(k)
        else:
            rest.append((m, k))
    return tuple(rest), c


def index(pieces):
    r = INDEX.get(id(pieces))
    if r is None or r[0] is not pieces:
        if len(INDEX) > 2000:
            INDEX.clear()
        d = {}
        for i, (s, _c, _e) in enumerate(pieces):
            rest, c = split_poly(s)
            d.setdefault(rest, []).append((c, i))
        for v in d.values():
            v.sort()
        r = INDEX[id(pieces)] = pieces, d
    return r[1]


def find(ip, st, pieces, at):
    """(piece, offset in it) at the position, or None."""
    d = index(pieces)
    rest, c = split_poly(at)
    v = d.get(rest)
    if v:
        i = bisect.bisect_right(v, (c, len(pieces))) - 1
        if i >= 0:
            c0, k = v[i]
            s, p, e = pieces[k]
            off = int(c - c0)
            if off == 0 or p[0] == 'c' and off < len(p[2]) or \
                    p[0] == 'app' and p[1] == 'pack' and off < 4:
                return pieces[k], off
    for s, p, e in pieces:
        if s[0] != 'c' and s != at and ip.decide(('eq', s, at), st) is True:
            return (s, p, e), 0
    return None


def read(ip, st, f, a, b):
    """The bytes from a to b."""
    o = st.heap[f].data
    pieces, size = o['~pieces'], o['~size']
    if ip.decide(('le', True, size, b), st) is True:
        b = size
    out = []
    at = a
    while ip.decide(('le', True, at, b), st) is not False:
        d = T.rsub(b, at)
        if d == ZERO:
            break
        x = find(ip, st, pieces, at)
        if x is None:
            out.append(T.app('memory', at, d))
            break
        (s, p, e), off = x
        left = T.rsub(e, at)
        if ip.decide(('le', False, left, d), st) is True:
            if off:
                p = T.C(p[2][off:]) if p[0] == 'c' else T.app('slice', p, T.C(off), T.NONE)
            out.append(p)
            at = e
            continue
        if p[0] == 'c' and d[0] == 'c':
            out.append(T.C(p[2][off:off + int(d[2])]))
        elif off == 0 and ip.decide(('eq', left, d), st) is True:
            out.append(p)
        else:
            out.append(T.app('memory', at, d))
        break
    return joined(out)


def write(ip, st, f, t, node):
    o = st.heap[f]
    at = o.data['~pos']
    pieces = list(o.data['~pieces'])
    new = []
    for p in parts_of(t):
        st, n = length(ip, st, p)
        end = T.radd(at, n)
        new.append((at, p, end))
        at = end
    first = o.data['~pos']
    kept = []
    for s, p, e in pieces:
        if ip.decide(('le', False, e, first), st) or ip.decide(('le', False, at, s), st):
            kept.append((s, p, e))
        elif ip.decide(('le', True, s, at), st) and ip.decide(('le', True, first, e), st):
            kept.append((s, T.app('overwritten', p), e))
        else:
            st.note('a file written to where it may have been written before')
    size = o.data['~size']
    if ip.decide(('le', False, at, size), st) is not True:
        size = at
    st.heap[f] = o.with_(data={**o.data, '~pieces': tuple(kept + new), '~pos': at,
                               '~size': size})
    return st, T.rsub(at, first)


@method(('bytefile', 'write'))
def m_write(ip, st, recv, args, kwargs, node):
    t = args[0]
    if T.is_unk(t):
        st.note('the bytes written')
        yield st, T.unk('written')
        return
    if ip.sort(t, st) == 'str':
        yield ip.raises(st, 'TypeError', node)
        return
    yield write(ip, st, recv, t, node)


@method(('bytefile', 'writelines'))
def m_writelines(ip, st, recv, args, kwargs, node):
    def go(s, xs):
        if not xs:
            yield s, T.NONE
            return
        for s2, _r in m_write(ip, s, recv, [xs[0]], {}, node):
            yield from go(s2, xs[1:])
    xs = ip.exact_items(st, args[0])
    if xs is None:
        st.note('the bytes written')
        yield st, T.NONE
        return
    yield from go(st, list(xs))


@method(('bytefile', 'seek'))
def m_seek(ip, st, recv, args, kwargs, node):
    o = st.heap[recv]
    how = args[1] if len(args) > 1 else ZERO
    base = ZERO if how in (ZERO, ('ext', 'os.SEEK_SET')) else \
        o.data['~pos'] if how in (T.C(1), ('ext', 'os.SEEK_CUR')) else o.data['~size']
    at = T.radd(base, args[0])
    st.heap[recv] = o.with_(data={**o.data, '~pos': at})
    yield st, at


@method(('bytefile', 'tell'))
def m_tell(ip, st, recv, args, kwargs, node):
    yield st, st.heap[recv].data['~pos']


@method(('bytefile', 'flush'), ('bytefile', 'close'))
def m_flush(ip, st, recv, args, kwargs, node):
    yield st, T.NONE


@method(('bytefile', 'fileno'))
def m_fileno(ip, st, recv, args, kwargs, node):
    yield st, T.app('fd', recv)


@method(('bytefile', 'read'))
def m_read(ip, st, recv, args, kwargs, node):
    o = st.heap[recv]
    at = o.data['~pos']
    end = T.radd(at, args[0]) if args and args[0] not in (T.C(-1), T.NONE) else o.data['~size']
    v = read(ip, st, recv, at, end)
    st, n = length(ip, st, v)
    st.heap[recv] = o.with_(data={**o.data, '~pos': T.radd(at, n)})
    yield st, v


@model('os.fstat')
def m_fstat(ip, st, args, kwargs, node):
    fd = args[0]
    if fd[0] == 'app' and fd[1] == 'fd' and fd[2][0] == 'ref' and \
            st.heap[fd[2]].type == 'bytefile':
        yield st, st.new('ext', type='stat', data={'st_size': st.heap[fd[2]].data['~size']})
        return
    st.event('extcall', 'os.fstat', tuple(args), (), ip.site(st, node))
    yield st, T.unk('result of os.fstat')


@model('mmap.mmap')
def m_mmap(ip, st, args, kwargs, node):
    fd = args[0]
    if fd[0] == 'app' and fd[1] == 'fd' and fd[2][0] == 'ref':
        size = st.heap[fd[2]].data['~size']
        n = args[1] if len(args) > 1 else kwargs.get('length', ZERO)
        if n != ZERO and ip.decide(('le', False, n, size), st) is False:
            yield ip.raises(st, 'ValueError', node)
            return
        yield st, st.new('ext', type='mmap', data={'~file': fd[2], '~end':
                                                   size if n == ZERO else n})
        return
    st.event('extcall', 'mmap.mmap', tuple(args), (), ip.site(st, node))
    yield st, T.unk('result of mmap.mmap')


@method(('mmap', 'close'))
def m_mclose(ip, st, recv, args, kwargs, node):
    yield st, T.NONE


@method(('mmap', 'size'))
def m_msize(ip, st, recv, args, kwargs, node):
    yield st, st.heap[recv].data['~end']


def slice_hook(ip, st, v, sl, node):
    """Slices of memory and of bytes, or None if it is something else."""
    lo, hi, step = sl
    if step is not None and step != T.C(1):
        return None
    lo = ZERO if lo is None else lo
    if v[0] == 'ref' and st.heap[v].kind == 'ext' and st.heap[v].type == 'mmap':
        o = st.heap[v].data
        return [(st, read(ip, st, o['~file'], lo, o['~end'] if hi is None else hi))]
    if v[0] == 'cat' and is_bytes(ip, st, v) or v[0] == 'app' and v[1] == 'pack':
        if lo[0] == 'c' and lo[2] < 0 or hi is not None and hi[0] == 'c' and hi[2] < 0:
            return None
        f = new_file(st)
        st, n = write(ip, st, f, v, node)
        r = read(ip, st, f, lo, n if hi is None else hi)
        del st.heap[f]
        return [(st, r)]
    return None


def install(ip):
    ip.slice_hook = slice_hook
    ip.length_hook = length
