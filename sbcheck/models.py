"""Models of the builtins and library functions that the package uses."""
import re

from . import terms as T
from .state import Exc
from .program import Function

MODELS = {}
METHODS = {}


def model(*names):
    def deco(f):
        for n in names:
            MODELS[n] = f
        return f
    return deco


def method(*keys):
    def deco(f):
        for k in keys:
            METHODS[k] = f
        return f
    return deco


def B(*names):
    return model(*['builtins.' + n for n in names])


def nxt(s):
    yield s, 'next', None


def fault(ip, st, what, names, node):
    """States in which the operation fails, if faults are asked for."""
    if not ip.faults:
        return
    if ip.fault_filter is not None and not ip.fault_filter(what):
        return
    for n in names:
        s = st.copy()
        s.event('fault', what, n, ip.site(s, node))
        yield ip.raises(s, n, node)


# --- conversion and inspection ---------------------------------------------------

def length(ip, st, v, node):
    """Yields (state, term)."""
    if T.is_unk(v):
        yield st, v
        return
    xs = ip.exact_items(st, v)
    if xs is not None:
        if v[0] == 'ref' and st.heap[v].kind == 'set':
            # Items that may be equal would have been merged.
            pass
        yield st, T.C(len(xs))
        return
    if v[0] == 'view':
        v = v[2]
    if v[0] == 'ref':
        o = st.heap[v]
        if o.kind == 'inst':
            f = ip.p.find_method(o.cls, '__len__')
            if isinstance(f, Function):
                yield from ip.call(st, ('bm', f.fid, v), [], {}, node)
                return
            if f is not None and f[0] == 'ext' and f[1] in ip.models:
                yield from ip.call(st, ('bext', f[1], v), [], {}, node)
                return
            yield st, T.unk('len of an instance')
            return
        if o.kind in ('list', 'dict', 'set'):
            t = ip.length_term(st, v)
            for s, r in ip.nonempty(v, st):
                if r:
                    t2 = ip.length_term(s, v)
                    s = ip.assume_le(T.C(1), t2, True, s)
                    if s is not None:
                        yield s, t2
                else:
                    yield s, T.C(0)
            return
        if o.kind == 'stream':
            yield st, T.app('len', T.S(o.name))
            return
        yield st, T.unk('len of %s' % o.kind)
        return
    s = ip.sort(v, st)
    if s in ('int', 'float', 'none', 'bool'):
        yield ip.raises(st, 'TypeError', node)
        return
    if v[0] == 'tup':
        yield st, T.C(len(v) - 1)
        return
    if ip.length_hook is not None and s == 'bytes':
        yield ip.length_hook(ip, st, v)
        return
    t = T.app('len', v)
    r = ip.assume_le(T.C(0), t, True, st)
    yield (r if r is not None else st), t


@B('len')
def m_len(ip, st, args, kwargs, node):
    yield from length(ip, st, args[0], node)


@B('int')
def m_int(ip, st, args, kwargs, node):
    if not args:
        yield st, T.C(0)
        return
    v = args[0]
    if T.is_unk(v):
        yield st, v
        return
    if len(args) == 1:
        if v[0] == 'c' and v[1] in ('int', 'bool', 'float', 'str', 'bytes'):
            try:
                yield st, T.C(int(v[2]))
            except (ValueError, OverflowError):
                yield ip.raises(st, 'ValueError', node)
            return
        if ip.sort(v, st) in ('int',):
            yield st, v
            return
        if v[0] == 'cat' and len(v) == 2 and v[1][0] == 'fmt' and \
                ip.sort(v[1][2], st) == 'int' and v[1][1] in ('', 'd'):
            yield st, v[1][2]
            return
        if ip.sort(v, st) in ('none', 'list', 'tuple', 'dict', 'set'):
            yield ip.raises(st, 'TypeError', node)
            return
    t = T.app('int', *args)
    if ip.sort(v, st) not in ('float',):
        if ip.sort(v, st) == 'none' or v[0] == 'ref':
            yield ip.raises(st, 'TypeError', node)
            return
        for s, ok in ip.fork(('bool', T.app('intlike', *args)), st):
            if ok:
                yield s, t
            else:
                yield ip.raises(s, 'ValueError', node)
        return
    yield st, t


@B('float')
def m_float(ip, st, args, kwargs, node):
    v = args[0] if args else T.C(0.0)
    if v[0] == 'c':
        try:
            yield st, T.C(float(v[2]))
        except (ValueError, TypeError):
            yield ip.raises(st, 'ValueError', node)
        return
    if ip.sort(v, st) in ('int', 'float'):
        yield st, v
        return
    yield st, T.app('float', v)


@B('str')
def m_str(ip, st, args, kwargs, node):
    if not args:
        yield st, T.C('')
        return
    v = args[0]
    if T.is_unk(v):
        yield st, v
    elif len(args) > 1 or kwargs:
        yield st, T.app('decode', *args)
    elif v[0] == 'ref' and st.heap[v].kind == 'inst':
        for nm in ('__str__', '__repr__'):
            f = ip.p.find_method(st.heap[v].cls, nm)
            if isinstance(f, Function):
                yield from ip.call(st, ('bm', f.fid, v), [], {}, node)
                return
            if f is not None and f[0] == 'ext' and f[1] in ip.models:
                yield from ip.call(st, ('bext', f[1], v), [], {}, node)
                return
        yield st, T.app('str', v)
    elif v[0] == 'exc':
        yield st, T.app('text of', T.C(v[1].name), v[1].payload if isinstance(
            v[1].payload, tuple) else T.NONE)
    elif v[0] == 'cat' and ip.sort(v, st) == 'str':
        yield st, v
    elif ip.sort(v, st) == 'str':
        yield st, v
    else:
        yield st, T.cat([ip.fmt(v, '', st)])


@B('bytes')
def m_bytes(ip, st, args, kwargs, node):
    if not args:
        yield st, T.C(b'')
        return
    v = args[0]
    if v[0] == 'c' and v[1] == 'str' and len(args) > 1 and args[1][0] == 'c':
        yield st, T.C(v[2].encode(args[1][2]))
    elif ip.sort(v, st) == 'bytes':
        if len(args) > 1 or kwargs:
            yield ip.raises(st, 'TypeError', node)
        else:
            yield st, v
    elif len(args) > 1:
        yield st, encode(v, args[1])
    else:
        yield st, T.app('bytes', *args)


@B('repr', 'ascii')
def m_repr(ip, st, args, kwargs, node):
    v = args[0]
    if v[0] == 'c' and v[1] != 'frac':
        yield st, T.C(repr(v[2]))
    else:
        yield st, T.app('repr', v)


@B('bool')
def m_bool(ip, st, args, kwargs, node):
    if not args:
        yield st, T.FALSE
        return
    for s, b in ip.truth(args[0], st, node):
        yield s, (b if isinstance(b, Exc) else T.C(b))


@B('abs')
def m_abs(ip, st, args, kwargs, node):
    v = args[0]
    if v[0] == 'c':
        yield st, ('c', v[1], abs(v[2]))
        return
    if v == ip.NUM:
        yield st, v
        return
    if T.has_unk(v):
        yield st, v if T.is_unk(v) else T.unk('abs of an unknown value')
        return
    yield st, T.app('abs', v)


@B('round')
def m_round(ip, st, args, kwargs, node):
    if all(a[0] == 'c' for a in args):
        yield st, T.C(round(*[a[2] for a in args]))
        return
    yield st, T.app('round', *args)


@B('ord')
def m_ord(ip, st, args, kwargs, node):
    yield st, T.C(ord(args[0][2])) if args[0][0] == 'c' else T.app('ord', args[0])


@B('chr')
def m_chr(ip, st, args, kwargs, node):
    yield st, T.C(chr(args[0][2])) if args[0][0] == 'c' else T.app('chr', args[0])


@B('id')
def m_id(ip, st, args, kwargs, node):
    yield st, T.app('id', args[0])


@B('hash')
def m_hash(ip, st, args, kwargs, node):
    yield st, T.app('hash', args[0])


@B('print')
def m_print(ip, st, args, kwargs, node):
    yield st, T.NONE


@B('callable')
def m_callable(ip, st, args, kwargs, node):
    if args[0][0] in ('fn', 'bm', 'bbm', 'cls', 'ext', 'partial', 'decorated'):
        yield st, T.TRUE
        return
    for s, b in ip.fork(('bool', T.app('callable', args[0])), st):
        yield s, T.C(b)


TYPES = {'str', 'bytes', 'int', 'float', 'bool', 'list', 'tuple', 'dict', 'set'}


@B('isinstance')
def m_isinstance(ip, st, args, kwargs, node):
    v, typ = args
    types = list(typ[1:]) if typ[0] == 'tup' else [typ]
    def go(s, i):
        if i == len(types):
            yield s, T.FALSE
            return
        for s2, r in one(s, types[i]):
            if r:
                yield s2, T.TRUE
            else:
                yield from go(s2, i + 1)
    def one(s, t):
        if T.is_unk(v) or T.is_unk(t):
            yield from ip.truth(T.unk('isinstance of an unknown value'), s)
            return
        if v[0] in ('exc', 'excinst'):
            x = v[1] if v[0] == 'exc' else None
            if x is None:
                x = Exc(v[1], v[2])
            if t[0] not in ('ext', 'cls'):
                yield from ip.truth(T.unk('isinstance of an exception'), s)
                return
            m = ip.matches(x, [t[1].replace('builtins.', '')])
            if m is None:
                yield from ip.truth(T.unk('isinstance of an unknown exception'), s)
            else:
                yield s, m
            return
        if v[0] == 'tup' and t[0] == 'cls' and t[1] in ip.records.tuples:
            if len(ip.records.tuples[t[1]]) != len(v) - 1:
                yield s, False
            else:
                yield from ip.truth(T.unk('isinstance of a tuple'), s)
            return
        if v[0] == 'ref':
            o = s.heap[v]
            if o.kind == 'inst':
                if t[0] == 'cls':
                    yield s, t[1] in ip.p.mro(o.cls)
                    return
                if t[0] == 'ext':
                    yield s, ('ext', t[1]) in ip.p.mro(o.cls) or t[1] == 'builtins.object'
                    return
            if t[0] == 'ext' and t[1].startswith('builtins.'):
                yield s, o.kind == t[1][9:]
                return
            if t[0] == 'cls':
                yield s, False
                return
        if t == ('ext', 'builtins.object'):
            yield s, True
            return
        if v[0] == 'enum':
            yield s, t[0] in ('enumcls', 'cls') and t[1] == v[1] or t == ('ext', 'enum.Enum')
            return
        if t[0] == 'enumcls' or ip.enum_members(t) is not None:
            if ip.sort(v, s) is not None or v[0] in ('ref', 'fn', 'cls', 'ext'):
                yield s, False
            else:
                yield from ip.fork(('isinst', v, t), s)
            return
        if t[0] == 'ext' and t[1].startswith('builtins.') and t[1][9:] in TYPES:
            n = t[1][9:]
            st0 = ip.sort(v, s)
            if n == 'int' and st0 == 'bool':
                yield s, True
                return
            yield from ip.fork(('isinst', v, n), s)
            return
        if t[0] in ('ext', 'cls'):
            if ip.sort(v, s) in TYPES | {'none'}:
                yield s, t[1] in ('collections.abc.Iterable', 'collections.abc.Container') and \
                    ip.sort(v, s) in ('str', 'bytes', 'list', 'tuple', 'dict', 'set')
                return
            yield from ip.fork(('isinst', v, t), s)
            return
        yield from ip.truth(T.unk('isinstance'), s)
    yield from go(st, 0)


@B('issubclass')
def m_issubclass(ip, st, args, kwargs, node):
    c, types = args
    if c[:2] == ('app', 'exctype') and len(c) == 3:
        yield from m_isinstance(ip, st, [c[2], types], {}, node)
        return
    yield st, T.unk('issubclass')


@B('type')
def m_type(ip, st, args, kwargs, node):
    v = args[0]
    if len(args) == 1:
        if v[0] == 'ref' and st.heap[v].kind == 'inst':
            yield st, ('cls', st.heap[v].cls)
            return
        if v[0] == 'exc':
            yield st, T.app('exctype', v)
            return
        if v[0] == 'tup' and any(len(f) == len(v) - 1 for _c, f in ip.records.all_tuples()):
            yield st, T.unk('type of a tuple')
            return
        s = ip.sort(v, st)
        if s in TYPES:
            yield st, ('ext', 'builtins.' + s)
            return
        if s == 'header':
            yield st, ('ext', 'email.header.Header')
            return
    yield st, T.app('type', *args)


@B('getattr')
def m_getattr(ip, st, args, kwargs, node):
    if args[1][0] != 'c':
        yield st, T.unk('getattr')
        return
    for s, v in ip.getattr(st, args[0], args[1][2], node):
        if isinstance(v, Exc) and v.name == 'AttributeError' and len(args) > 2:
            yield s, args[2]
        elif args[0][0] in ('s', 'app') and len(args) > 2:
            for s2, b in ip.fork(('bool', T.app('hasattr', args[0], args[1])), s):
                yield s2, (v if b else args[2])
        else:
            yield s, v


@B('hasattr')
def m_hasattr(ip, st, args, kwargs, node):
    if args[1][0] != 'c' or T.is_unk(args[0]):
        yield st, T.unk('hasattr')
        return
    known = {'str': str, 'bytes': bytes, 'int': int, 'float': float, 'bool': bool,
             'tuple': tuple}.get(ip.sort(args[0], st))
    if known and args[0][0] != 'c':
        yield st, T.C(hasattr(known, args[1][2]))
        return
    if args[0][0] in ('s', 'app'):
        for s, b in ip.fork(('bool', T.app('hasattr', args[0], args[1])), st):
            yield s, T.C(b)
        return
    typ, name = None, args[1][2]
    if args[0][0] == 'c' and not isinstance(args[0][2], str) or \
            args[0][0] == 'c' and args[0][1] == 'str':
        typ = type(args[0][2])
    elif args[0][0] == 'tup':
        typ = tuple
    elif args[0][0] == 'ref':
        o = st.heap[args[0]]
        typ = {'list': list, 'set': set}.get(o.kind)
        if o.kind == 'dict' and o.d.get('flavor') == 'dict':
            typ = dict
        if o.kind in ('gen', 'lazy', 'iter', 'chain') or \
                o.kind == 'stream' and o.oneshot:
            if name in ('__iter__', '__next__', '__len__', '__getitem__', '__contains__'):
                yield st, T.C(name in ('__iter__', '__next__'))
                return
            yield st, T.unk('hasattr')
            return
        if o.kind == 'stream':
            if name in ('__iter__', '__next__', '__len__', '__contains__'):
                yield st, T.C(name != '__next__')
                return
            yield st, T.unk('hasattr')
            return
    if typ is not None:
        yield st, T.C(hasattr(typ, name))
        return
    for s, v in ip.getattr(st, args[0], name, node):
        yield s, T.C(not isinstance(v, Exc))


@B('setattr')
def m_setattr(ip, st, args, kwargs, node):
    if args[0][0] == 'ref' and args[1][0] == 'c' and st.heap[args[0]].kind == 'inst':
        st.setattr(args[0], args[1][2], args[2])
        yield st, T.NONE
        return
    st.note('setattr')
    yield st, T.NONE


@B('object.__init__')
def m_objinit(ip, st, args, kwargs, node):
    yield st, T.NONE


@B('vars', 'dir', 'globals', 'locals')
def m_vars(ip, st, args, kwargs, node):
    yield st, T.unk('vars')


# --- iteration -------------------------------------------------------------------

@B('iter')
def m_iter(ip, st, args, kwargs, node):
    if len(args) > 1:
        yield st, T.unk('iter with a sentinel')
        return
    v = args[0]
    if T.is_unk(v):
        yield st, v
        return
    if v[0] == 'ref':
        o = st.heap[v]
        if o.kind == 'stream':
            if o.oneshot:
                yield st, v
            else:
                yield st, st.new('stream', name=o.name, oneshot=True, rem=o.rem, done=False)
            return
        if o.kind in ('gen', 'chain', 'lazy', 'iter'):
            yield st, v
            return
        if o.kind == 'inst':
            f = ip.p.find_method(o.cls, '__iter__')
            if isinstance(f, Function):
                yield from ip.call(st, ('bm', f.fid, v), [], {}, node)
                return
        if o.kind in ('list', 'dict', 'set'):
            yield st, st.new('chain', parts=(v,), oneshot=True)
            return
    if v[0] in ('tup', 'view', 'c'):
        yield st, st.new('chain', parts=(v,), oneshot=True)
        return
    if ip.sort(v, st) in ('none', 'int', 'float'):
        yield ip.raises(st, 'TypeError', node)
        return
    yield st, T.app('iter', v)


@B('next')
def m_next(ip, st, args, kwargs, node):
    """The first element of an iterator."""
    v = args[0]
    if v[0] == 'ref' and st.heap[v].kind == 'stream':
        o = st.heap[v]
        if not o.oneshot:
            yield ip.raises(st, 'TypeError', node)
            return
        if o.rem is None:
            outs = []
            for rem in (0, 1, 2):
                s = st.copy()
                s.upd(v, rem=rem)
                outs.append(s)
        else:
            outs = [st]
        for s in outs:
            for s2, e in ip.draw(s, v):
                if e is None:
                    if len(args) > 1:
                        yield s2, args[1]
                    else:
                        yield ip.raises(s2, 'StopIteration', node)
                else:
                    yield s2, e
        return
    if v[0] == 'ref' and st.heap[v].kind == 'chain':
        o = st.heap[v]
        if not o.parts:
            if len(args) > 1:
                yield st, args[1]
            else:
                yield ip.raises(st, 'StopIteration', node)
            return
        xs = ip.exact_items(st, o.parts[0])
        if xs is not None:
            if not xs:
                st.upd(v, parts=o.parts[1:])
                yield from m_next(ip, st, args, kwargs, node)
                return
            st.upd(v, parts=(('tup',) + tuple(xs[1:]),) + o.parts[1:])
            yield st, xs[0]
            return
        p = o.parts[0]
        if p[0] == 'view':
            p = p[2] if p[1] == 'keys' else None
        if p and p[0] == 'ref' and st.heap[p].kind in ('dict', 'set', 'list'):
            yield from first_of(ip, st, p, args, node, lambda s: s.upd(v, parts=(T.unk('rest of an iterator'),)))
            return
    if v[0] == 'ref' and st.heap[v].kind == 'gen' and st.heap[v].d.get('fid') is None \
            and not st.heap[v].done:
        # next(... for ... in ...): the first element
        found = []
        def cb(s, e):
            yield s, 'first', e
        for s, k, x in ip.iterate(st, v, cb, node):
            if k == 'first':
                yield s, x
            elif k == 'raise':
                yield s, x
            elif len(args) > 1:
                yield s, args[1]
            else:
                yield ip.raises(s, 'StopIteration', node)
        return
    st.note('next()')
    yield st, T.unk('next()')


def first_of(ip, st, ref, args, node, after):
    """The first of a collection; knows about the order of dict keys only
    that it is the first key (an app term)."""
    for s, r in ip.nonempty(ref, st):
        if not r:
            if len(args) > 1:
                yield s, args[1]
            else:
                yield ip.raises(s, 'StopIteration', node)
            continue
        after(s)
        h = getattr(ip, 'first_hook', None)
        if h is not None:
            r = h(ip, s, ref, node)
            if r is not None:
                yield from r
                continue
        yield s, T.app('first', T.S(s.heap[ref].d.get('base') or 'coll'))


@B('range')
def m_range(ip, st, args, kwargs, node):
    lo, hi, step = T.C(0), None, T.C(1)
    if len(args) == 1:
        hi = args[0]
    else:
        lo, hi = args[0], args[1]
        if len(args) > 2:
            step = args[2]
    for a in (lo, hi, step):
        if ip.sort(a, st) in ('float', 'str', 'bytes', 'none') and a[0] != 'rat':
            yield ip.raises(st, 'TypeError', node)
            return
    yield st, ('range', lo, hi, step)


def lazy(st, run, *parts):
    return st.new('lazy', run=run, parts=tuple(parts), done=False)


def unrolled(ip, st, v):
    """Whether iterating over it visits known elements one by one."""
    if ip.exact_items(st, v) is not None:
        return True
    if v[0] != 'ref' or st.heap[v].kind != 'chain':
        return False
    return all(unrolled(ip, st, x) for x in st.heap[v].parts)


@B('enumerate')
def m_enumerate(ip, st, args, kwargs, node):
    start = args[1] if len(args) > 1 else kwargs.get('start', T.C(0))
    xs = ip.exact_items(st, args[0])
    if xs is not None and start[0] == 'c':
        yield st, ip.new_list(st, [('tup', T.C(start[2] + i), x) for i, x in enumerate(xs)])
        return
    cnt = st.new('ext', type='counter', data={'n': start})
    def run(ip, s, o, cb, node):
        ref, c = o.parts
        exact = unrolled(ip, s, ref)
        def each(s2, e):
            n = s2.heap[c].data['n']
            if exact and n[0] == 'c':
                s2.upd(c, data={'n': T.C(n[2] + 1), 'first': False})
                yield from cb(s2, ('tup', n, e))
                return
            first = s2.heap[c].data.get('first', True)
            if T.is_unk(n):
                n2 = n
            # Only the first round and later ones are told apart.
            idx = n if first else T.app('index', T.S('position'))
            if not first:
                s2 = ip.assume_le(T.radd(start, T.C(1)), idx, True, s2)
                if s2 is None:
                    return
            s2.upd(c, data={'n': n, 'first': False})
            yield from cb(s2, ('tup', idx, e))
        base = s.stack
        s.stack = s.stack + (c,)
        for s2, k, v in ip.iterate(s, ref, each, node):
            s2.stack = base
            yield s2, k, v
    yield st, lazy(st, run, args[0], cnt)


@B('zip')
def m_zip(ip, st, args, kwargs, node):
    xss = [ip.exact_items(st, a) for a in args]
    if all(x is not None for x in xss):
        yield st, ip.new_list(st, [('tup',) + x for x in zip(*xss)])
        return
    h = getattr(ip, 'zip_hook', None)
    if h is not None:
        r = h(ip, st, args, kwargs, node)
        if r is not None:
            yield st, r
            return
    st.note('zip')
    yield st, T.unk('zip')


@B('map')
def m_map(ip, st, args, kwargs, node):
    f = args[0]
    if len(args) != 2:
        yield st, T.unk('map of several iterables')
        return
    def run(ip, s, o, cb, node):
        def each(s2, e):
            for s3, v in ip.call(s2, o.parts[0], [e], {}, node):
                if isinstance(v, Exc):
                    yield s3, 'raise', v
                else:
                    yield from cb(s3, v)
        yield from ip.iterate(s, o.parts[1], each, node)
    yield st, lazy(st, run, f, args[1])


@B('filter')
def m_filter(ip, st, args, kwargs, node):
    def run(ip, s, o, cb, node):
        def each(s2, e):
            if o.parts[0] == T.NONE:
                outs = ip.truth(e, s2, node)
            else:
                outs = truth_of_call(ip, s2, o.parts[0], e, node)
            for s3, b in outs:
                if isinstance(b, Exc):
                    yield s3, 'raise', b
                elif b:
                    yield from cb(s3, e)
                else:
                    yield s3, 'next', None
        yield from ip.iterate(s, o.parts[1], each, node)
    yield st, lazy(st, run, args[0], args[1])


@model('itertools.filterfalse')
def m_filterfalse(ip, st, args, kwargs, node):
    def run(ip, s, o, cb, node):
        def each(s2, e):
            for s3, b in truth_of_call(ip, s2, o.parts[0], e, node):
                if isinstance(b, Exc):
                    yield s3, 'raise', b
                elif not b:
                    yield from cb(s3, e)
                else:
                    yield s3, 'next', None
        yield from ip.iterate(s, o.parts[1], each, node)
    yield st, lazy(st, run, args[0], args[1])


def truth_of_call(ip, s, f, e, node):
    for s2, v in ip.call(s, f, [e], {}, node):
        if isinstance(v, Exc):
            yield s2, v
        else:
            yield from ip.truth(v, s2, node)


@model('itertools.chain')
def m_chain(ip, st, args, kwargs, node):
    yield st, st.new('chain', parts=tuple(args), oneshot=True)


@model('itertools.chain.from_iterable')
def m_chainfi(ip, st, args, kwargs, node):
    xs = ip.exact_items(st, args[0])
    if xs is not None:
        yield st, st.new('chain', parts=tuple(xs), oneshot=True)
        return
    def run(ip, s, o, cb, node):
        def each(s2, e):
            yield from ip.iterate(s2, e, cb, node)
        yield from ip.iterate(s, o.parts[0], each, node)
    yield st, lazy(st, run, args[0])


@model('itertools.islice')
def m_islice(ip, st, args, kwargs, node):
    xs = ip.exact_items(st, args[0])
    if xs is not None and all(a[0] == 'c' for a in args[1:]):
        sl = slice(*[a[2] for a in args[1:]])
        yield st, ip.new_list(st, xs[sl])
        return
    if len(args) >= 3 and args[1] in (T.C(0), T.NONE) and args[2] == T.NONE:
        yield st, args[0]
        return
    h = getattr(ip, 'islice_hook', None)
    if h is not None:
        r = h(ip, st, args, kwargs, node)
        if r is not None:
            yield st, r
            return
    st.note('islice')
    yield st, T.unk('islice')


@B('list', 'tuple')
def m_list(ip, st, args, kwargs, node):
    astuple = node is not None and getattr(getattr(node, 'func', None), 'id', '') == 'tuple'
    if not args:
        yield st, (('tup',) if astuple else ip.new_list(st, []))
        return
    yield from make_list(ip, st, args[0], node, astuple)


def make_list(ip, st, v, node, astuple=False):
    if T.is_unk(v):
        yield st, v
        return
    xs = ip.exact_items(st, v)
    if xs is not None:
        yield st, (('tup',) + tuple(xs) if astuple else ip.new_list(st, xs))
        return
    if v[0] == 'ref' and st.heap[v].kind == 'stream' and not st.heap[v].oneshot:
        # A list of the same elements in the same order.
        pass
    h = getattr(ip, 'list_hook', None)
    if h is not None:
        r = h(ip, st, v, node)
        if r is not None:
            yield from r
            return
    r = ip.new_list(st, [])
    order = None
    if v[0] == 'ref' and st.heap[v].kind == 'list':
        order = st.heap[v].order
    base = st.stack
    st.stack = st.stack + (r,)
    def cb(s, e):
        ip.list_append(s, r, e)
        yield s, 'next', None
    for s, k, x in ip.iterate(st, v, cb, node):
        s.stack = base
        if k == 'raise':
            yield s, x
            continue
        if order is not None and not s.heap[r].exact:
            s.heap[r] = s.heap[r].with_(order=order)
        yield s, r


@B('set', 'frozenset')
def m_set(ip, st, args, kwargs, node):
    if not args:
        yield st, st.new('set', items=(), base=None, others=False)
        return
    v = args[0]
    if T.is_unk(v):
        yield st, v
        return
    if v[0] == 'view' and v[1] == 'keys':
        v = v[2]
    if v[0] == 'ref' and st.heap[v].kind == 'set':
        o = st.heap[v]
        yield st, st.new('set', items=o.items, base=o.base, others=o.others)
        return
    if v[0] == 'ref' and st.heap[v].kind == 'dict':
        o = st.heap[v]
        yield st, st.new('set', items=tuple((k, x is not None) for k, x in o.items),
                         base=o.base, others=o.others)
        return
    r = st.new('set', items=(), base=None, others=False)
    base = st.stack
    st.stack = st.stack + (r,)
    for s, k, x in ip.iterate(st, v, lambda s, e: ip.cb_add(s, r, e), node):
        s.stack = base
        yield s, (x if k == 'raise' else r)


@B('dict')
def m_dict(ip, st, args, kwargs, node):
    r = st.new('dict', items=(), base=None, others=False, flavor='dict')
    if args:
        base = st.stack
        st.stack = st.stack + (r,)
        for s, x in dict_update(ip, st, r, args[0], node):
            s.stack = base
            if isinstance(x, Exc):
                yield s, x
                continue
            for s2, _ in ip.set_items(s, r, [(T.C(k), v) for k, v in kwargs.items()], node):
                yield s2, r
        return
    yield from ip.set_items(st, r, [(T.C(k), v) for k, v in kwargs.items()], node)


@model('collections.OrderedDict')
def m_odict(ip, st, args, kwargs, node):
    yield from m_dict(ip, st, args, kwargs, node)


@model('collections.defaultdict')
def m_ddict(ip, st, args, kwargs, node):
    for s, r in m_dict(ip, st, args[1:], kwargs, node):
        if not isinstance(r, Exc):
            s.upd(r, factory=args[0] if args else None)
        yield s, r


@model('collections.Counter')
def m_counter(ip, st, args, kwargs, node):
    """Counts, element by element (multiplicity matters)."""
    r = st.new('dict', items=(), base=None, others=False, flavor='dict', counter=True)
    if not args:
        yield st, r
        return
    base = st.stack
    st.stack = st.stack + (r,)
    def cb(s, e):
        for s2, v in ip.dict_get(s, r, e):
            for s3 in ip.dict_set(s2, r, e, T.radd(v, T.C(1)) if v is not None else T.C(1)):
                yield s3, 'next', None
    for s, k, x in ip.iterate(st, args[0], cb, node):
        s.stack = base
        yield s, (x if k == 'raise' else r)


@model('collections.deque')
def m_deque(ip, st, args, kwargs, node):
    if len(args) > 1 or kwargs:
        yield st, T.unk('deque with a bound')
        return
    yield from (make_list(ip, st, args[0], node) if args else [(st, ip.new_list(st, []))])


@B('sorted')
def m_sorted(ip, st, args, kwargs, node):
    key = kwargs.get('key')
    rev = kwargs.get('reverse', T.FALSE)
    if key in (T.NONE,):
        key = None
    if T.is_unk(args[0]):
        yield st, args[0]
        return
    for s, r in make_list(ip, st, args[0], node):
        if isinstance(r, Exc) or r[0] != 'ref':
            yield s, r
            continue
        yield from sort_ref(ip, s, r, key, rev, node)


def sort_ref(ip, st, ref, key, rev, node):
    o = st.heap[ref]
    if ip.exact_sort and o.kind == 'list' and o.exact and 2 <= len(o.items) <= 12 and \
            rev in (T.TRUE, T.FALSE):
        for s, xs in sort_exact(ip, st, list(o.items), key, rev == T.TRUE, node):
            if isinstance(xs, Exc):
                yield s, xs
            else:
                s.heap[ref] = s.heap[ref].with_(items=tuple(xs), order=None)
                yield s, ref
        return
    sort_list(ip, st, ref, key, rev)
    yield st, ref


def sort_exact(ip, st, items, key, rev, node):
    """Sorts by insertion, with a branch for every outcome of a comparison."""
    def keys(st, i, out):
        if i == len(items):
            yield from place(st, 1, [(out[0], items[0])], out)
            return
        if key is None:
            yield from keys(st, i + 1, out + [items[i]])
            return
        for s, k in ip.call(st, key, [items[i]], {}, node):
            if isinstance(k, Exc):
                yield s, k
            else:
                yield from keys(s, i + 1, out + [k])

    def place(st, i, done, ks):
        if i == len(items):
            yield st, [x for _k, x in done]
            return
        yield from insert(st, i, done, ks, len(done))

    def insert(st, i, done, ks, at):
        if at == 0:
            yield from place(st, i + 1, [(ks[i], items[i])] + done, ks)
            return
        a, b = ks[i], done[at - 1][0]
        if rev:
            a, b = b, a
        for s, r in less(ip, st, a, b, node):
            if isinstance(r, Exc):
                yield s, r
            elif r:
                yield from insert(s, i, done, ks, at - 1)
            else:
                yield from place(s, i + 1, done[:at] + [(ks[i], items[i])] + done[at:], ks)
    yield from keys(st, 0, [])


def less(ip, st, a, b, node):
    if a[0] == 'tup' and b[0] == 'tup':
        if len(b) == 1:
            yield st, False
        elif len(a) == 1:
            yield st, True
        elif a[1] == b[1]:
            yield from less(ip, st, ('tup',) + a[2:], ('tup',) + b[2:], node)
        else:
            for s, same in ip.compare('Eq', a[1], b[1], st, node):
                if isinstance(same, Exc):
                    yield s, same
                elif same:
                    yield from less(ip, s, ('tup',) + a[2:], ('tup',) + b[2:], node)
                else:
                    yield from less(ip, s, a[1], b[1], node)
        return
    for x in (a, b):
        if x == T.NONE or x[0] == 'ref' and st.heap[x].kind == 'inst' and \
                ip.p.find_method(st.heap[x].cls, '__lt__') is None:
            yield ip.raises(st, 'TypeError', node)
            return
    yield from ip.compare('Lt', a, b, st, node)


def sort_list(ip, st, ref, key, rev):
    o = st.heap[ref]
    if o.kind != 'list':
        st.note('sort')
        return
    ks = keysig(ip, st, key)
    if o.exact and len(o.items) < 2:
        return
    if o.exact and key is None and all(x[0] == 'c' for x in o.items):
        try:
            xs = sorted(o.items, key=lambda c: c[2], reverse=rev == T.TRUE)
            st.heap[ref] = o.with_(items=tuple(xs))
            return
        except TypeError:
            pass
    if rev == T.TRUE:
        d = 'desc'
    elif rev == T.FALSE:
        d = 'asc'
    else:
        d = '?'
    if o.exact:
        ip.summarise(st, ref)
        o = st.heap[ref]
    st.heap[ref] = o.with_(order=('sorted', d, ks))


def keysig(ip, st, key):
    """What a sort key function looks at: a term over ('s', '$x')."""
    if key is None:
        return ('s', '$x')
    s = st.copy()
    old = ip.item_hook
    try:
        outs = list(ip.call(s, key, [('s', '$x')], {}, None))
    finally:
        ip.item_hook = old
    if len(outs) == 1 and not isinstance(outs[0][1], Exc):
        return outs[0][1]
    return T.unk('sort key')


@model('operator.itemgetter')
def m_itemgetter(ip, st, args, kwargs, node):
    yield st, ('getter',) + tuple(args)


@B('reversed')
def m_reversed(ip, st, args, kwargs, node):
    for s, r in make_list(ip, st, args[0], node):
        if not isinstance(r, Exc) and r[0] == 'ref':
            reverse_list(s, r)
        yield s, r


def reverse_list(st, ref):
    o = st.heap[ref]
    if o.exact:
        st.heap[ref] = o.with_(items=tuple(reversed(o.items)))
    elif o.order is not None:
        st.heap[ref] = o.with_(order=flip(o.order))


def flip(order):
    if order[0] == 'sorted':
        return ('sorted', {'asc': 'desc', 'desc': 'asc'}.get(order[1], '?'), order[2])
    if order[0] == 'flip':
        return order[1]
    return ('flip', order)


@B('sum')
def m_sum(ip, st, args, kwargs, node):
    start = args[1] if len(args) > 1 else kwargs.get('start', T.C(0))
    acc = st.new('ext', type='acc', data={'n': start})
    base = st.stack
    st.stack = st.stack + (acc,)
    h = getattr(ip, 'sum_hook', None)
    if h is not None:
        r = h(ip, st, args, kwargs, node)
        if r is not None:
            yield from r
            return
    def cb(s, e):
        n = s.heap[acc].data['n']
        for s2, v in ip.binop('Add', n, e, s, node):
            if isinstance(v, Exc):
                yield s2, 'raise', v
            else:
                s2.upd(acc, data={'n': v})
                yield s2, 'next', None
    for s, k, v in ip.iterate(st, args[0], cb, node):
        s.stack = base
        yield s, (v if k == 'raise' else s.heap[acc].data['n'])


def anyall(which):
    def m(ip, st, args, kwargs, node):
        def cb(s, e):
            for s2, b in ip.truth(e, s, node):
                if isinstance(b, Exc):
                    yield s2, 'raise', b
                elif b == which:
                    yield s2, 'found', None
                else:
                    yield s2, 'next', None
        for s, k, v in ip.iterate(st, args[0], cb, node):
            if k == 'raise':
                yield s, v
            else:
                yield s, T.C(which if k == 'found' else not which)
    return m


MODELS['builtins.any'] = anyall(True)
MODELS['builtins.all'] = anyall(False)


def minmax(name):
    def m(ip, st, args, kwargs, node):
        if len(args) >= 2 and not kwargs:
            if ip.opaque and any(x == ip.NUM for x in args):
                yield st, ip.NUM
                return

            def go(s, best, rest):
                if not rest:
                    yield s, best
                    return
                x = rest[0]
                if T.is_unk(x) or T.is_unk(best):
                    yield s, T.unk('%s of an unknown value' % name)
                    return
                atom = ('le', False, best, x) if name == 'min' else ('le', False, x, best)
                for s2, r in ip.fork(atom, s):
                    yield from go(s2, best if r else x, rest[1:])
            yield from go(st, args[0], list(args[1:]))
            return
        if len(args) == 1:
            v = args[0]
            xs = ip.exact_items(st, v)
            if xs is not None and not kwargs:
                if len(xs) == 0:
                    yield ip.raises(st, 'ValueError', node)
                    return
                if len(xs) == 1:
                    yield st, xs[0]
                    return
                yield from m(ip, st, xs, kwargs, node)
                return
        yield st, T.unk(name)
    return m


MODELS['builtins.min'] = minmax('min')
MODELS['builtins.max'] = minmax('max')


@B('slice')
def m_slice(ip, st, args, kwargs, node):
    yield st, T.unk('slice object')


# --- math, time ------------------------------------------------------------------

@model('math.log', 'math.exp', 'math.log10', 'math.log2', 'math.sqrt', 'math.log1p',
       'math.expm1', 'math.floor', 'math.ceil', 'math.ldexp', 'math.fabs', 'math.pow')
def m_math(ip, st, args, kwargs, node):
    name = getattr(node.func, 'attr', None) or getattr(node.func, 'id', '?')
    for a in args:
        if T.has_unk(a):
            yield st, T.unk('%s of an unknown value' % name)
            return
    if ip.opaque:
        yield st, ip.NUM
        return
    if all(a[0] == 'c' for a in args):
        import math
        f = getattr(math, name, None)
        if f is not None:
            try:
                yield st, T.C(f(*[a[2] for a in args]))
            except (ValueError, OverflowError, TypeError):
                yield ip.raises(st, 'ValueError', node)
            return
    yield st, T.app(name, *args)


@model('math.frexp')
def m_frexp(ip, st, args, kwargs, node):
    if ip.opaque:
        yield st, ('tup', ip.NUM, ip.NUM)
        return
    yield st, ('tup', T.app('frexp_m', args[0]), T.app('frexp_e', args[0]))


@model('time.time')
def m_time(ip, st, args, kwargs, node):
    yield st, T.app('time')


# --- files ------------------------------------------------------------------------

@model('os.path.join')
def m_join(ip, st, args, kwargs, node):
    if any(T.is_unk(a) for a in args):
        yield st, T.unk('path')
        return
    if all(a[0] == 'c' for a in args):
        import os
        yield st, T.C(os.path.join(*[a[2] for a in args]))
        return
    for a in args:
        if ip.sort(a, st) in ('none', 'int'):
            yield ip.raises(st, 'TypeError', node)
            return
    # joining joined paths
    if args[0][0] == 'app' and args[0][1] == 'pathjoin':
        args = list(args[0][2:]) + list(args[1:])
    yield st, T.app('pathjoin', *args)


@model('os.path.basename', 'os.path.dirname', 'os.path.abspath', 'os.path.realpath',
       'os.path.normpath', 'os.path.expanduser')
def m_pathfn(ip, st, args, kwargs, node):
    name = getattr(node.func, 'attr', None) or getattr(node.func, 'id', '?')
    v = args[0]
    if T.is_unk(v):
        yield st, v
        return
    if ip.sort(v, st) in ('none', 'int'):
        yield ip.raises(st, 'TypeError', node)
        return
    if v[0] == 'c':
        import os.path
        pure = name in ('basename', 'dirname', 'normpath')
        w = getattr(ip, 'files', None)
        if name in ('abspath', 'realpath') and getattr(w, 'listing', False) and \
                w.path(v) is not None:
            yield st, T.C(w.path(v))
            return
        if not pure and isinstance(v[2], str) and v[2].startswith('/'):
            name, pure = 'normpath', True       # symbolic links are not modelled
        if pure:
            try:
                yield st, T.C(getattr(os.path, name)(v[2]))
            except TypeError:
                yield ip.raises(st, 'TypeError', node)
            return
    yield st, T.app(name, v)


@model('os.path.exists', 'os.path.isfile', 'os.path.isdir', 'os.path.lexists')
def m_exists(ip, st, args, kwargs, node):
    name = getattr(node.func, 'attr', None) or getattr(node.func, 'id', '?')
    if T.is_unk(args[0]):
        yield st, T.unk('exists')
        return
    st.event('fs', name, args[0], ip.site(st, node))
    for s, _e in fault(ip, st, 'exists', ['OSError'], node):
        # Errors look as if there were nothing.
        yield s, T.FALSE
    w = getattr(ip, 'files', None)
    if w is not None:
        isdir = getattr(w, 'is_dir', lambda st, p: False)(st, args[0])
        isfile = w.get(st, args[0]) is not None
        yield st, T.C(isdir if name == 'isdir' else isfile if name == 'isfile'
                      else isfile or isdir)
        return
    for s, b in ip.fork(('bool', T.app(name, args[0])), st):
        yield s, T.C(b)


@model('os.path.split')
def m_split(ip, st, args, kwargs, node):
    if args[0][0] == 'c' and isinstance(args[0][2], str):
        import os.path
        yield st, ('tup',) + tuple(T.C(x) for x in os.path.split(args[0][2]))
        return
    yield st, ('tup', T.app('dirname', args[0]), T.app('basename', args[0]))


@model('os.path.splitext')
def m_splitext(ip, st, args, kwargs, node):
    if args[0][0] == 'c' and isinstance(args[0][2], str):
        import os.path
        yield st, ('tup',) + tuple(T.C(x) for x in os.path.splitext(args[0][2]))
        return
    yield st, ('tup', T.app('root', args[0]), T.app('ext', args[0]))


@model('os.listdir')
def m_listdir(ip, st, args, kwargs, node):
    d = args[0] if args else T.C('.')
    st.event('fs', 'listdir', d, ip.site(st, node))
    yield from fault(ip, st, 'listdir', ['OSError'], node)
    w = getattr(ip, 'files', None)
    if getattr(w, 'listing', False):
        names = w.names(st, d)
        if names is None:
            yield ip.raises(st, 'FileNotFoundError', node)
        else:
            yield st, ip.new_list(st, [T.C(n) for n in names])
        return
    yield st, st.new('stream', name='listdir', oneshot=False, rem=None, done=False, dir=d)


def fsop(name, nargs, excs=('FileNotFoundError', 'PermissionError')):
    def m(ip, st, args, kwargs, node):
        args = list(args)
        yield from fault(ip, st, name, excs, node)
        st.event('fs', name, *(args[:nargs] + [ip.site(st, node)]))
        w = getattr(ip, 'files', None)
        if name in ('mkdir', 'makedirs') and getattr(w, 'listing', False):
            ok = kwargs.get('exist_ok', args[2] if len(args) > 2 else T.FALSE)
            for s, made in w.make_dir(st, args[0], name == 'makedirs'):
                if made or name == 'makedirs' and made is None and ok == T.TRUE:
                    yield s, T.NONE
                else:
                    yield ip.raises(s, 'FileExistsError' if made is None else
                                    'FileNotFoundError', node)
            return
        if w is not None:
            if not w.op(st, name, args):
                yield ip.raises(st, 'FileNotFoundError', node)
                return
        yield st, T.NONE
    return m


for _n, _k in (('remove', 1), ('unlink', 1), ('replace', 2), ('rename', 2),
               ('mkdir', 1), ('makedirs', 1), ('rmdir', 1), ('removedirs', 1),
               ('truncate', 1), ('chmod', 2), ('link', 2), ('symlink', 2), ('utime', 1)):
    MODELS['os.' + _n] = fsop(_n, _k)
for _n, _k in (('rmtree', 1), ('copy', 2), ('copyfile', 2), ('copy2', 2), ('move', 2)):
    MODELS['shutil.' + _n] = fsop('shutil.' + _n, _k)


@model('os.stat', 'os.lstat')
def m_stat(ip, st, args, kwargs, node):
    yield from fault(ip, st, 'stat', ('FileNotFoundError',), node)
    st.event('fs', 'stat', args[0], ip.site(st, node))
    w = getattr(ip, 'files', None)
    if getattr(w, 'listing', False) and w.get(st, args[0]) is None and \
            not w.is_dir(st, args[0]):
        yield ip.raises(st, 'FileNotFoundError', node)
        return
    yield st, T.app('stat', args[0])


@model('os.path.getmtime', 'os.path.getctime', 'os.path.getsize', 'os.path.getatime')
def m_getmtime(ip, st, args, kwargs, node):
    name = getattr(node.func, 'attr', None) or getattr(node.func, 'id', '?')
    yield from fault(ip, st, 'stat', ('FileNotFoundError',), node)
    yield st, T.app(name, args[0])


@B('open')
def m_open(ip, st, args, kwargs, node):
    path = args[0] if args else kwargs.get('file')
    mode = args[1] if len(args) > 1 else kwargs.get('mode', T.C('r'))
    m = mode[2] if mode[0] == 'c' else '?'
    excs = ['FileNotFoundError', 'PermissionError']
    if 'x' in m:
        excs.append('FileExistsError')
    yield from fault(ip, st, 'open', excs, node)
    st.event('fs', 'open', path, mode, ip.site(st, node))
    w = getattr(ip, 'files', None)
    if w is not None:
        if getattr(w, 'listing', False):
            if w.is_dir(st, path):
                yield ip.raises(st, 'IsADirectoryError', node)
                return
            if not w.parent_exists(st, path):
                yield ip.raises(st, 'FileNotFoundError', node)
                return
        if 'r' in m and w.get(st, path) is None:
            yield ip.raises(st, 'FileNotFoundError', node)
            return
        if 'x' in m and w.get(st, path) is not None:
            yield ip.raises(st, 'FileExistsError', node)
            return
        if 'w' in m or 'x' in m or 'a' in m and w.get(st, path) is None:
            w.put(st, path, T.C('empty'))
    yield st, st.new('ext', type='file', data={'path': path, 'mode': mode,
                                               'name': path})


MODELS['io.open'] = m_open


@model('gzip.open', 'gzip.GzipFile', 'bz2.open', 'bz2.BZ2File')
def m_gzopen(ip, st, args, kwargs, node):
    path = args[0] if args else kwargs.get('filename')
    mode = args[1] if len(args) > 1 else kwargs.get('mode', T.C('rb'))
    yield from fault(ip, st, 'open', ['FileNotFoundError', 'PermissionError'], node)
    st.event('fs', 'open', path, mode, ip.site(st, node))
    yield st, st.new('ext', type='file', data={'path': path, 'mode': mode, 'name': path})


@model('io.BytesIO', 'io.StringIO')
def m_bytesio(ip, st, args, kwargs, node):
    yield st, st.new('ext', type='bytesio', data={})


def tempname(ip, st, d, n):
    w = getattr(ip, 'files', None)
    if getattr(w, 'listing', False):
        if d == T.NONE:
            d = T.C('/tmp')
        p = w.path(d)
        if p is not None:
            t = T.C('%s/tmp%d' % (p, n))
            w.put(st, t, T.C('empty'))
            return t
    return T.S('tmp%d' % n)


@model('tempfile.NamedTemporaryFile')
def m_ntf(ip, st, args, kwargs, node):
    yield from fault(ip, st, 'mktemp', ['OSError'], node)
    d = kwargs.get('dir', T.NONE)
    delete = kwargs.get('delete', T.TRUE)
    tags = [e for e in st.events if e[0] == 'fs' and e[1] == 'mktemp']
    name = tempname(ip, st, d, len(tags))
    r = st.new('ext', type='tempfile', data={'name': name, 'dir': d, 'delete': delete,
                                             'path': name, 'mode': T.C('w+b')})
    st.event('fs', 'mktemp', name, d, delete, ip.site(st, node))
    yield st, r


@model('tempfile.mkstemp')
def m_mkstemp(ip, st, args, kwargs, node):
    yield from fault(ip, st, 'mktemp', ['OSError'], node)
    d = kwargs.get('dir', args[2] if len(args) > 2 else T.NONE)
    tags = [e for e in st.events if e[0] == 'fs' and e[1] == 'mktemp']
    name = tempname(ip, st, d, len(tags))
    st.event('fs', 'mktemp', name, d, T.FALSE, ip.site(st, node))
    yield st, ('tup', T.app('fd', name), name)


@model('os.fdopen')
def m_fdopen(ip, st, args, kwargs, node):
    yield from fault(ip, st, 'open', ['OSError'], node)
    name = args[0][2] if args[0][0] == 'app' and args[0][1] == 'fd' else T.unk('fd')
    yield st, st.new('ext', type='file', data={'path': name, 'name': name,
                                               'mode': args[1] if len(args) > 1 else T.C('r')})


@model('os.close', 'os.fsync', 'os.fdatasync')
def m_osclose(ip, st, args, kwargs, node):
    yield from fault(ip, st, 'close', ['OSError'], node)
    yield st, T.NONE


@method(('file', 'fileno'), ('tempfile', 'fileno'))
def f_fileno(ip, st, recv, args, kwargs, node):
    yield st, T.app('fd', st.heap[recv].data['path'])


@method(('file', 'read'), ('tempfile', 'read'), ('bytesio', 'read'), ('bytesio', 'getvalue'))
def f_read(ip, st, recv, args, kwargs, node):
    yield from fault(ip, st, 'read', ['OSError'], node)
    o = st.heap[recv]
    st.event('fs', 'read', o.data.get('path', recv), ip.site(st, node))
    w = getattr(ip, 'files', None)
    if getattr(w, 'listing', False) and 'path' in o.data:
        t = w.get(st, o.data['path'])
        if t is None:
            st.note('a file that was removed is read')
            t = T.unk('content')
        yield st, t
        return
    t = T.app('content', o.data.get('path', T.S('memory')))
    yield st, t


@method(('file', 'write'), ('tempfile', 'write'))
def f_write(ip, st, recv, args, kwargs, node):
    yield from fault(ip, st, 'write', ['OSError'], node)
    path = st.heap[recv].data.get('path', recv)
    st.event('fs', 'write', path, args[0], ip.site(st, node))
    w = getattr(ip, 'files', None)
    if getattr(w, 'listing', False):
        w.write(st, path, args[0])
    yield st, T.NONE


@method(('bytesio', 'write'))
def b_write(ip, st, recv, args, kwargs, node):
    yield st, T.NONE


@method(('file', 'flush'), ('tempfile', 'flush'), ('file', 'seek'), ('tempfile', 'seek'),
        ('bytesio', 'seek'), ('file', 'tell'), ('bytesio', 'close'))
def f_flush(ip, st, recv, args, kwargs, node):
    yield from fault(ip, st, 'flush', ['OSError'], node)
    if getattr(node.func, 'attr', '') == 'flush':
        settle(ip, st, recv)
    yield st, T.NONE


def settle(ip, st, recv):
    w = getattr(ip, 'files', None)
    if getattr(w, 'listing', False):
        w.settle(st, st.heap[recv].data.get('path', recv))


def closed(ip, st, recv, node):
    """A file is closed; yields states in which that fails, with the exception,
    and the state in which it succeeds, with None."""
    data = st.heap[recv].data
    if data.get('closed'):
        yield st, None
        return
    st.upd(recv, data=dict(data, closed=True))
    yield from fault(ip, st, 'close', ['OSError'], node)
    settle(ip, st, recv)
    if st.heap[recv].type == 'tempfile' and data.get('delete', T.TRUE) != T.FALSE:
        w = getattr(ip, 'files', None)
        if getattr(w, 'listing', False) and w.path(data['path']) is not None:
            w.put(st, data['path'], None)
    st.event('fs', 'close', data.get('path', recv), ip.site(st, node))
    yield st, None


@method(('file', 'close'), ('tempfile', 'close'))
def f_close(ip, st, recv, args, kwargs, node):
    for s, e in closed(ip, st, recv, node):
        yield s, T.NONE if e is None else e


@model('shelve.open', 'shelve.DbfilenameShelf')
def m_shelve(ip, st, args, kwargs, node):
    yield from fault(ip, st, 'shelve', ['dbm.error', 'OSError'], node)
    st.event('fs', 'shelve', args[0], *(list(args[1:]) + [ip.site(st, node)]))
    h = getattr(ip, 'shelf_hook', None)
    if h is not None:
        yield from h(ip, st, args, node)
        return
    base = getattr(ip, 'shelf_base', None)
    yield st, st.new('dict', items=(), base=base, others=False, flavor='shelf')


@model('dbm.open')
def m_dbm(ip, st, args, kwargs, node):
    yield st, T.unk('dbm')


@method(('shelf', 'sync'), ('shelf', 'close'))
def shelf_sync(ip, st, recv, args, kwargs, node):
    yield from fault(ip, st, 'sync', ['OSError'], node)
    name = node.func.attr
    st.event('db' + name, recv, ip.site(st, node))
    yield st, T.NONE


@model('pickle.load', 'pickle.loads')
def m_pload(ip, st, args, kwargs, node):
    yield from fault(ip, st, 'unpickle', ['EOFError', 'pickle.UnpicklingError', 'AttributeError',
                                          'ImportError', 'ValueError', 'OSError'], node)
    src = args[0]
    if src[0] == 'ref' and st.heap[src].kind == 'ext':
        src = st.heap[src].data.get('path', src)
    h = getattr(ip, 'load_hook', None)
    st.event('fs', 'unpickle', src, ip.site(st, node))
    if h is not None:
        r = h(ip, st, src, node)
        if r is not None:
            yield from r
            return
    yield st, T.app('unpickled', src)


@model('pickle.dump')
def m_pdump(ip, st, args, kwargs, node):
    dst = args[1] if len(args) > 1 else kwargs.get('file')
    w = getattr(ip, 'files', None)
    for s, e in fault(ip, st, 'pickle', [
            'pickle.PicklingError', 'OSError', 'MemoryError', 'TypeError', 'AttributeError',
            'RecursionError', 'KeyboardInterrupt'], node):
        if dst and dst[0] == 'ref':
            s.event('fs', 'partial', s.heap[dst].data.get('path', dst), ip.site(s, node))
            if getattr(w, 'listing', False) and 'path' in s.heap[dst].data:
                w.put(s, s.heap[dst].data['path'], T.app('partial'))
        yield s, e
    if dst and dst[0] == 'ref' and st.heap[dst].kind == 'ext':
        dst = st.heap[dst].data.get('path', dst)
    st.event('fs', 'dump', dst, args[0], ip.site(st, node))
    w = getattr(ip, 'files', None)
    if w is not None:
        for s, v in ip.pickled(st, args[0], node):
            if not isinstance(v, Exc):
                if getattr(w, 'listing', False):
                    w.write(s, dst, v)
                else:
                    w.put(s, dst, v)
                v = T.NONE
            yield s, v
        return
    yield st, T.NONE


@model('pickle.dumps')
def m_pdumps(ip, st, args, kwargs, node):
    yield from fault(ip, st, 'pickle', [
        'pickle.PicklingError', 'MemoryError', 'TypeError', 'AttributeError',
        'RecursionError', 'KeyboardInterrupt'], node)
    if getattr(getattr(ip, 'files', None), 'listing', False):
        yield from ip.pickled(st, args[0], node)
        return
    yield st, T.app('pickled', args[0])


@model('lockfile.FileLock', 'lockfile.LockFile', 'lockfile.linklockfile.LinkLockFile')
def m_lock(ip, st, args, kwargs, node):
    yield st, st.new('ext', type='lock', data={'path': args[0]})


@method(('lock', 'acquire'))
def l_acquire(ip, st, recv, args, kwargs, node):
    yield from fault(ip, st, 'lock', ['lockfile.LockTimeout', 'lockfile.LockFailed'], node)
    st.event('enter', 'lock', recv, ip.site(st, node))
    yield st, T.NONE


@method(('lock', 'break_lock'))
def l_break(ip, st, recv, args, kwargs, node):
    st.event('breaklock', recv, ip.site(st, node))
    yield st, T.NONE


@method(('lock', 'is_locked'), ('lock', 'i_am_locking'))
def l_islocked(ip, st, recv, args, kwargs, node):
    for s, b in ip.fork(('bool', T.app('locked', recv, T.C(len(st.events)))), st):
        yield s, T.C(b)


@method(('lock', 'release'))
def l_release(ip, st, recv, args, kwargs, node):
    st.event('exit', 'lock', recv, ip.site(st, node))
    yield st, T.NONE


@method(('lock', '__enter__'))
def l_enter(ip, st, recv, args, kwargs, node):
    yield from l_acquire(ip, st, recv, args, kwargs, node)


@method(('lock', '__exit__'))
def l_exit(ip, st, recv, args, kwargs, node):
    yield from l_release(ip, st, recv, args, kwargs, node)


@model('fnmatch.fnmatch', 'fnmatch.fnmatchcase')
def m_fnmatch(ip, st, args, kwargs, node):
    for a in args:
        if ip.sort(a, st) in ('none', 'int'):
            yield ip.raises(st, 'TypeError', node)
            return
    if T.has_unk(args[0]) or T.has_unk(args[1]):
        yield st, T.unk('fnmatch')
        return
    if all(a[0] == 'c' for a in args):
        import fnmatch
        name = getattr(node.func, 'attr', None) or getattr(node.func, 'id', 'fnmatch')
        try:
            yield st, T.C(bool(getattr(fnmatch, 'fnmatchcase')(args[0][2], args[1][2])))
        except TypeError:
            yield ip.raises(st, 'TypeError', node)
        return
    for s, b in ip.fork(('bool', T.app('fnmatch', *args)), st):
        yield s, T.C(b)


@model('fnmatch.filter')
def m_fnfilter(ip, st, args, kwargs, node):
    pat = args[1]
    def run(ip, s, o, cb, node):
        def each(s2, e):
            for s3, b in ip.fork(('bool', T.app('fnmatch', e, pat)), s2):
                if b:
                    yield from cb(s3, e)
                else:
                    yield s3, 'next', None
        yield from ip.iterate(s, o.parts[0], each, node)
    l = lazy(st, run, args[0])
    yield from make_list(ip, st, l, node)


# --- functional ---------------------------------------------------------------------

@model('functools.partial')
def m_partial(ip, st, args, kwargs, node):
    yield st, ('partial', args[0], tuple(args[1:]), tuple(sorted(kwargs.items())))


@model('functools.wraps')
def m_wraps(ip, st, args, kwargs, node):
    yield st, ('wraps',)


@model('contextlib.suppress')
def m_suppress(ip, st, args, kwargs, node):
    names = []
    for a in args:
        if a[0] == 'ext':
            names.append(a[1][9:] if a[1].startswith('builtins.') else a[1])
        elif a[0] == 'cls':
            names.append(a[1])
        else:
            names.append('?')
    yield st, st.new('ext', type='suppress', data={'names': tuple(names)})


@model('contextlib.closing')
def m_closing(ip, st, args, kwargs, node):
    v = args[0]
    if v[0] == 'ref' and st.heap[v].kind == 'inst':
        yield st, st.new('ext', type='closing', data={'of': v})
        return
    yield st, v


@model('contextlib.nullcontext')
def m_nullcontext(ip, st, args, kwargs, node):
    v = args[0] if args else kwargs.get('enter_result', T.NONE)
    yield st, st.new('ext', type='nullcontext', data={'of': v})


@model('contextlib.ExitStack')
def m_exitstack(ip, st, args, kwargs, node):
    yield st, st.new('ext', type='exitstack', data={'exits': ()})


def push(st, ref, x):
    o = st.heap[ref]
    st.heap[ref] = o.with_(data=dict(o.data, exits=o.data['exits'] + (x,)))


@method(('exitstack', 'enter_context'))
def m_enter_context(ip, st, recv, args, kwargs, node):
    for s, target, exits in ip.enter(st, args[0], node):
        if not isinstance(target, Exc):
            ip.exit_functions += (exits,)
            push(s, recv, ('cm', len(ip.exit_functions) - 1))
        yield s, target


@method(('exitstack', 'callback'))
def m_es_callback(ip, st, recv, args, kwargs, node):
    push(st, recv, ('cb', args[0], tuple(args[1:]), tuple(sorted(kwargs.items()))))
    yield st, args[0]


@method(('exitstack', 'pop_all'))
def m_es_pop_all(ip, st, recv, args, kwargs, node):
    o = st.heap[recv]
    r = st.new('ext', type='exitstack', data=dict(o.data))
    st.heap[recv] = o.with_(data=dict(o.data, exits=()))
    yield st, r


@method(('exitstack', 'close'))
def m_es_close(ip, st, recv, args, kwargs, node):
    from .interp import NEXT, RAISE
    for s, k, v in ip.unwind(st, recv, NEXT, None, node):
        yield s, v if k == RAISE else T.NONE


@model('copy.copy', 'copy.deepcopy')
def m_copy(ip, st, args, kwargs, node):
    v = args[0]
    if v[0] != 'ref':
        yield st, v
        return
    o = st.heap[v]
    r = ('ref', None)
    st.counter
    n = st.new(o.kind, **o.d)
    st.heap[n] = o
    yield st, n


@model('re.compile')
def m_recompile(ip, st, args, kwargs, node):
    if all(a[0] == 'c' or a[0] in ('ext', 'rat', 'app') for a in args):
        yield st, T.app('regex', *args)
    else:
        yield st, T.app('regex', *args)


# --- signals ---------------------------------------------------------------------------

@model('blinker.signal', 'blinker.Signal', 'blinker.base.Signal')
def m_signal(ip, st, args, kwargs, node):
    name = args[0] if args else T.S('anonymous@%d' % getattr(node, 'lineno', 0))
    yield st, T.app('signal', name)


@method(('any', 'connect'))
def s_connect(ip, st, recv, args, kwargs, node):
    if recv[0] != 'app' or recv[1] != 'signal':
        st.note('connect')
        yield st, T.unk('connect')
        return
    from . import disk
    sender = kwargs.get('sender', args[1] if len(args) > 1 else T.NONE)
    if sender in (T.NONE, ('ext', 'blinker.ANY')):
        sender = None
    st.event('connect', recv, args[0], sender, ip.site(st, node))
    if disk.DISK in st.heap:
        weak = kwargs.get('weak', args[2] if len(args) > 2 else T.TRUE)
        if weak not in (T.TRUE, T.FALSE):
            st.note('weak=%s' % T.show(weak))
        disk.connect(st, recv, args[0], sender, weak != T.FALSE)
    yield st, args[0]


@method(('any', 'connect_via'))
def s_connect_via(ip, st, recv, args, kwargs, node):
    st.note('connect_via')
    yield st, T.unk('connect_via')


@method(('any', 'disconnect'))
def s_disconnect(ip, st, recv, args, kwargs, node):
    from . import disk
    sender = kwargs.get('sender', args[1] if len(args) > 1 else T.NONE)
    if sender in (T.NONE, ('ext', 'blinker.ANY')):
        sender = None
    if disk.DISK in st.heap:
        disk.disconnect(st, recv, args[0], sender)
    yield st, T.NONE


@method(('any', 'send'))
def s_send(ip, st, recv, args, kwargs, node):
    if recv[0] != 'app' or recv[1] != 'signal':
        st.note('send')
        yield st, T.unk('send')
        return
    from . import disk
    st.event('send', recv, args[0] if args else T.NONE, tuple(sorted(kwargs.items())),
             ip.site(st, node))
    def go(s, rs, got):
        if not rs:
            yield s, ip.new_list(s, got)
            return
        for s2, v in ip.call(s, rs[0], list(args[:1]), dict(kwargs), node):
            if isinstance(v, Exc):
                yield s2, v
            else:
                yield from go(s2, rs[1:], got + [('tup', rs[0], v)])
    yield from go(st, disk.connected(st, recv, args[0] if args else None), [])


@model('blinker.Namespace')
def m_namespace(ip, st, args, kwargs, node):
    yield st, T.app('namespace', T.C(getattr(node, 'lineno', 0)))


# --- methods: dict ------------------------------------------------------------------------

@method(('dict', 'get'), ('shelf', 'get'))
def d_get(ip, st, recv, args, kwargs, node):
    default = args[1] if len(args) > 1 else T.NONE
    yield from ip.shelf_fault(st, recv, True, node)
    for s, v in ip.dict_get(st, recv, args[0]):
        yield s, default if v is None else v


@method(('dict', '__contains__'), ('shelf', '__contains__'))
def d_contains(ip, st, recv, args, kwargs, node):
    yield from ip.shelf_fault(st, recv, False, node)
    for s, v in ip.dict_get(st, recv, args[0]):
        yield s, T.C(v is not None)


@method(('dict', '__getitem__'), ('shelf', '__getitem__'), ('list', '__getitem__'))
def d_getitem(ip, st, recv, args, kwargs, node):
    yield from ip.getitem(st, recv, args[0], node)


@method(('dict', '__setitem__'), ('shelf', '__setitem__'))
def d_setitem(ip, st, recv, args, kwargs, node):
    for s, x in ip.setitem(st, recv, args[0], args[1], node):
        yield s, (x if isinstance(x, Exc) else T.NONE)


@method(('dict', '__delitem__'), ('shelf', '__delitem__'))
def d_delitem(ip, st, recv, args, kwargs, node):
    for s, x in ip.delitem(st, recv, args[0], node):
        yield s, (x if isinstance(x, Exc) else T.NONE)


def view(kind):
    def m(ip, st, recv, args, kwargs, node):
        yield st, ('view', kind, recv)
    return m


for _f in ('dict', 'shelf'):
    for _k in ('keys', 'values', 'items'):
        METHODS[(_f, _k)] = view(_k)


@method(('dict', 'pop'), ('shelf', 'pop'))
def d_pop(ip, st, recv, args, kwargs, node):
    shelf = st.heap[recv].d.get('flavor') == 'shelf'
    for s, v in ip.dict_get(st, recv, args[0]):
        if v is None:
            if len(args) > 1:
                yield s, args[1]
            else:
                yield ip.raises(s, 'KeyError', node, args[0])
            continue
        if shelf:
            s.event('dbdel', recv, args[0], ip.site(s, node))
        for s2, _found in ip.dict_del(s, recv, args[0]):
            yield s2, v


@method(('dict', 'popitem'))
def d_popitem(ip, st, recv, args, kwargs, node):
    o = st.heap[recv]
    xs = None
    if o.d.get('flavor') in (None, 'dict', 'shelf') and o.base is None and not o.others:
        xs = tuple(kv for kv in o.items if kv[1] is not None)
    if xs is None or len(args) + len(kwargs) and \
            list(args + list(kwargs.values())) not in ([T.TRUE], [T.FALSE]):
        st.note('popitem')
        yield st, T.unk('popitem')
        return
    first = list(args) + list(kwargs.values()) == [T.FALSE]
    if not xs:
        yield ip.raises(st, 'KeyError', node)
        return
    k, v = xs[0] if first else xs[-1]
    st.heap[recv] = o.with_(items=xs[1:] if first else xs[:-1])
    yield st, ('tup', k, v)


@method(('dict', 'setdefault'), ('shelf', 'setdefault'))
def d_setdefault(ip, st, recv, args, kwargs, node):
    default = args[1] if len(args) > 1 else T.NONE
    for s, v in ip.dict_get(st, recv, args[0]):
        if v is not None:
            yield s, v
            continue
        for s2, x in ip.setitem(s, recv, args[0], default, node):
            yield s2, (x if isinstance(x, Exc) else default)


def dict_update(ip, st, recv, src, node):
    """Yields (state, None | Exc)."""
    if src[0] == 'view' and src[1] == 'items':
        src = src[2]
    if src[0] == 'ref' and st.heap[src].kind == 'dict':
        o = st.heap[src]
        if not o.base and not o.others:
            kvs = [(k, v) for k, v in o.items if v is not None]
            for s, _ in ip.set_items(st, recv, kvs, node):
                yield s, None
            return
        d = st.heap[recv]
        if not d.base and not d.items and not d.others:
            st.heap[recv] = d.with_(items=o.items, base=o.base, others=o.others)
            yield st, None
            return
        st.note('update from a dictionary')
        st.heap[recv] = d.with_(items=tuple((k, T.unk('updated')) for k, _v in d.items), others=True)
        yield st, None
        return
    def cb(s, e):
        if e[0] == 'tup' and len(e) == 3:
            for s2, x in ip.setitem(s, recv, e[1], e[2], node):
                if isinstance(x, Exc):
                    yield s2, 'raise', x
                else:
                    yield s2, 'next', None
        else:
            s.note('update')
            yield s, 'next', None
    for s, k, v in ip.iterate(st, src, cb, node):
        yield s, (v if k == 'raise' else None)


@method(('dict', 'update'), ('shelf', 'update'))
def d_update(ip, st, recv, args, kwargs, node):
    outs = dict_update(ip, st, recv, args[0], node) if args else [(st, None)]
    for s, x in outs:
        if isinstance(x, Exc):
            yield s, x
            continue
        for s2, _ in ip.set_items(s, recv, [(T.C(k), v) for k, v in kwargs.items()], node):
            yield s2, T.NONE


@method(('dict', 'clear'), ('set', 'clear'), ('shelf', 'clear'))
def d_clear(ip, st, recv, args, kwargs, node):
    ip.mutated(st, recv)
    if st.heap[recv].d.get('flavor') == 'shelf':
        st.event('dbclear', recv, ip.site(st, node))
    o = st.heap[recv].with_(items=(), base=None, others=False)
    o.d.pop('ovals', None)
    st.heap[recv] = o
    yield st, T.NONE


@method(('dict', 'copy'), ('set', 'copy'), ('list', 'copy'))
def d_copy(ip, st, recv, args, kwargs, node):
    r = st.new(st.heap[recv].kind, **st.heap[recv].d)
    st.heap[r] = st.heap[recv]
    yield st, r


# --- methods: set ---------------------------------------------------------------------------

@method(('set', 'add'))
def s_add(ip, st, recv, args, kwargs, node):
    for s in ip.set_add(st, recv, args[0]):
        yield s, T.NONE


@method(('set', 'discard'))
def s_discard(ip, st, recv, args, kwargs, node):
    for s in ip.set_put(st, recv, args[0], False):
        yield s, T.NONE


@method(('set', 'remove'))
def s_remove(ip, st, recv, args, kwargs, node):
    for s, r in ip.set_contains(st, recv, args[0]):
        if not r:
            yield ip.raises(s, 'KeyError', node, args[0])
            continue
        for s2 in ip.set_put(s, recv, args[0], False):
            yield s2, T.NONE


@method(('set', 'update'))
def s_update(ip, st, recv, args, kwargs, node):
    def go(s, rest):
        if not rest:
            yield s, T.NONE
            return
        for s2, k, v in ip.iterate(s, rest[0], lambda s3, e: ip.cb_add(s3, recv, e), node):
            if k == 'raise':
                yield s2, v
            else:
                yield from go(s2, rest[1:])
    yield from go(st, list(args))


def setop(name):
    def m(ip, st, recv, args, kwargs, node):
        if len(args) != 1:
            yield st, T.unk('set operation')
            return
        yield from ip.set_algebra(st, recv, args[0], name, node)
    return m


for _n in ('union', 'intersection', 'difference'):
    METHODS[('set', _n)] = setop(_n)


@method(('set', 'isdisjoint'))
def s_isdisjoint(ip, st, recv, args, kwargs, node):
    def cb(s, e):
        for s2, r in ip.set_contains(s, recv, e):
            yield s2, ('found' if r else 'next'), None
    for s, k, v in ip.iterate(st, args[0], cb, node):
        if k == 'raise':
            yield s, v
        else:
            yield s, T.C(k != 'found')


@method(('set', '__contains__'))
def s_contains(ip, st, recv, args, kwargs, node):
    for s, r in ip.set_contains(st, recv, args[0]):
        yield s, T.C(r)


# --- methods: list --------------------------------------------------------------------------

@method(('list', 'append'))
def l_append(ip, st, recv, args, kwargs, node):
    ip.list_append(st, recv, args[0])
    yield st, T.NONE


@method(('list', 'appendleft'))
def l_appendleft(ip, st, recv, args, kwargs, node):
    ip.list_append(st, recv, args[0], front=True)
    yield st, T.NONE


@method(('list', 'extend'))
def l_extend(ip, st, recv, args, kwargs, node):
    xs = ip.exact_items(st, args[0])
    if xs is not None:
        for x in xs:
            ip.list_append(st, recv, x)
        yield st, T.NONE
        return
    for s, k, v in ip.iterate(st, args[0], lambda s, e: ip.cb_append(s, recv, e), node):
        yield s, (v if k == 'raise' else T.NONE)


@method(('list', 'insert'))
def l_insert(ip, st, recv, args, kwargs, node):
    o = st.heap[recv]
    i, x = args
    if o.exact and i[0] == 'c' and isinstance(i[2], int):
        xs = list(o.items)
        xs.insert(i[2], x)
        ip.mutated(st, recv)
        st.heap[recv] = o.with_(items=tuple(xs), order=None)
        yield st, T.NONE
        return
    order = o.order
    ip.list_append(st, recv, x)
    if order is not None and i == T.C(0):
        st.heap[recv] = st.heap[recv].with_(order=('front', x, order))
    yield st, T.NONE


@method(('list', 'sort'))
def l_sort(ip, st, recv, args, kwargs, node):
    key = kwargs.get('key')
    if key == T.NONE:
        key = None
    for s, r in sort_ref(ip, st, recv, key, kwargs.get('reverse', T.FALSE), node):
        yield s, r if isinstance(r, Exc) else T.NONE


@method(('list', 'reverse'))
def l_reverse(ip, st, recv, args, kwargs, node):
    reverse_list(st, recv)
    yield st, T.NONE


@method(('list', 'clear'))
def l_clear(ip, st, recv, args, kwargs, node):
    ip.mutated(st, recv)
    st.heap[recv] = st.heap[recv].with_(items=(), exact=True, wit=(), others=frozenset(), order=None)
    yield st, T.NONE


@method(('list', 'pop'), ('list', 'popleft'))
def l_pop(ip, st, recv, args, kwargs, node):
    left = getattr(node.func, 'attr', '') == 'popleft'
    o = st.heap[recv]
    i = args[0] if args else T.C(0 if left else -1)
    if o.exact and i[0] == 'c':
        xs = list(o.items)
        if not -len(xs) <= i[2] < len(xs):
            yield ip.raises(st, 'IndexError', node)
            return
        x = xs.pop(i[2])
        ip.mutated(st, recv)
        st.heap[recv] = o.with_(items=tuple(xs))
        yield st, x
        return
    h = getattr(ip, 'listpop_hook', None)
    if h is not None:
        r = h(ip, st, recv, i, node)
        if r is not None:
            yield from r
            return
    for s, r in ip.nonempty(recv, st):
        if not r:
            yield ip.raises(s, 'IndexError', node)
            continue
        o = s.heap[recv]
        for t, c in o.wit:
            if c:
                for c2 in ((0,) if c == 1 else (1, 2)):
                    s2 = s.copy()
                    ip.mutated(s2, recv)
                    s2.heap[recv] = o.with_(wit=tuple((u, c2 if u == t else d) for u, d in o.wit
                                                      if not (u == t and not c2)))
                    yield s2, t
        for t in sorted(o.others, key=repr):
            s2 = s.copy()
            ip.mutated(s2, recv)
            yield s2, t


@method(('list', 'remove'))
def l_remove(ip, st, recv, args, kwargs, node):
    for s, r in ip.contains(args[0], recv, st, node):
        if isinstance(r, Exc):
            yield s, r
        elif not r:
            yield ip.raises(s, 'ValueError', node)
        else:
            ip.list_remove_one(s, recv, args[0])
            yield s, T.NONE


@method(('list', 'index'))
def l_index(ip, st, recv, args, kwargs, node):
    for s, r in ip.contains(args[0], recv, st, node):
        if isinstance(r, Exc):
            yield s, r
        elif not r:
            yield ip.raises(s, 'ValueError', node)
        else:
            o = s.heap[recv]
            if o.exact:
                for i, x in enumerate(o.items):
                    if ip.eq(x, args[0], s):
                        yield s, T.C(i)
                        break
                else:
                    yield s, T.unk('index')
            else:
                yield s, T.app('index', recv, args[0])


@method(('list', 'count'))
def l_count(ip, st, recv, args, kwargs, node):
    o = st.heap[recv]
    if o.exact and all(ip.eq(x, args[0], st) is not None for x in o.items):
        yield st, T.C(sum(1 for x in o.items if ip.eq(x, args[0], st)))
        return
    for t, c in o.wit:
        if t == args[0] and c < 2:
            yield st, T.C(c)
            return
    yield st, T.app('count', args[0])


# --- methods: strings --------------------------------------------------------------------------

def encode(v, *args):
    if v[0] == 'c' and isinstance(v[2], str):
        try:
            return T.C(v[2].encode(*[a[2] for a in args]))
        except (UnicodeError, IndexError, TypeError):
            return T.app('encode', v, *args)
    # bytes decoded with a one-to-one codec and encoded again
    if v[0] == 'app' and v[1] == 'decode' and codec(v[3:]) == codec(args) and \
            codec(args) in ('latin-1', 'surrogateescape'):
        return v[2]
    return T.app('encode', v, *args)


def codec(args):
    args = [a for a in args if a[0] == 'c']
    if not args:
        return 'utf-8'
    c = str(args[0][2]).lower().replace('_', '-')
    if c in ('latin-1', 'iso-8859-1', 'latin1', 'l1', 'iso8859-1', '8859', 'cp819'):
        c = 'latin-1'
    if c in ('utf8', 'utf-8', 'u8'):
        c = 'utf-8'
    if len(args) > 1 and args[1][2] == 'surrogateescape':
        return 'surrogateescape'
    return c


@method(('str', 'encode'), ('any', 'encode'), (None, 'encode'))
def str_encode(ip, st, recv, args, kwargs, node):
    args = list(args) + [kwargs[k] for k in ('encoding', 'errors') if k in kwargs]
    if ip.sort(recv, st) == 'bytes':
        yield ip.raises(st, 'AttributeError', node)
        return
    if ip.sort(recv, st) == 'header':
        from .text import header_text
        yield st, header_text(recv, True) or T.app('Header.encode', recv)
        return
    yield st, encode(recv, *args)


@method(('bytes', 'decode'), ('any', 'decode'))
def str_decode(ip, st, recv, args, kwargs, node):
    args = list(args) + [kwargs[k] for k in ('encoding', 'errors') if k in kwargs]
    if ip.sort(recv, st) == 'str':
        yield ip.raises(st, 'AttributeError', node)
        return
    if recv[0] == 'c' and isinstance(recv[2], bytes):
        try:
            yield st, T.C(recv[2].decode(*[a[2] for a in args]))
        except (UnicodeError, LookupError, TypeError):
            yield ip.raises(st, 'UnicodeDecodeError', node)
        return
    if recv[0] == 'app' and recv[1] == 'encode' and codec(recv[3:]) == codec(args) and \
            codec(args) in ('utf-8', 'surrogateescape', 'latin-1'):
        yield st, recv[2]
        return
    yield st, T.app('decode', recv, *args)


def prefix_of(t, st):
    return T.const_prefix(t)


@method(('any', 'startswith'))
def str_startswith(ip, st, recv, args, kwargs, node):
    p = args[0]
    if p[0] == 'tup':
        def go(s, rest):
            if not rest:
                yield s, T.FALSE
                return
            for s2, b in str_startswith(ip, s, recv, [rest[0]], {}, node):
                if b == T.TRUE:
                    yield s2, b
                elif isinstance(b, Exc):
                    yield s2, b
                else:
                    yield from go(s2, rest[1:])
        yield from go(st, p[1:])
        return
    sr, sp = ip.sort(recv, st), ip.sort(p, st)
    if {sr, sp} == {'str', 'bytes'}:
        yield ip.raises(st, 'TypeError', node)
        return
    if p[0] == 'c':
        k = T.const_prefix(recv)
        if k is not None and type(k) is type(p[2]):
            if k.startswith(p[2]) or p[2] == type(k)():
                yield st, T.TRUE
                return
            n = min(len(k), len(p[2]))
            if recv[0] == 'c' or k[:n] != p[2][:n]:
                yield st, T.FALSE
                return
        if p[2] in ('', b''):
            yield st, T.TRUE
            return
        for k, v in st.facts.items():
            r = None
            if k[0] == 'bool' and k[1][0] == 'app' and k[1][1] == 'startswith' and \
                    k[1][2] == recv and k[1][3][0] == 'c' and \
                    type(k[1][3][2]) is type(p[2]):
                q = k[1][3][2]
                if v and not (q.startswith(p[2]) or p[2].startswith(q)) or \
                        not v and p[2].startswith(q):
                    r = False
                elif v and q.startswith(p[2]):
                    r = True
            elif k[0] == 'eq' and v and recv in k[1:]:
                o = k[2] if k[1] == recv else k[1]
                if o[0] == 'c' and type(o[2]) is type(p[2]):
                    r = o[2].startswith(p[2])
            if r is not None:
                yield st, T.C(r)
                return
    for s, b in ip.fork(('bool', T.app('startswith', recv, p)), st):
        yield s, T.C(b)


@method(('any', 'endswith'))
def str_endswith(ip, st, recv, args, kwargs, node):
    p = args[0]
    if recv[0] == 'c' and p[0] == 'c':
        yield st, T.C(recv[2].endswith(p[2]))
        return
    for s, b in ip.fork(('bool', T.app('endswith', recv, p)), st):
        yield s, T.C(b)


def pure(name):
    def m(ip, st, recv, args, kwargs, node):
        if any(T.is_unk(a) for a in args):
            yield st, T.unk('string operation')
            return
        if recv[0] == 'c' and all(a[0] == 'c' for a in args) and not kwargs and \
                isinstance(recv[2], (str, bytes)):
            try:
                v = getattr(recv[2], name)(*[a[2] for a in args])
            except (TypeError, ValueError) as e:
                yield ip.raises(st, type(e).__name__, node)
                return
            if isinstance(v, tuple):
                yield st, ('tup',) + tuple(T.C(x) for x in v)
            elif isinstance(v, list):
                yield st, ip.new_list(st, [T.C(x) for x in v])
            else:
                yield st, T.C(v)
            return
        yield st, T.app(name, recv, *args)
    return m


for _n in ('lower', 'upper', 'strip', 'lstrip', 'rstrip', 'replace', 'title',
           'capitalize', 'translate', 'zfill', 'casefold', 'expandtabs', 'ljust', 'rjust',
           'removeprefix', 'removesuffix', 'swapcase', 'center'):
    METHODS[('any', _n)] = pure(_n)
for _n in ('find', 'rfind', 'count'):
    METHODS[('any', _n)] = pure(_n)


def pred(name):
    def m(ip, st, recv, args, kwargs, node):
        if recv[0] == 'c':
            yield st, T.C(getattr(recv[2], name)())
            return
        for s, b in ip.fork(('bool', T.app(name, recv)), st):
            yield s, T.C(b)
    return m


for _n in ('isdigit', 'isspace', 'isalpha', 'isupper', 'islower', 'isalnum', 'isdecimal'):
    METHODS[('any', _n)] = pred(_n)


@method(('any', 'format'))
def str_format(ip, st, recv, args, kwargs, node):
    yield st, ip.str_format(recv, args, kwargs, st)


@method(('any', 'join'))
def str_join(ip, st, recv, args, kwargs, node):
    xs = ip.exact_items(st, args[0])
    if xs is None and args[0][0] == 'ref' and st.heap[args[0]].kind in ('gen', 'lazy', 'chain', 'list'):
        for s, r in make_list(ip, st, args[0], node):
            if isinstance(r, Exc):
                yield s, r
                continue
            ys = ip.exact_items(s, r)
            if ys is None:
                h = getattr(ip, 'join_hook', None)
                t = h(ip, s, recv, r, node) if h is not None else None
                if t is None:
                    o = s.heap.get(r)
                    ts = sorted([t for t, _c in o.wit] + list(o.others), key=repr) \
                        if o is not None and o.kind == 'list' else []
                    t = T.app('join', recv, *ts)
                yield s, t
            else:
                yield s, join_exact(ip, s, recv, ys)
        return
    if xs is None:
        yield st, T.app('join', recv, args[0])
        return
    yield st, join_exact(ip, st, recv, xs)


def join_exact(ip, st, sep, xs):
    parts = []
    for i, x in enumerate(xs):
        if T.is_unk(x):
            return T.unk('join')
        if i:
            parts.append(sep)
        parts.append(x)
    if not parts:
        return T.C(b'' if ip.sort(sep, st) == 'bytes' else '')
    return ip.unwrap(ip.cat(*parts), st)


def split_cat(ip, st, recv, sep, maxsplit=None):
    """Splits a string term whose variable parts cannot contain `sep`."""
    fields = [[]]
    n = 0
    for p in recv[1:]:
        if p[0] == 'c':
            pieces = p[2].split(sep)
            if maxsplit is not None and n + len(pieces) - 1 > maxsplit:
                pieces = p[2].split(sep, maxsplit - n)
            if pieces[0]:
                fields[-1].append(T.C(pieces[0]))
            for x in pieces[1:]:
                n += 1
                fields.append([T.C(x)] if x else [])
        else:
            t = p[2] if p[0] == 'fmt' else p
            if ip.sort(t, st) in ('int', 'float') and not any(
                    ch in '0123456789-+.einfa' for ch in (sep if isinstance(sep, str) else sep.decode('latin-1'))):
                fields[-1].append(p)
            elif maxsplit is not None and n >= maxsplit:
                fields[-1].append(p)
            else:
                return None
    return [T.cat(f) for f in fields]


@method(('any', 'split'))
def str_split(ip, st, recv, args, kwargs, node):
    sep = args[0] if args else kwargs.get('sep', T.NONE)
    mx = args[1] if len(args) > 1 else kwargs.get('maxsplit')
    if T.is_unk(sep):
        yield st, sep
        return
    if {ip.sort(recv, st), ip.sort(sep, st)} == {'str', 'bytes'}:
        yield ip.raises(st, 'TypeError', node)
        return
    if recv[0] == 'c':
        a = [x[2] for x in (sep, mx) if x is not None and x[0] == 'c']
        if len(a) == len([x for x in (sep, mx) if x is not None]):
            try:
                yield st, ip.new_list(st, [T.C(x) for x in recv[2].split(*a)])
            except ValueError:
                yield ip.raises(st, 'ValueError', node)
            return
    if recv[0] == 'cat' and sep[0] == 'c' and sep[2] and (mx is None or mx[0] == 'c'):
        m = mx[2] if mx is not None and mx[2] >= 0 else None
        r = split_cat(ip, st, recv, sep[2], m)
        if r is not None:
            yield st, ip.new_list(st, r)
            return
    if recv[0] == 'cat' and sep == T.NONE and mx is None:
        # white space: the fields must be numbers
        r = split_cat(ip, st, recv, ' ')
        if r is not None and not any(p[0] == 'c' and any(ch.isspace() and ch != ' ' for ch in p[2])
                                     for p in recv[1:] if p[0] == 'c' and isinstance(p[2], str)):
            yield st, ip.new_list(st, [x for x in r if x != T.C('')])
            return
    h = getattr(ip, 'split_hook', None)
    if h is not None:
        r = h(ip, st, recv, sep, mx, node)
        if r is not None:
            yield from r
            return
    yield st, T.app('split', recv, *args)


@method(('any', 'partition'))
def str_partition(ip, st, recv, args, kwargs, node):
    if recv[0] == 'cat' and args[0][0] == 'c':
        r = split_cat(ip, st, recv, args[0][2], 1)
        if r is not None and len(r) == 2:
            yield st, ('tup', r[0], args[0], r[1])
            return
    if recv[0] == 'c' and args[0][0] == 'c':
        yield st, ('tup',) + tuple(T.C(x) for x in recv[2].partition(args[0][2]))
        return
    if args[0][0] == 'c' and args[0][2] and not T.is_unk(recv):
        # Constant text at the beginning, without the separator, stays there.
        head, rest = [], recv
        ps = list(recv[1:]) if recv[0] == 'cat' else [recv]
        if len(ps) > 1 and ps[0][0] == 'c' and len(args[0][2]) == 1:
            head, rest = ps[:1], T.cat(ps[1:])
        empty = T.C(type(args[0][2])())
        for s, b in ip.fork(('bool', T.app('contains', rest, args[0])), st):
            if b:
                yield s, ('tup', T.cat(head + [T.app('before', rest, *args)]) if head else
                          T.app('before', rest, *args), args[0], T.app('after', rest, *args))
            else:
                yield s, ('tup', recv, empty, empty)
        return
    yield st, ('tup', T.app('before', recv, *args), T.app('sep', recv, *args),
               T.app('after', recv, *args))


@method(('any', 'rsplit'))
def str_rsplit(ip, st, recv, args, kwargs, node):
    yield from pure('rsplit')(ip, st, recv, args, kwargs, node)


@method(('any', 'splitlines'))
def str_splitlines(ip, st, recv, args, kwargs, node):
    if recv[0] == 'c':
        a = list(args) + [kwargs[k] for k in ('keepends',) if k in kwargs]
        yield from pure('splitlines')(ip, st, recv, a, {}, node)
        return
    yield st, T.app('splitlines', recv, *args)


@method(('any', 'rpartition'))
def str_rpartition(ip, st, recv, args, kwargs, node):
    yield st, ('tup', T.app('rbefore', recv, *args), T.app('rsep', recv, *args),
               T.app('rafter', recv, *args))


@model('enum.Enum')
def m_enum(ip, st, args, kwargs, node):
    names = None
    if len(args) == 2 and not set(kwargs) - {'module', 'qualname'} and args[0][0] == 'c':
        if args[1][0] == 'c' and isinstance(args[1][2], str):
            ns = args[1][2].replace(',', ' ').split()
            names = [(n, T.C(i + 1)) for i, n in enumerate(ns)]
        else:
            xs = ip.exact_items(st, args[1])
            if args[1][0] == 'ref' and st.heap[args[1]].kind == 'dict' and xs is not None:
                xs = ip.exact_items(st, ('view', 'items', args[1]))
            if xs is not None and all(x[0] == 'c' and isinstance(x[2], str) for x in xs):
                names = [(x[2], T.C(i + 1)) for i, x in enumerate(xs)]
            elif xs is not None:
                pairs = [ip.exact_items(st, x) if x[0] in ('tup', 'ref') else None for x in xs]
                if all(q is not None and len(q) == 2 and q[0][0] == 'c' for q in pairs):
                    names = [(q[0][2], q[1]) for q in pairs]
    if names is None:
        yield st, T.unk('an enumeration')
        return
    yield st, ('enumcls', args[0][2]) + tuple(names)


@model('enum.auto')
def m_auto(ip, st, args, kwargs, node):
    yield st, T.app('enum.auto')


@method(('tuple', '_replace'))
def m_nt_replace(ip, st, recv, args, kwargs, node):
    out = list(recv)
    for k, v in kwargs.items():
        _known, i = ip.records.index(recv, k) if recv[0] == 'tup' else (False, None)
        if i is None:
            st.note('_replace')
            yield st, T.unk('_replace')
            return
        out[i + 1] = v
    yield st, tuple(out)


@method(('tuple', '_asdict'))
def m_nt_asdict(ip, st, recv, args, kwargs, node):
    fs = {tuple(x[0] for x in f) for _c, f in ip.records.all_tuples()
          if len(f) == len(recv) - 1} if recv[0] == 'tup' else ()
    if len(fs) != 1:
        st.note('_asdict')
        yield st, T.unk('_asdict')
        return
    yield st, st.new('dict', items=tuple((T.C(n), v) for n, v in zip(fs.pop(), recv[1:])),
                     base=None, others=False, flavor='dict')
