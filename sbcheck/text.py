"""Models of regular expressions, text buffers and the rendering of messages.

Regular expressions are applied to constants only; with a symbol for the text
the result is a term or an unknown value.
"""
import re
from email.header import Header

from . import terms as T
from .mail import M
from .models import model, method, fault
from .state import Exc

FLAGS = {f: getattr(re, f) for f in (
    'IGNORECASE', 'I', 'VERBOSE', 'X', 'DOTALL', 'S', 'MULTILINE', 'M', 'ASCII', 'A', 'UNICODE',
    'U')}


def flags_of(t):
    if t[0] == 'c' and isinstance(t[2], int):
        return t[2]
    if t[0] == 'ext' and t[1].startswith('re.') and t[1][3:] in FLAGS:
        return FLAGS[t[1][3:]]
    if t[0] == 'app' and t[1] in ('BitOr', 'Add', 'bitor', 'add') and len(t) == 4:
        a, b = flags_of(t[2]), flags_of(t[3])
        return None if a is None or b is None else a | b
    return None


def compiled(t):
    """The regular expression of a term, or None."""
    if t[0] == 'app' and t[1] == 'regex' and t[2][0] == 'c':
        f = 0
        if len(t) > 3:
            f = flags_of(t[3])
            if f is None:
                return None
        return re.compile(t[2][2], f)
    if t[0] == 'c' and isinstance(t[2], (str, bytes)):
        return re.compile(t[2])
    return None


def matched(st, m):
    if m is None:
        return T.NONE
    def c(x):
        return T.C(x)
    return st.new('ext', type='match', data={
        '~groups': tuple(c(x) for x in m.groups()), '~group': c(m.group()),
        '~start': c(m.start()), '~end': c(m.end()),
        '~names': tuple(sorted((k, c(v)) for k, v in m.groupdict().items())),
        '~spans': tuple((c(a), c(b)) for a, b in m.regs)})


def apply(ip, st, rx, name, args, kwargs, node):
    """A method of a regular expression."""
    r = compiled(rx)
    rest = list(args)
    names = {'sub': ('repl', 'string', 'count'), 'subn': ('repl', 'string', 'count'),
             'split': ('string', 'maxsplit')}.get(name, ('string', 'pos', 'endpos'))
    for n in names[len(rest):]:
        if n in kwargs:
            rest.append(kwargs[n])
    text = rest[1] if name in ('sub', 'subn') else rest[0]
    if r is None or any(a[0] != 'c' for a in rest[1 if name in ('sub', 'subn') else 0:]):
        if T.is_unk(text) or r is None:
            yield st, T.unk('a regular expression')
        elif name == 'sub':
            yield st, T.app('resub', rx, *rest)
        elif name in ('match', 'search', 'fullmatch'):
            yield from symbolic_match(ip, st, rx, r, name, rest)
        else:
            yield st, T.unk('%s with a regular expression' % name)
        return
    vals = [a[2] for a in rest[1 if name in ('sub', 'subn') else 0:]]
    if type(vals[0]) is not type(r.pattern):
        yield ip.raises(st, 'TypeError', node)
        return
    if name in ('sub', 'subn'):
        repl = rest[0]
        if repl[0] == 'c':
            try:
                out = getattr(r, name)(repl[2], *vals)
            except (TypeError, IndexError, re.error) as e:
                yield ip.raises(st, type(e).__name__, node)
                return
            yield st, T.C(out) if name == 'sub' else ('tup', T.C(out[0]), T.C(out[1]))
            return
        yield from sub_call(ip, st, r, repl, vals[0], vals[1] if len(vals) > 1 else 0, name, node)
    elif name == 'split':
        yield st, ip.new_list(st, [T.C(x) for x in r.split(*vals)])
    elif name == 'findall':
        yield st, ip.new_list(st, [
            ('tup',) + tuple(T.C(y) for y in x) if isinstance(x, tuple) else T.C(x)
            for x in r.findall(*vals)])
    elif name == 'finditer':
        yield st, ip.new_list(st, [matched(st, m) for m in r.finditer(*vals)])
    else:
        yield st, matched(st, getattr(r, name)(*vals))


def sub_call(ip, st, r, repl, text, count, name, node):
    ms = list(r.finditer(text))
    if count:
        ms = ms[:count]

    def go(s, i, pos, parts):
        if i == len(ms):
            t = ip_join(parts + [T.C(text[pos:])])
            yield s, t if name == 'sub' else ('tup', t, T.C(len(ms)))
            return
        for s2, v in ip.call(s, repl, [matched(s, ms[i])], {}, node):
            if isinstance(v, Exc):
                yield s2, v
            else:
                yield from go(s2, i + 1, ms[i].end(), parts + [T.C(text[pos:ms[i].start()]), v])

    def ip_join(parts):
        if isinstance(text, bytes):
            return T.C(b''.join(x[2] for x in parts)) if all(x[0] == 'c' for x in parts) \
                else T.unk('bytes put together')
        return T.cat(parts)
    yield from go(st, 0, 0, [])


METHODS = ('sub', 'subn', 'split', 'findall', 'finditer', 'match', 'search', 'fullmatch')


def function(name):
    n = 3 if name in ('sub', 'subn') else 2
    def f(ip, st, args, kwargs, node):
        kw = dict(kwargs)
        flags = kw.pop('flags', None)
        args = list(args)
        most = n + (1 if name in ('sub', 'subn', 'split') else 0)
        if len(args) > most:
            flags = args.pop()
        pattern = args.pop(0) if args else kw.pop('pattern')
        rx = pattern
        if pattern[0] == 'c':
            rx = T.app('regex', *((pattern, flags) if flags is not None else (pattern,)))
        yield from apply(ip, st, rx, name, args, kw, node)
    return f


for _n in METHODS:
    model('re.' + _n)(function(_n))


def rx_method(name):
    """The method of a regular expression, which may be that of a string too."""
    def f(ip, st, recv, args, kwargs, node):
        if recv[0] == 'app' and recv[1] == 'regex':
            yield from apply(ip, st, recv, name, args, kwargs, node)
        elif other is not None:
            yield from other(ip, st, recv, args, kwargs, node)
        else:
            st.event('method', name, recv, tuple(args), ip.site(st, node))
            ip.havoc(st, args)
            yield st, T.app('method', name, recv, *args)
    from .models import METHODS as ALL
    other = ALL.get(('any', name))
    return f


for _n in METHODS:
    method(('any', _n))(rx_method(_n))


@model('re.escape')
def re_escape(ip, st, args, kwargs, node):
    yield st, T.C(re.escape(args[0][2])) if args[0][0] == 'c' else T.app('reescape', args[0])


@method(('match', 'group'), ('match', '__getitem__'))
def match_group(ip, st, recv, args, kwargs, node):
    d = st.heap[recv].data
    out = []
    for a in args or [T.C(0)]:
        v = None
        if a[0] == 'c':
            if a[2] == 0:
                v = d['~group']
            elif isinstance(a[2], int) and 1 <= a[2] <= len(d['~groups']):
                v = d['~groups'][a[2] - 1]
            else:
                v = dict(d['~names']).get(a[2])
        if v is None:
            yield ip.raises(st, 'IndexError', node)
            return
        out.append(v)
    yield st, out[0] if len(out) == 1 else ('tup',) + tuple(out)


@method(('match', 'groups'))
def match_groups(ip, st, recv, args, kwargs, node):
    yield st, ('tup',) + tuple(args[0] if args and g == T.NONE else g
                               for g in st.heap[recv].data['~groups'])


def match_span(what):
    def f(ip, st, recv, args, kwargs, node):
        spans = st.heap[recv].data['~spans']
        i = args[0][2] if args else 0
        a, b = spans[i]
        yield st, a if what == 'start' else b if what == 'end' else ('tup', a, b)
    return f


for _n in ('start', 'end', 'span'):
    method(('match', _n))(match_span(_n))


# --- buffers -----------------------------------------------------------------------

@model('io.StringIO')
def m_stringio(ip, st, args, kwargs, node):
    v = args[0] if args else kwargs.get('initial_value', T.C(''))
    yield st, st.new('ext', type='stringio', data={'text': v if v != T.NONE else T.C(''),
                                                   'at': T.C(0)})


def appended(ip, st, ref, v):
    o = st.heap[ref]
    d = dict(o.data)
    if d['at'] != T.C(0) or ip.sort(v, st) not in ('str', None):
        st.note('a buffer')
    d['text'] = T.cat([d['text'], v])
    st.heap[ref] = o.with_(data=d)


@method(('stringio', 'write'))
def s_write(ip, st, recv, args, kwargs, node):
    appended(ip, st, recv, args[0])
    yield st, T.app('len', args[0])


@method(('stringio', 'getvalue'))
def s_getvalue(ip, st, recv, args, kwargs, node):
    yield st, st.heap[recv].data['text']


@method(('stringio', 'read'))
def s_read(ip, st, recv, args, kwargs, node):
    if st.heap[recv].data['at'] != T.C('start') or args:
        st.note('reading from a buffer')
    yield st, st.heap[recv].data['text']


@method(('stringio', 'seek'))
def s_seek(ip, st, recv, args, kwargs, node):
    o = st.heap[recv]
    if args[0] != T.C(0):
        st.note('a position in a buffer')
    st.heap[recv] = o.with_(data={**o.data, 'at': T.C('start')})
    yield st, args[0]


@method(('stringio', 'close'), ('stringio', 'flush'), ('stringio', '__exit__'))
def s_close(ip, st, recv, args, kwargs, node):
    yield st, T.NONE


@method(('stringio', '__enter__'))
def s_enter(ip, st, recv, args, kwargs, node):
    yield st, recv


# --- rendering -----------------------------------------------------------------------

def rendering(ip, st, m):
    """The text that the email package makes of the message."""
    h = getattr(ip, 'rendering', None)
    if h is not None:
        return h(ip, st, m)
    a = st.heap[m].attrs if m[0] == 'ref' and st.heap[m].kind == 'inst' else {}
    return T.app('rendered', T.app('rendering', a.get('~was', a.get('~raw', T.NONE)),
                                   a.get('~headers', T.NONE)), T.C('str'))


@model('email.generator.Generator')
def m_generator(ip, st, args, kwargs, node):
    yield st, st.new('ext', type='generator', data={'fp': args[0] if args else kwargs['outfp']})


@method(('generator', 'flatten'))
def g_flatten(ip, st, recv, args, kwargs, node):
    yield from fault(ip, st, 'flatten', ['TypeError'], node)
    m = args[0] if args else kwargs['msg']
    fp = st.heap[recv].data['fp']
    if fp[0] != 'ref' or st.heap[fp].kind != 'ext' or st.heap[fp].type != 'stringio':
        st.note('rendering into something else than a buffer')
        yield st, T.NONE
        return
    appended(ip, st, fp, rendering(ip, st, m))
    yield st, T.NONE


@model(M + 'as_string')
def e_as_string(ip, st, args, kwargs, node):
    yield from fault(ip, st, 'flatten', ['TypeError'], node)
    yield st, rendering(ip, st, args[0])


def traceback_text(ip):
    return getattr(ip, 'traceback', T.S('traceback@str'))


@model('traceback.format_exc')
def t_format(ip, st, args, kwargs, node):
    yield st, traceback_text(ip)


@model('traceback.print_exc')
def t_print(ip, st, args, kwargs, node):
    fp = kwargs.get('file', args[1] if len(args) > 1 else T.NONE)
    if fp[0] == 'ref' and st.heap[fp].kind == 'ext' and st.heap[fp].type == 'stringio':
        appended(ip, st, fp, traceback_text(ip))
    yield st, T.NONE


def header_text(t, encoded=False):
    """str() or encode() of a Header made of a constant, or None."""
    if t[0] == 'app' and t[1] == 'Header' and all(x[0] == 'c' for x in t[2:]):
        try:
            h = Header(*[x[2] for x in t[2:]])
            return T.C(h.encode() if encoded else str(h))
        except Exception:
            return None
    return None


# --- matches with symbols --------------------------------------------------------------

def optional_groups(r):
    """The numbers of the groups that need not take part in a match."""
    import re._parser as sre
    out = set()

    def walk(p, maybe):
        for op, av in p:
            name = str(op)
            if name == 'SUBPATTERN':
                if av[0] is not None and maybe:
                    out.add(av[0])
                walk(av[3], maybe)
            elif name in ('MAX_REPEAT', 'MIN_REPEAT', 'POSSESSIVE_REPEAT'):
                walk(av[2], maybe or av[0] == 0)
            elif name == 'BRANCH':
                for x in av[1]:
                    walk(x, True)
            elif name in ('ASSERT', 'ASSERT_NOT'):
                walk(av[1], maybe or name == 'ASSERT_NOT')
            elif name == 'ATOMIC_GROUP':
                walk(av, maybe)
            elif name == 'GROUPREF_EXISTS':
                for x in av[1:]:
                    if x is not None:
                        walk(x, True)
    walk(sre.parse(r.pattern, r.flags & ~re.UNICODE if isinstance(r.pattern, bytes)
                   else r.flags), False)
    return out


def symbolic_group(ip, st, m, i, node, default=T.NONE):
    """Yields (state, a group of a match of which the text is a symbol)."""
    r = compiled(m[2])
    if r is None or i[0] != 'c':
        st.note('a group of a match that is not known')
        yield st, T.unk('group')
        return
    n = r.groupindex.get(i[2]) if isinstance(i[2], str) else i[2]
    if not isinstance(n, int) or not 0 <= n <= r.groups:
        yield ip.raises(st, 'IndexError', node)
        return
    t = T.app('matched', T.C('bytes' if isinstance(r.pattern, bytes) else 'str'), T.C(n), m)
    if n in optional_groups(r):
        for s, b in ip.fork(('bool', T.app('took part', T.C(n), m)), st):
            yield s, t if b else default
    else:
        yield st, t


def symbolic_groups(ip, st, m, numbers, node, default=T.NONE):
    if not numbers:
        yield st, ()
        return
    for s, v in symbolic_group(ip, st, m, numbers[0], node, default):
        if isinstance(v, Exc):
            yield s, v
            continue
        for s2, rest in symbolic_groups(ip, s, m, numbers[1:], node, default):
            yield (s2, rest) if isinstance(rest, Exc) else (s2, (v,) + rest)


def on_match(name, f):
    from .models import METHODS as ALL
    other = ALL.get(('any', name))
    @method(('any', name))
    def g(ip, st, recv, args, kwargs, node):
        if recv[0] == 'app' and recv[1] == 'match':
            yield from f(ip, st, recv, args, kwargs, node)
        elif other is not None:
            yield from other(ip, st, recv, args, kwargs, node)
        else:
            st.event('method', name, recv, tuple(args), ip.site(st, node))
            if ip.faults:
                yield ip.raises(st.copy(), '*', node)
            ip.havoc(st, args)
            yield st, T.app('method', name, recv, *args)


def any_group(ip, st, m, args, kwargs, node):
    for s, xs in symbolic_groups(ip, st, m, list(args) or [T.C(0)], node):
        yield s, xs if isinstance(xs, Exc) else xs[0] if len(xs) == 1 else ('tup',) + xs


def any_groups(ip, st, m, args, kwargs, node):
    r = compiled(m[2])
    if r is None:
        st.note('groups of a match that is not known')
        yield st, T.unk('groups')
        return
    default = args[0] if args else kwargs.get('default', T.NONE)
    for s, xs in symbolic_groups(ip, st, m, [T.C(n + 1) for n in range(r.groups)], node, default):
        yield s, xs if isinstance(xs, Exc) else ('tup',) + xs


on_match('group', any_group)
on_match('__getitem__', any_group)
on_match('groups', any_groups)


def position(rest):
    """The arguments of a search, with the position at which it begins."""
    return list(rest) + [T.C(0)] if len(rest) == 1 else list(rest)


def asked(rx, name, rest):
    """The fact that says whether there is a match."""
    return ('bool', T.app('re' + name, rx, *position(rest)))


def match_term(rx, rest):
    return T.app('match', rx, *position(rest))


def bounds(ip, st, m):
    """(start, end) of a match with symbols."""
    r = compiled(m[2])
    if r is not None and r.pattern in ('', b''):
        return m[4], m[4]
    return T.app('start', m), T.app('end', m)


def symbolic_match(ip, st, rx, r, name, rest):
    most = getattr(ip, 'most_matches', None)
    m = match_term(rx, rest)
    if r.pattern in ('', b'') and name != 'fullmatch':
        yield st, m
        return
    n = sum(e[0] == 'matched' for e in st.events)
    for s, b in ip.fork(asked(rx, name, rest), st):
        if not b:
            yield s, T.NONE
            continue
        if most is not None and n >= most:
            # No more than that are looked at.
            continue
        s = s.copy()
        s.event('matched', m)
        if len(m) == 5:
            low, high = r.pattern and widths(r)
            a, z = bounds(ip, s, m)
            s = ip.assume_le(m[4], a, True, s)
            if s is not None and name != 'search':
                s = ip.assume_le(a, m[4], True, s)
            if s is not None:
                s = ip.assume_le(T.radd(a, T.C(low)), z, True, s)
            if s is not None:
                s = ip.assume_le(z, T.app('len', m[3]), True, s)
            if s is None:
                continue
        yield s, m


def widths(r):
    import re._parser as sre
    return sre.parse(r.pattern, r.flags & ~re.UNICODE if isinstance(r.pattern, bytes)
                     else r.flags).getwidth()


def span(what):
    def f(ip, st, m, args, kwargs, node):
        a, z = bounds(ip, st, m)
        if args and args[0] != T.C(0):
            st.note('the place of a group')
            a, z = T.unk('start'), T.unk('end')
        yield st, a if what == 'start' else z if what == 'end' else ('tup', a, z)
    return f


for _n in ('start', 'end', 'span'):
    on_match(_n, span(_n))
