"""What flow.py knows of built-in types and of the standard library.

Signatures are given by tables: which kinds of arguments an operation takes, and
which kind of value it gives. Whether a name or an attribute exists is read from
the installed standard library.
"""
import ast
import collections
import builtins
import importlib
import textwrap
import inspect
import re
import types

from .flow import (ANY, NONE, STR, BYTES, INT, FLOAT, BOOL, BOTTOM, VANY, VNONE, VSTR, VBYTES,
                   VINT, VFLOAT, VBOOL, V, const, kind, join, general)

X_CLASS = {
    'Message': 'email.message.Message', 'Header': 'email.header.Header',
    'Match': 're.Match', 'Pattern': 're.Pattern', 'IPv4Address': 'ipaddress.IPv4Address',
    'IPv6Address': 'ipaddress.IPv6Address', 'IPv4Network': 'ipaddress.IPv4Network',
    'IPv6Network': 'ipaddress.IPv6Network', 'slice': 'builtins.slice',
}
VHEADER = V(STR, ('x', 'Header', 'own'))
_loaded = {}


def load(dotted):
    """The object of the standard library, or None if it is not there."""
    if dotted is None or dotted.split('.')[0] in ('sbclassifier', 'spambayes'):
        return None
    if dotted in _loaded:
        return _loaded[dotted]
    parts = dotted.split('.')
    x = None
    for i in range(len(parts), 0, -1):
        try:
            x = importlib.import_module('.'.join(parts[:i]))
        except Exception:
            continue
        for p in parts[i:]:
            if not hasattr(x, p):
                x = None
                break
            x = getattr(x, p)
        break
    _loaded[dotted] = x
    return x


_instance = {}


def instance_attributes(dotted):
    """The attributes that the methods of a class of the standard library assign."""
    if dotted not in _instance:
        out = set()
        x = load(dotted)
        for c in getattr(x, '__mro__', ()):
            slots = c.__dict__.get('__slots__', ())
            out |= {slots} if isinstance(slots, str) else set(slots)
            if c is object or c.__module__ == 'builtins':
                continue
            try:
                tree = ast.parse(textwrap.dedent(inspect.getsource(c)))
            except (OSError, TypeError, SyntaxError, ValueError):
                continue
            out |= {n.attr for n in ast.walk(tree)
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store)}
        _instance[dotted] = out
    return _instance[dotted]


def root_there(dotted):
    return load(dotted.split('.')[0]) is not None


# -- names ------------------------------------------------------------------------
def as_value(dotted, x):
    if isinstance(x, (bool, int, str, bytes, float)) and not isinstance(x, type):
        for t in (bool, int, float, str, bytes):
            if isinstance(x, t):
                return V(const(t(x)))
    if x is None:
        return VNONE
    return V(('ext', dotted))


def ext_value(fl, fr, node, dotted):
    if not root_there(dotted):
        return VANY
    x = load(dotted)
    if x is None and not dotted.startswith('builtins.None'):
        fl.event('name', fr, node, 'there is no ' + dotted)
        return BOTTOM
    return as_value(dotted, x)


def ext_attr(fl, fr, node, dotted, name):
    if not root_there(dotted):
        return VANY
    x = load(dotted)
    full = dotted + '.' + name
    if x is None:
        return VANY
    if not hasattr(x, name):
        if load(full) is not None:
            return V(('ext', full))
        return None
    if full in ('os.environ', 'sys.argv', 'sys.path'):
        impure(fl, fr, node, full)
        return VANY
    return as_value(full, getattr(x, name))


def python_class(fl, a):
    k = kind(a)
    c = {'str': str, 'bytes': bytes, 'int': int, 'float': float, 'bool': bool,
         'none': type(None), 'tup': tuple, 'fn': types.FunctionType, 'bm': types.MethodType,
         'bext': types.BuiltinMethodType}.get(k)
    if c is not None:
        return c
    if k == 'obj':
        return {'list': list, 'dict': dict, 'set': set, 'tuple': tuple,
                'iter': types.GeneratorType}.get(fl.obj(a).kind)
    if k == 'x':
        return load(X_CLASS.get(a[1].split(':')[0]))
    return None


MESSAGE_DATA = ('_headers', '_payload', '_charset', 'policy', 'preamble', 'epilogue', 'defects',
                '_default_type', '_unixfrom', '_cte')


FLAVORS = {dict: (collections.OrderedDict, collections.Counter, collections.defaultdict,
                  collections.ChainMap),
           list: (collections.deque,), bytes: (bytearray, memoryview)}


def method_value(fl, fr, node, a, name):
    k = kind(a)
    if k == 'x' and a[1] == 'Message' and name in MESSAGE_DATA:
        if name in ('_headers', '_payload', 'defects'):
            return V(message_list(fl)) | (VSTR if name == '_payload' else BOTTOM)
        return VANY
    if k == 'x' and a[1].startswith('enum:'):
        return VANY
    if k == 'obj' and fl.obj(a).kind == 'view':
        return V(('bext', name, a))
    c = python_class(fl, a)
    if k == 'tup' and len(a) > 2:
        c = load(a[2])
        if name in c._fields:
            return a[1][c._fields.index(name)]
        if isinstance(getattr(c, name, None), property):
            return {'port': VINT | VNONE}.get(name, a[1][0] | VNONE)
    if c is None:
        if k == 'x':
            return V(('bext', name, a))
        return VANY
    if not hasattr(c, name):
        if any(hasattr(x, name) for x in FLAVORS.get(c, ())):
            return VANY
        return None
    v = getattr(c, name)
    if callable(v):
        return V(('bext', name, a))
    if k == 'x' and a[1].startswith('Match') and name == 'string':
        return V((a[1].split(':')[1],))
    return VANY


def message_list(fl):
    from .flow import Obj
    site = ('msglist',)
    if site not in fl.heap:
        o = fl.heap[site] = Obj('list', 'msg', 'the message')
        o.elem = VANY
    return ('obj', site)


# -- patterns -----------------------------------------------------------------------
_patterns = {}


def pattern_index(p, flags):
    k = (p, flags)
    if k not in _patterns:
        _patterns[k] = len(_patterns)
    return _patterns[k]


def pattern_of(i):
    for k, v in _patterns.items():
        if v == i:
            return k
    return None


_groups = {}


def groups_of(i):
    """For each group, from 1, whether it may be missing from a match; and names."""
    if i in _groups:
        return _groups[i]
    r = None
    p = pattern_of(i)
    if p is not None:
        try:
            c = re.compile(p[0], p[1])
            optional = [False] * (c.groups + 1)
            import re._parser as sre

            def walk(tree, opt):
                for op, av in tree:
                    n = str(op)
                    if n == 'SUBPATTERN':
                        if av[0] is not None and opt:
                            optional[av[0]] = True
                        walk(av[3], opt)
                    elif n in ('MAX_REPEAT', 'MIN_REPEAT', 'POSSESSIVE_REPEAT'):
                        walk(av[2], opt or av[0] == 0)
                    elif n == 'BRANCH':
                        for b in av[1]:
                            walk(b, True)
                    elif n in ('ASSERT',):
                        walk(av[1], opt)
                    elif n in ('ASSERT_NOT', 'GROUPREF_EXISTS'):
                        for y in (av if isinstance(av, tuple) else ()):
                            if hasattr(y, 'data'):
                                walk(y, True)
                    elif n == 'ATOMIC_GROUP':
                        walk(av, opt)
            walk(sre.parse(p[0], c.flags & ~re.UNICODE if isinstance(p[0], bytes)
                           else c.flags), False)
            r = (optional[1:], dict(c.groupindex))
        except Exception:
            r = None
    _groups[i] = r
    return r


def make_pattern(fl, fr, node, pv, fv):
    out = BOTTOM
    for a in pv:
        k = kind(a)
        if k in ('str', 'bytes'):
            i = '?'
            if a[0] == 'c':
                flags = 0
                ok = True
                for b in fv or ():
                    if b[0] == 'c' and isinstance(b[2], int):
                        flags = b[2]
                    else:
                        ok = False
                if fv and len(fv) > 1:
                    ok = False
                if ok:
                    i = pattern_index(a[2], int(flags))
            out |= V(('x', 'Pattern:%s:%s' % (k, i), 'glob'))
        elif k == 'x' and a[1].startswith('Pattern'):
            out |= V(a)
        elif k == 'any':
            out |= VANY
        else:
            fl.event('type', fr, node, 'compiles %s as a pattern' % fl.show(a), len(pv) == 1)
    return out


def group_value(fl, m, i):
    _t, k, idx = m[1].split(':', 2)
    base = V((k,))
    if i == 0:
        return base
    g = groups_of(int(idx)) if idx != '?' else None
    if g is None:
        return base
    if isinstance(i, str):
        i = g[1].get(i)
        if i is None:
            return None
    if not 0 <= i <= len(g[0]):
        return None
    return base | (VNONE if g[0][i - 1] else BOTTOM)


def pattern_method(fl, fr, node, name, recv, args, kwargs):
    _t, k, idx = recv[1].split(':', 2)
    match = V(('x', 'Match:%s:%s' % (k, idx), 'own'))
    base = V((k,))
    g = groups_of(int(idx)) if idx != '?' else None
    params = {'sub': ['repl', 'string', 'count'], 'subn': ['repl', 'string', 'count'],
              'split': ['string', 'maxsplit']}.get(name, ['string', 'pos', 'endpos'])
    vals = dict(zip(params, args))
    vals.update(kwargs)
    subject = vals.get('string')
    if name in ('search', 'match', 'fullmatch', 'findall', 'finditer', 'sub', 'subn', 'split'):
        if subject is None:
            return VANY
        good = False
        for a in subject:
            ka = kind(a)
            if ka == k or ka == 'any' or (ka == 'obj' and fl.obj(a).kind in ('other', 'inst')):
                good = True
            else:
                fl.event('type', fr, node, 'matches %s with a pattern of %s' % (
                    fl.show(a), k), len(subject) == 1)
        if not good and subject:
            return BOTTOM
        if not subject:
            return BOTTOM
    for p in ('pos', 'endpos', 'count', 'maxsplit'):
        check_arg(fl, fr, node, name, vals.get(p), 'int')
    if name in ('search', 'match', 'fullmatch'):
        return match | VNONE
    if name == 'finditer':
        return V(fl.new(fr, node, 'iter', match, tag=name))
    if name == 'findall':
        n = len(g[0]) if g else None
        if n is None:
            e = VANY if idx == '?' else base
        elif n <= 1:
            e = base
        else:
            e = V(('tup', (base,) * n))
        return V(fl.new(fr, node, 'list', e, tag=name))
    if name == 'split':
        e = base | (VNONE if g is None or any(g[0]) else BOTTOM)
        if g is None:
            e = base
        return V(fl.new(fr, node, 'list', e, tag=name))
    if name in ('sub', 'subn'):
        repl = vals.get('repl') or BOTTOM
        for a in repl:
            ka = kind(a)
            if ka in ('fn', 'bm', 'ext', 'bext', 'cls') or (
                    ka == 'obj' and fl.obj(a).kind == 'inst'):
                r = fl.call(fr, node, V(a), [match], {})
                for b in r:
                    if kind(b) not in (k, 'any', 'none'):
                        fl.event('type', fr, node, 'replaces %s by %s' % (k, fl.show(b)),
                                 len(r) == 1)
            elif ka not in (k, 'any'):
                fl.event('type', fr, node, 'replaces %s by %s' % (k, fl.show(a)),
                         len(repl) == 1)
        return base if name == 'sub' else V(('tup', (base, VINT)))
    return VANY


def match_method(fl, fr, node, name, recv, args, kwargs):
    _t, k, idx = recv[1].split(':', 2)
    base = V((k,))
    g = groups_of(int(idx)) if idx != '?' else None
    if name == 'group' or name == '__getitem__':
        if not args:
            return base
        outs = []
        for v in args:
            o = BOTTOM
            for a in v:
                if a[0] == 'c' and isinstance(a[2], (int, str)):
                    r = group_value(fl, recv, a[2])
                    if r is None:
                        fl.event('type', fr, node, 'there is no group %r' % (a[2],))
                        continue
                    o = join(o, r)
                else:
                    o = join(o, base)
            outs.append(o)
        return outs[0] if len(outs) == 1 else V(('tup', tuple(outs)))
    if name == 'groups':
        default = args[0] if args else kwargs.get('default', VNONE)
        if g is None:
            return V(fl.new(fr, node, 'tuple', base, tag=name))
        return V(('tup', tuple(base | (default if o else BOTTOM) for o in g[0])))
    if name == 'groupdict':
        default = args[0] if args else VNONE
        e = base | (default if g is None or any(g[0]) else BOTTOM)
        return V(fl.new(fr, node, 'dict', e, key=VSTR, tag=name))
    if name in ('start', 'end'):
        return VINT
    if name == 'span':
        return V(('tup', (VINT, VINT)))
    if name == 'expand':
        return base
    return VANY


# -- operators ------------------------------------------------------------------
NUM = ('int', 'float', 'bool')
KNOWN = ('str', 'bytes', 'int', 'float', 'bool', 'none', 'tup', 'fn', 'bm', 'cls', 'mod')
OPNAME = {'Add': 'add', 'Sub': 'sub', 'Mult': 'mul', 'Div': 'truediv', 'FloorDiv': 'floordiv',
          'Mod': 'mod', 'Pow': 'pow', 'LShift': 'lshift', 'RShift': 'rshift', 'BitOr': 'or',
          'BitAnd': 'and', 'BitXor': 'xor', 'MatMult': 'matmul'}


def okind(fl, a):
    k = kind(a)
    if k == 'obj':
        return fl.obj(a).kind
    return k


def binop(fl, fr, e, op, va, vb):
    out = BOTTOM
    sure = True
    bad = []
    for a in va:
        for b in vb:
            r = binop1(fl, fr, e, type(op).__name__, a, b, len(va) * len(vb) == 1)
            if r is None:
                bad.append((a, b))
            else:
                out = join(out, r)
    for a, b in bad:
        what = {'Add': 'adds %s and %s', 'Mod': 'formats or divides %s with %s'}.get(
            type(op).__name__, '%s of %%s and %%s' % type(op).__name__)
        fl.event('type', fr, e, what % (fl.show(a), fl.show(b)),
                 len(bad) == len(va) * len(vb))
    return out


def binop1(fl, fr, e, op, a, b, sure):
    ka, kb = okind(fl, a), okind(fl, b)
    if op == 'Mod' and ka in ('str', 'bytes'):
        return percent(fl, fr, e, a, b)
    if ka == 'any' or kb == 'any':
        if op == 'Add' and ka in ('str', 'bytes'):
            return V((ka,))
        if op == 'Add' and kb in ('str', 'bytes') and ka == 'any':
            return V((kb,))
        return VANY
    if ka in NUM and kb in NUM:
        if a[0] == 'c' and b[0] == 'c' and ka == kb == 'int' and op in (
                'BitOr', 'BitAnd', 'Add', 'Sub', 'Mult'):
            x, y = a[2], b[2]
            return V(const({'BitOr': x | y, 'BitAnd': x & y, 'Add': x + y, 'Sub': x - y,
                            'Mult': x * y}[op]))
        if op == 'Div':
            return VFLOAT
        if 'float' in (ka, kb):
            return VFLOAT
        if op == 'Pow':
            return V(INT, FLOAT) if not (b[0] == 'c' and b[2] >= 0) else VINT
        return VINT
    if op == 'Add':
        if ka == kb and ka in ('str', 'bytes'):
            if a[0] == 'c' and b[0] == 'c' and len(a[2]) + len(b[2]) < 60:
                return V(const(a[2] + b[2]))
            return V((ka,))
        if ka == 'tup' and kb == 'tup':
            if len(a[1]) + len(b[1]) <= 12:
                return V(('tup', a[1] + b[1]))
            return V(fl.new(fr, e, 'tuple', join(*a[1], *b[1])))
        if {ka, kb} <= {'tup', 'tuple'}:
            return V(fl.new(fr, e, 'tuple', join(fl.iterate(fr, e, V(a)),
                                                 fl.iterate(fr, e, V(b)))))
        if ka == kb == 'list':
            n = fl.new(fr, e, 'list', join(fl.obj(a).elem, fl.obj(b).elem))
            if fl.is_unordered(V(a, b)):
                fl.unorder(fl.obj(n))
            return V(n)
    if op == 'Mult':
        for x, kx, ky in ((a, ka, kb), (b, kb, ka)):
            if kx in ('str', 'bytes') and ky in ('int', 'bool'):
                return V((kx,))
            if kx == 'list' and ky in ('int', 'bool'):
                return V(fl.new(fr, e, 'list', fl.obj(x).elem))
            if kx in ('tup', 'tuple') and ky in ('int', 'bool'):
                return V(fl.new(fr, e, 'tuple', fl.iterate(fr, e, V(x))))
    if ka == 'set' and kb in ('set', 'view') and op in ('BitOr', 'BitAnd', 'Sub', 'BitXor'):
        el = fl.obj(a).elem if op in ('Sub', 'BitAnd') else join(fl.obj(a).elem,
                                                                 fl.obj(b).elem)
        return V(fl.new(fr, e, 'set', el))
    if ka == 'view' and kb in ('set', 'view', 'list'):
        return V(fl.new(fr, e, 'set', join(fl.obj(a).elem, fl.obj(b).elem)))
    if ka == kb == 'dict' and op == 'BitOr':
        return V(fl.new(fr, e, 'dict', join(fl.obj(a).elem, fl.obj(b).elem),
                        key=join(fl.obj(a).key, fl.obj(b).key)))
    name = OPNAME.get(op)
    for x, other, pre in ((a, b, '__'), (b, a, '__r')):
        if okind(fl, x) == 'inst':
            r = fl.method_of_inst(fr, e, x, '%s%s__' % (pre, name), [V(other)])
            if r is not None:
                return r
            if fl.ext_bases(fl.obj(x).cls):
                return VANY
        elif kind(x) == 'x':
            c = python_class(fl, x)
            if c is None or hasattr(c, '%s%s__' % (pre, name)):
                return VANY
        elif okind(fl, x) in ('other', 'ctx', 'ext', 'bext', 'super', 'staticmethod',
                              'classmethod', 'property', 'extm', 'ctxm'):
            return VANY
    return None


DIRECTIVE = re.compile(r'%(?:\((?P<key>.*?)\))?[-+ #0]*(?P<w>\*|\d+)?(?:\.(?P<p>\*|\d+))?[hlL]?'
                       r'(?P<c>.)', re.DOTALL)


def percent(fl, fr, e, a, b):
    k = kind(a)
    res = V((k,))
    kb = okind(fl, b)
    if a[0] != 'c':
        other = 'bytes' if k == 'str' else 'str'
        vals = [x for v in b[1] for x in v] if b[0] == 'tup' else [b]
        return res
    text = a[2].decode('latin-1') if k == 'bytes' else a[2]
    ds = [m for m in DIRECTIVE.finditer(text) if m.group('c') != '%']
    if any(m.group('key') for m in ds):
        return res
    need = len(ds) + sum((m.group('w') == '*') + (m.group('p') == '*') for m in ds)
    if kb == 'any' or kb == 'tuple' or kb == 'dict':
        return res
    vals = list(b[1]) if b[0] == 'tup' else [V(b)]
    if len(vals) != need:
        fl.event('type', fr, e, 'formats %d values with %d directives' % (len(vals), need))
        return res
    if need != len(ds):
        return res
    for m, v in zip(ds, vals):
        c = m.group('c')
        for x in v:
            kx = okind(fl, x)
            if kx == 'any':
                continue
            bad = None
            if c in 'diuoxXeEfFgG':
                if kx not in NUM and kx not in ('inst', 'x', 'other'):
                    bad = 'formats %s as a number' % fl.show(x)
            elif c == 'c':
                if kx not in ('int', 'bool', k, 'x', 'other'):
                    bad = 'formats %s as a character' % fl.show(x)
            elif c in 'sb':
                if k == 'str' and kx == 'bytes':
                    bad = 'formats bytes as text'
                elif k == 'bytes' and kx in ('str', 'int', 'float', 'none', 'tup', 'list'):
                    bad = 'formats %s as bytes' % fl.show(x)
            if bad:
                fl.event('type', fr, e, bad, len(v) == 1)
    return res


def formatted(fl, fr, e, v, spec):
    """A value put into text by format() or an f-string."""
    for x in v:
        k = okind(fl, x)
        if k == 'bytes':
            fl.event('type', fr, e, 'formats bytes as text', len(v) == 1)
        elif spec and spec[-1:] in 'dxXobeEfFgGn%' and k in ('str', 'none', 'tup', 'list'):
            fl.event('type', fr, e, 'formats %s as a number' % fl.show(x), len(v) == 1)
        elif spec and k in ('none', 'list', 'tup', 'dict'):
            fl.event('type', fr, e, 'formats %s with %r' % (fl.show(x), spec), len(v) == 1)


def compare(fl, fr, e, op, va, vb):
    name = type(op).__name__
    combos = [(a, b) for a in va for b in vb]
    bad = []
    for a, b in combos:
        ka, kb = okind(fl, a), okind(fl, b)
        if 'any' in (ka, kb):
            continue
        if name in ('Eq', 'NotEq'):
            if {ka, kb} == {'str', 'bytes'}:
                bad.append((a, b, 'compares text with bytes'))
            elif ka == 'inst':
                fl.method_of_inst(fr, e, a, '__eq__', [V(b)])
        elif name in ('In', 'NotIn'):
            if kb == 'str' and ka not in ('str', 'x', 'other'):
                bad.append((a, b, 'looks for %s in text' % fl.show(a)))
            elif kb == 'bytes' and ka not in ('bytes', 'int', 'bool', 'x', 'other'):
                bad.append((a, b, 'looks for %s in bytes' % fl.show(a)))
            elif kb in ('int', 'float', 'bool', 'none', 'fn', 'bm', 'mod'):
                bad.append((a, b, 'looks into %s' % fl.show(b)))
            elif kb in ('list', 'set', 'dict', 'tuple', 'tup', 'view') and ka in ('str',
                                                                                  'bytes'):
                if kb == 'tup':
                    el = join(*b[1]) if b[1] else BOTTOM
                else:
                    el = fl.obj(b).key if kb == 'dict' else fl.obj(b).elem
                ks = {kind(x) for x in el}
                if ks and ks == {'bytes' if ka == 'str' else 'str'}:
                    bad.append((a, b, 'looks for %s among %s' % (ka, ks.pop())))
            elif kb == 'inst':
                if fl.method_of_inst(fr, e, b, '__contains__', [V(a)]) is None:
                    if fl.class_attr(fl.obj(b).cls, '__iter__') is None \
                            and fl.class_attr(fl.obj(b).cls, '__getitem__') is None \
                            and not fl.ext_bases(fl.obj(b).cls):
                        bad.append((a, b, 'looks into %s' % fl.show(b)))
        elif name in ('Lt', 'LtE', 'Gt', 'GtE'):
            ga, gb = (('num' if k in NUM else {'tup': 'tuple'}.get(k, k)) for k in (ka, kb))
            known = ('num', 'str', 'bytes', 'tuple', 'list', 'none', 'dict')
            if ga in known and gb in known and (ga != gb or ga in ('none', 'dict')):
                bad.append((a, b, 'orders %s and %s' % (fl.show(a), fl.show(b))))
            elif ka == 'inst':
                meth = {'Lt': '__lt__', 'LtE': '__le__', 'Gt': '__gt__', 'GtE': '__ge__'}[name]
                fl.method_of_inst(fr, e, a, meth, [V(b)])
    if name in ('Eq', 'NotEq'):
        ka, kb = {okind(fl, a) for a in va}, {okind(fl, b) for b in vb}
        for side, other in ((va, kb), (vb, ka)):
            for a in side:
                opposite = {'str': 'bytes', 'bytes': 'str'}.get(kind(a))
                if a[0] == 'c' and opposite in other and kind(a) not in other \
                        and 'any' not in other:
                    fl.event('type', fr, e, 'compares text with bytes')
    for a, b, text in bad:
        every = len(bad) == len(combos)
        if name in ('Eq', 'NotEq') or 'among' in text:
            if not every:
                continue
        fl.event('type', fr, e, text, every)
    if len(bad) == len(combos) and combos and name not in ('Eq', 'NotEq', 'In', 'NotIn',
                                                           'Is', 'IsNot'):
        return BOTTOM
    if name in ('Eq', 'NotEq') and len(combos) == 1:
        a, b = combos[0]
        if a[0] == 'c' and b[0] == 'c' and a[1] == b[1]:
            return V(const((a[2] == b[2]) == (name == 'Eq')))
    if name in ('Is', 'IsNot') and combos:
        nn = [(kind(a) == 'none', kind(b) == 'none', 'any' in (kind(a), kind(b)))
              for a, b in combos]
        if all(x and y for x, y, _z in nn):
            return V(const(name == 'Is'))
        if all(x != y and not z for x, y, z in nn):
            return V(const(name == 'IsNot'))
    return VBOOL


def item(fl, fr, e, vb, vi):
    out = BOTTOM
    for b in vb:
        k = okind(fl, b)
        sure = len(vb) == 1
        if k == 'any':
            out = join(out, VANY)
            continue
        if k in ('str', 'bytes', 'list', 'tup', 'tuple'):
            bad = [i for i in vi if okind(fl, i) in ('str', 'bytes', 'none', 'float', 'tup')]
            for i in bad:
                fl.event('type', fr, e, 'takes item %s of %s' % (fl.show(i), fl.show(b)),
                         len(bad) == len(vi) and sure)
            if len(bad) == len(vi) and vi:
                continue
        if k == 'str':
            out = join(out, VSTR)
        elif k == 'bytes':
            out = join(out, VINT)
        elif k == 'tup':
            i = next(iter(vi)) if len(vi) == 1 else None
            if i is not None and i[0] == 'c' and isinstance(i[2], int):
                if -len(b[1]) <= i[2] < len(b[1]):
                    out = join(out, b[1][i[2]])
                elif sure:
                    fl.event('type', fr, e, 'takes item %d of %d' % (i[2], len(b[1])))
            else:
                out = join(out, *b[1]) if b[1] else out
        elif k in ('list', 'tuple'):
            if fl.is_unordered(V(b)):
                fl.disorder(fr, e, b, 'item')
            out = join(out, fl.obj(b).elem)
        elif k == 'dict':
            out = join(out, fl.obj(b).elem)
        elif k == 'inst':
            r = fl.method_of_inst(fr, e, b, '__getitem__', [vi])
            if r is not None:
                out = join(out, r)
            elif fl.ext_bases(fl.obj(b).cls):
                out = join(out, VANY)
            else:
                fl.event('type', fr, e, 'takes an item of %s' % fl.show(b), sure)
        elif k == 'x':
            if b[1].startswith('Match'):
                out = join(out, match_method(fl, fr, e, 'group', b, [vi], {}))
            elif b[1] == 'Message':
                out = join(out, VHEADER | VNONE)
            else:
                c = python_class(fl, b)
                if c is not None and not hasattr(c, '__getitem__'):
                    fl.event('type', fr, e, 'takes an item of %s' % fl.show(b), sure)
                else:
                    out = join(out, VANY)
        elif k in ('int', 'float', 'bool', 'none', 'fn', 'bm', 'set', 'iter', 'view'):
            fl.event('type', fr, e, 'takes an item of %s' % fl.show(b), sure)
        else:
            out = join(out, VANY)
    return out


def slice_(fl, fr, e, vb):
    out = BOTTOM
    for b in vb:
        k = okind(fl, b)
        if k in ('str', 'bytes'):
            out = join(out, V((k,)))
        elif k in ('list', 'tuple'):
            n = fl.new(fr, e, k, fl.obj(b).elem, tag='slice')
            if fl.is_unordered(V(b)):
                fl.unorder(fl.obj(n))
            out = join(out, V(n))
        elif k == 'tup':
            s = e.slice

            def val(x):
                if x is None:
                    return None
                if isinstance(x, ast.Constant):
                    return x.value
                if isinstance(x, ast.UnaryOp) and isinstance(x.operand, ast.Constant) \
                        and isinstance(x.op, ast.USub):
                    return -x.operand.value
                raise ValueError
            try:
                out = join(out, V(('tup', b[1][val(s.lower):val(s.upper):val(s.step)])))
            except (ValueError, TypeError):
                out = join(out, V(fl.new(fr, e, 'tuple', join(*b[1]) if b[1] else BOTTOM)))
        elif k in ('int', 'float', 'bool', 'none', 'fn', 'bm', 'dict', 'set', 'iter'):
            fl.event('type', fr, e, 'slices %s' % fl.show(b), len(vb) == 1)
        elif k == 'x' and python_class(fl, b) is not None \
                and not hasattr(python_class(fl, b), '__getitem__'):
            fl.event('type', fr, e, 'slices %s' % fl.show(b), len(vb) == 1)
        else:
            out = join(out, VANY)
    return out


def iter_x(fl, fr, node, a, sure):
    if a[1] == 'Message':
        return VSTR
    c = python_class(fl, a)
    if c is not None and not hasattr(c, '__iter__') and not hasattr(c, '__getitem__'):
        fl.event('type', fr, node, 'iterates over %s' % fl.show(a), sure)
        return BOTTOM
    return VANY


# -- arguments ------------------------------------------------------------------
def fits(fl, a, allowed):
    k = okind(fl, a)
    if k in ('any', 'other', 'bext', 'ext', 'super', 'extm', 'ctx'):
        return True
    if k == 'inst':
        return bool(fl.ext_bases(fl.obj(a).cls)) or 'inst' in allowed or 'any' in allowed
    if k == 'x':
        t = a[1].split(':')[0]
        return t in allowed or 'any' in allowed or X_CLASS.get(t) is None
    k = {'tup': 'tuple'}.get(k, k)
    if k in allowed or 'any' in allowed:
        return True
    if k == 'bool' and 'int' in allowed or k in ('int', 'bool') and 'float' in allowed:
        return True
    if 'iterable' in allowed and k in ('list', 'tuple', 'set', 'dict', 'iter', 'view', 'str',
                                       'bytes'):
        return True
    if 'callable' in allowed and k in ('fn', 'bm', 'cls'):
        return True
    return False


def check_arg(fl, fr, node, name, v, allowed):
    """Whether the argument can be given; events for what cannot."""
    if v is None:
        return True
    allowed = allowed.split('|')
    bad = [a for a in v if not fits(fl, a, allowed)]
    for a in bad:
        fl.event('type', fr, node, '%s() gets %s' % (name, fl.show(a)), len(bad) == len(v))
    return not v or len(bad) < len(v)


S = 'str'
B = 'bytes'
STR_METHODS = {
    'encode': (['str', 'str'], VBYTES), 'split': (['str|none', 'int'], '[str]'),
    'rsplit': (['str|none', 'int'], '[str]'), 'splitlines': (['int'], '[str]'),
    'partition': (['str'], '3'), 'rpartition': (['str'], '3'),
    'replace': (['str', 'str', 'int'], VSTR), 'strip': (['str|none'], VSTR),
    'lstrip': (['str|none'], VSTR), 'rstrip': (['str|none'], VSTR),
    'startswith': (['str|tuple', 'int|none', 'int|none'], VBOOL),
    'endswith': (['str|tuple', 'int|none', 'int|none'], VBOOL),
    'find': (['str', 'int|none', 'int|none'], VINT),
    'rfind': (['str', 'int|none', 'int|none'], VINT),
    'index': (['str', 'int|none', 'int|none'], VINT),
    'rindex': (['str', 'int|none', 'int|none'], VINT),
    'count': (['str', 'int|none', 'int|none'], VINT),
    'lower': ([], VSTR), 'upper': ([], VSTR), 'title': ([], VSTR), 'capitalize': ([], VSTR),
    'swapcase': ([], VSTR), 'casefold': ([], VSTR), 'zfill': (['int'], VSTR),
    'center': (['int', 'str'], VSTR), 'ljust': (['int', 'str'], VSTR),
    'rjust': (['int', 'str'], VSTR), 'expandtabs': (['int'], VSTR),
    'translate': (['any'], VSTR), 'removeprefix': (['str'], VSTR),
    'removesuffix': (['str'], VSTR), 'format_map': (['any'], VSTR),
    'isalpha': ([], VBOOL), 'isdigit': ([], VBOOL), 'isalnum': ([], VBOOL),
    'isspace': ([], VBOOL), 'isupper': ([], VBOOL), 'islower': ([], VBOOL),
    'isdecimal': ([], VBOOL), 'isnumeric': ([], VBOOL), 'isidentifier': ([], VBOOL),
    'istitle': ([], VBOOL), 'isascii': ([], VBOOL), 'isprintable': ([], VBOOL),
}
BYTES_METHODS = {
    'decode': (['str', 'str'], VSTR), 'hex': (['any', 'any'], VSTR),
    'translate': (['bytes|none', 'bytes'], VBYTES),
}
for _n, (_p, _r) in STR_METHODS.items():
    if _n in ('encode', 'format_map', 'isdecimal', 'isnumeric', 'isidentifier', 'isprintable',
              'casefold', 'translate'):
        continue
    _p = [q.replace('str', 'bytes') for q in _p]
    if _n in ('find', 'rfind', 'index', 'rindex', 'count'):
        _p = [_p[0] + '|int'] + _p[1:]
    BYTES_METHODS.setdefault(_n, (_p, VBYTES if _r == VSTR else _r))

MUTATORS = {
    'list': {'append', 'extend', 'insert', 'remove', 'pop', 'clear', 'sort', 'reverse',
             '__setitem__', '__delitem__', '__iadd__'},
    'dict': {'update', 'pop', 'popitem', 'setdefault', 'clear', '__setitem__', '__delitem__'},
    'set': {'add', 'discard', 'remove', 'pop', 'clear', 'update', 'intersection_update',
            'difference_update', 'symmetric_difference_update'},
    'Message': {'__setitem__', '__delitem__', 'add_header', 'replace_header', 'set_payload',
                'attach', 'set_param', 'del_param', 'set_type', 'set_charset', 'set_boundary',
                'set_default_type', 'set_unixfrom', 'set_raw', 'as_string', 'as_bytes',
                '__str__', '__bytes__', 'setPayload'},
    'iter': {'__next__', 'send', 'throw', 'close'},
    'Header': {'append'},
}


def call_method(fl, fr, node, name, recv, args, kwargs, star):
    if star:
        args = [v for _s, v in args]
    if recv[0] == 'xinst':
        # A method of a library class, of an instance of the program's class.
        base = recv[1]
        if base == 'email.message.Message':
            o = fl.obj(recv[2]) if recv[2][0] == 'obj' else None
            return message_method(fl, fr, node, name, recv[2],
                                  o.owner if o is not None else 'own', args, kwargs)
        if base in ('builtins.dict', 'builtins.list', 'builtins.set',
                    'collections.OrderedDict') and recv[2][0] == 'obj':
            k = {'builtins.list': 'list', 'builtins.set': 'set'}.get(base, 'dict')
            if name in MUTATORS[k]:
                fl.mutate(fr, node, recv[2], name)
            o = fl.obj(recv[2])
            if name == '__init__':
                return VNONE
            return container_method(fl, fr, node, name, k, recv[2], o, args, kwargs)
        return VANY
    k = okind(fl, recv)
    if k in ('str', 'bytes'):
        return text_method(fl, fr, node, name, k, recv, args, kwargs)
    if k in ('list', 'dict', 'set', 'tuple', 'iter', 'view'):
        o = fl.obj(recv)
        if name in MUTATORS.get(k, ()):
            fl.mutate(fr, node, recv, name)
        return container_method(fl, fr, node, name, k, recv, o, args, kwargs)
    if k == 'tup':
        if name in ('count', 'index'):
            return VINT
        return VANY
    if k == 'x':
        t = recv[1].split(':')[0]
        if t == 'Pattern':
            return pattern_method(fl, fr, node, name, recv, args, kwargs)
        if t == 'Match':
            return match_method(fl, fr, node, name, recv, args, kwargs)
        if t == 'Message':
            return message_method(fl, fr, node, name, recv, recv[2], args, kwargs)
        if t == 'Header':
            if name in MUTATORS['Header']:
                fl.mutate(fr, node, recv, name)
            if name in ('encode', '__str__'):
                return VSTR
            return VANY
        return VANY
    if k in ('int', 'bool', 'float'):
        if name in ('to_bytes',):
            return VBYTES
        if name == 'bit_length':
            return VINT
        return VANY
    return VANY


def text_method(fl, fr, node, name, k, recv, args, kwargs):
    table = STR_METHODS if k == 'str' else BYTES_METHODS
    base = V((k,))
    if name == 'join':
        el = fl.iterate(fr, node, args[0], ordered=True) if args else BOTTOM
        check_arg(fl, fr, node, 'join of %s' % k, el, k)
        return base
    if name == 'format':
        for v in list(args) + list(kwargs.values()):
            formatted(fl, fr, node, v, None)
        return VSTR
    if name not in table:
        return VANY
    params, res = table[name]
    if len(args) > len(params):
        fl.event('type', fr, node, '%s() of %s gets %d arguments' % (name, k, len(args)))
        return BOTTOM
    ok = True
    for v, allowed in zip(args, params):
        ok = check_arg(fl, fr, node, '%s of %s' % (name, k), v, allowed) and ok
    if not ok:
        return BOTTOM
    if name in ('lower', 'upper') and recv[0] == 'c':
        return V(const(getattr(recv[2], name)()))
    if res == '[str]':
        return V(fl.new(fr, node, 'list', base, tag=name + k))
    if res == '3':
        return V(('tup', (base, base, base)))
    return res


def container_method(fl, fr, node, name, k, recv, o, args, kwargs):
    arg = args[0] if args else BOTTOM
    if k == 'list':
        if name in ('append',):
            fl.put(o, 'elem', arg)
            return VNONE
        if name == 'insert':
            fl.put(o, 'elem', args[1] if len(args) > 1 else VANY)
            return VNONE
        if name == 'extend' or name == '__iadd__':
            fl.put(o, 'elem', fl.iterate(fr, node, arg, into=o))
            return VNONE
        if name == 'sort':
            if not o.sorted:
                o.sorted = True
                o.unordered = False
                fl.changed = True
            key_call(fl, fr, node, kwargs, o.elem)
            return VNONE
        if name in ('remove', 'clear', 'reverse'):
            return VNONE
        if name == 'pop':
            if fl.is_unordered(V(recv)):
                fl.disorder(fr, node, recv, name)
            return o.elem
        if name in ('index', 'count'):
            return VINT
        if name == 'copy':
            return V(fl.new(fr, node, 'list', o.elem, tag=name))
        return VANY
    if k == 'dict':
        if name == 'get':
            return join(o.elem, args[1] if len(args) > 1 else VNONE)
        if name in ('keys', 'values', 'items'):
            e = {'keys': o.key, 'values': o.elem}.get(name, V(('tup', (o.key, o.elem))))
            if not o.key and not o.elem:
                e = BOTTOM
            n = fl.new(fr, node, 'view', e, tag=name)
            if fl.is_unordered(V(recv)):
                fl.unorder(fl.obj(n))
            return V(n)
        if name == 'setdefault':
            fl.put(o, 'key', arg)
            d = args[1] if len(args) > 1 else VNONE
            fl.put(o, 'elem', d)
            return o.elem
        if name == 'pop':
            return join(o.elem, args[1] if len(args) > 1 else BOTTOM)
        if name == 'popitem':
            return V(('tup', (o.key, o.elem)))
        if name == '__setitem__':
            fl.put(o, 'key', arg)
            fl.put(o, 'elem', args[1] if len(args) > 1 else VANY)
            return VNONE
        if name == '__getitem__':
            m = fl.method_of_inst(fr, node, recv, '__missing__', [arg])
            return join(o.elem, m or BOTTOM)
        if name == '__contains__':
            return VBOOL
        if name == '__len__':
            return VINT
        if name == '__iter__':
            return V(fl.new(fr, node, 'iter', o.key, tag=name))
        if name == 'update':
            for a in arg:
                if a[0] == 'obj':
                    x = fl.obj(a)
                    if x.kind == 'dict':
                        fl.put(o, 'key', x.key)
                        fl.put(o, 'elem', x.elem)
                    else:
                        for p in x.elem:
                            if p[0] == 'tup' and len(p[1]) == 2:
                                fl.put(o, 'key', p[1][0])
                                fl.put(o, 'elem', p[1][1])
                            else:
                                fl.put(o, 'key', VANY)
                                fl.put(o, 'elem', VANY)
                else:
                    fl.put(o, 'key', VANY)
                    fl.put(o, 'elem', VANY)
            for v in kwargs.values():
                fl.put(o, 'key', VSTR)
                fl.put(o, 'elem', v)
            return VNONE
        if name == 'copy':
            return V(fl.new(fr, node, 'dict', o.elem, key=o.key, tag=name))
        if name == 'clear':
            return VNONE
        return VANY
    if k == 'set':
        if name == 'add':
            fl.put(o, 'elem', arg)
            return VNONE
        if name == 'update':
            for v in args:
                fl.put(o, 'elem', fl.iterate(fr, node, v))
            return VNONE
        if name in ('union', 'symmetric_difference'):
            return V(fl.new(fr, node, 'set', join(o.elem, *(fl.iterate(fr, node, v)
                                                            for v in args)), tag=name))
        if name in ('intersection', 'difference', 'copy'):
            return V(fl.new(fr, node, 'set', o.elem, tag=name))
        if name == 'pop':
            if fl.is_unordered(V(recv)):
                fl.disorder(fr, node, recv, name)
            return o.elem
        if name in ('issubset', 'issuperset', 'isdisjoint'):
            return VBOOL
        return VNONE
    if k == 'iter':
        if name == '__next__':
            return o.elem
        if name == '__iter__':
            return V(recv)
        return VANY
    if k == 'tuple' and name in ('index', 'count'):
        return VINT
    return VANY


def message_method(fl, fr, node, name, recv, owner, args, kwargs):
    parts = V(('x', 'Message', owner))

    def arg(i, key, default):
        if len(args) > i:
            return args[i]
        return kwargs.get(key, default)
    if name in MUTATORS['Message']:
        fl.mutate(fr, node, recv, name)
    if name in ('get', 'get_all', 'get_param', 'get_params', '__getitem__', '__contains__'):
        check_arg(fl, fr, node, name + ' of a message', arg(
            0, 'param' if name == 'get_param' else 'name', None), 'str')
    if name == 'get':
        return join(VHEADER, arg(1, 'failobj', VNONE))
    if name == '__getitem__':
        return VHEADER | VNONE
    if name == 'get_all':
        return join(V(fl.new(fr, node, 'list', VHEADER, tag=name)),
                    arg(1, 'failobj', VNONE))
    if name == 'items':
        return V(fl.new(fr, node, 'list', V(('tup', (VSTR, VHEADER))), tag=name))
    if name == 'keys':
        return V(fl.new(fr, node, 'list', VSTR, tag=name))
    if name == 'values':
        return V(fl.new(fr, node, 'list', VHEADER, tag=name))
    if name == 'walk':
        return V(fl.new(fr, node, 'iter', join(parts, V(recv)), tag=name))
    if name in ('get_content_type', 'get_content_maintype', 'get_content_subtype',
                'get_default_type', 'as_string', '__str__'):
        return VSTR
    if name in ('as_bytes', '__bytes__'):
        return VBYTES
    if name == 'get_param':
        n = VSTR | VNONE
        return join(V(STR, ('tup', (n, n, VSTR))), arg(1, 'failobj', VNONE))
    if name == 'get_charsets':
        return V(fl.new(fr, node, 'list', join(VSTR, arg(0, 'failobj', VNONE)), tag=name))
    if name in ('get_filename', 'get_boundary', 'get_content_charset'):
        return join(VSTR, arg(0, 'failobj', VNONE))
    if name == 'get_content_disposition':
        return VSTR | VNONE
    if name == 'is_multipart' or name == '__contains__':
        return VBOOL
    if name == 'get_payload':
        i = arg(0, 'i', VNONE)
        if any(kind(a) == 'int' for a in i):
            return parts
        d = arg(1, 'decode', None)
        if d is not None and all(fl.atom_truth(a) == (True, False) for a in d):
            return VBYTES | VNONE
        if d is not None or getattr(fr, 'handlers', 0) and not fl.whole:
            return VSTR | VNONE
        return VSTR | VNONE | V(message_list(fl))
    if name == '__len__':
        return VINT
    return VANY


def key_call(fl, fr, node, kwargs, elem):
    k = kwargs.get('key')
    if k and elem:
        fl.call(fr, node, k, [elem], {})


# -- functions --------------------------------------------------------------------
def impure(fl, fr, node, what):
    if fl.collect and fl.owner == 'own':
        fl.impure.setdefault((fr.fid, getattr(node, 'lineno', 0), what), (fr, node, what))


IMPURE = ('random.', 'time.', 'secrets.', 'uuid.', 'os.urandom', 'os.getpid', 'os.getenv',
          'os.environ', 'tempfile.', 'builtins.open', 'builtins.input', 'os.listdir',
          'os.stat', 'os.path.exists', 'os.path.getmtime', 'datetime.', 'locale.', 'platform.',
          'getpass.', 'threading.', 'builtins.id', 'builtins.hash', 'gc.', 'sys.getrefcount',
          'glob.', 'shelve.', 'dbm.')
PURE_TIME = ('time.strptime', 'time.mktime', 'datetime.timedelta', 'time.strftime')

# dotted -> (kinds of arguments, result)
FUNCTIONS = {
    'email.message_from_string': (['str'], V(('x', 'Message', 'own'))),
    'email.message_from_bytes': (['bytes'], V(('x', 'Message', 'own'))),
    'email.message_from_file': (['any'], V(('x', 'Message', 'own'))),
    'email.header.make_header': (['iterable'], V(('x', 'Header', 'own'))),
    'email.header.Header': (['str|bytes|none'], V(('x', 'Header', 'own'))),
    'email.utils.collapse_rfc2231_value': (['str|tuple'], VSTR),
    'email.utils.parseaddr': (['str|list|Header'], V(('tup', (VSTR, VSTR)))),
    'email.utils.formataddr': (['tuple'], VSTR),
    'email.utils.quote': (['str'], VSTR), 'email.utils.unquote': (['str'], VSTR),
    'binascii.a2b_base64': (['str|bytes'], VBYTES),
    'binascii.b2a_base64': (['bytes'], VBYTES),
    'base64.b64decode': (['str|bytes'], VBYTES), 'base64.b64encode': (['bytes'], VBYTES),
    'math.log': (['float', 'float'], VFLOAT), 'math.log2': (['float'], VFLOAT),
    'math.log10': (['float'], VFLOAT), 'math.exp': (['float'], VFLOAT),
    'math.floor': (['float'], VINT), 'math.ceil': (['float'], VINT),
    'math.sqrt': (['float'], VFLOAT), 'math.fabs': (['float'], VFLOAT),
    'math.frexp': (['float'], V(('tup', (VFLOAT, VINT)))),
    'math.ldexp': (['float', 'int'], VFLOAT),
    'urllib.parse.unquote': (['str|bytes', 'str', 'str'], VSTR),
    'urllib.parse.unquote_plus': (['str', 'str', 'str'], VSTR),
    'urllib.parse.quote': (['str|bytes'], VSTR),
    'urllib.parse.splituser': (['str'], V(('tup', (VSTR | VNONE, VSTR)))),
    'urllib.parse._splituser': (['str'], V(('tup', (VSTR | VNONE, VSTR)))),
    'urllib.parse.splitport': (['str'], V(('tup', (VSTR, VSTR | VNONE)))),
    'urllib.parse._splitport': (['str'], V(('tup', (VSTR, VSTR | VNONE)))),
    'ipaddress.ip_address': (['str|int|bytes|IPv4Address|IPv6Address'],
                             V(('x', 'IPv4Address', 'own'), ('x', 'IPv6Address', 'own'))),
    'ipaddress.IPv4Address': (['str|int|bytes'], V(('x', 'IPv4Address', 'own'))),
    'ipaddress.ip_network': (['str|int|bytes|tuple|IPv4Address|IPv6Address'],
                             V(('x', 'IPv4Network', 'own'), ('x', 'IPv6Network', 'own'))),
    'ipaddress.IPv4Network': (['str|int|bytes|tuple|IPv4Address'],
                              V(('x', 'IPv4Network', 'own'))),
    'socket.getdefaulttimeout': ([], VFLOAT | VNONE),
    'socket.setdefaulttimeout': (['float|none'], VNONE),
    'socket.gethostbyname': (['str'], VSTR),
    'socket.getfqdn': (['str'], VSTR),
    'os.path.join': (None, VSTR), 'os.path.basename': (['str'], VSTR),
    'os.path.dirname': (['str'], VSTR), 'os.path.exists': (['str'], VBOOL),
    'os.path.isdir': (['str'], VBOOL), 'os.path.isfile': (['str'], VBOOL),
    'os.path.abspath': (['str'], VSTR), 'os.path.expanduser': (['str'], VSTR),
    'os.path.getmtime': (['str'], VFLOAT), 'os.path.getsize': (['str'], VINT),
    'os.path.splitext': (['str'], V(('tup', (VSTR, VSTR)))),
    'os.path.commonprefix': (['iterable'], VSTR),
    'time.time': ([], VFLOAT), 'os.getcwd': ([], VSTR),
    'zlib.compress': (['bytes'], VBYTES), 'zlib.decompress': (['bytes'], VBYTES),
    'gzip.compress': (['bytes'], VBYTES), 'gzip.decompress': (['bytes'], VBYTES),
    'pickle.dumps': (['any'], VBYTES),
    're.escape': (['str|bytes'], None),
    'html.unescape': (['str'], VSTR),
}

BUILTIN = {
    'len': (None, VINT), 'repr': (['any'], VSTR), 'ascii': (['any'], VSTR),
    'chr': (['int'], VSTR), 'hex': (['int'], VSTR), 'bin': (['int'], VSTR),
    'isinstance': (['any', 'any'], VBOOL), 'issubclass': (['any', 'any'], VBOOL),
    'hasattr': (['any', 'str'], VBOOL), 'callable': (['any'], VBOOL),
    'id': (['any'], VINT), 'hash': (['any'], VINT), 'print': (None, VNONE),
    'any': (['iterable|inst|Message'], VBOOL), 'all': (['iterable|inst|Message'], VBOOL),
    'input': (['any'], VSTR), 'open': (None, V(('x', 'file', 'own'))),
}


def call_ext(fl, fr, node, dotted, args, kwargs, star):
    if star:
        args = [v for _s, v in args]
    if dotted.startswith(IMPURE) and not dotted.startswith(PURE_TIME):
        impure(fl, fr, node, dotted)
    if dotted.startswith('email.message_from_') and '_class' in kwargs:
        check_arg(fl, fr, node, dotted.split('.')[-1], args[0] if args else BOTTOM,
                  FUNCTIONS[dotted][0][0] if dotted in FUNCTIONS else 'any')
        return fl.call(fr, node, kwargs['_class'], [], {})
    f = CALLS.get(dotted)
    if f is not None:
        r = f(fl, fr, node, args, kwargs)
        if r is not None:
            return r
        return VANY
    sig = FUNCTIONS.get(dotted)
    name = dotted.split('.')[-1]
    if sig is None and dotted.startswith('builtins.'):
        sig = BUILTIN.get(name)
    if sig is not None:
        params, res = sig
        if params is not None and not star:
            if len(args) > len(params) and dotted not in ('print',):
                extra = True
            for v, allowed in zip(args, params):
                if not check_arg(fl, fr, node, name, v, allowed):
                    return BOTTOM
        if any(not v for v in args) and fl.collect and args:
            return BOTTOM
        return VANY if res is None else res
    x = load(dotted)
    if isinstance(x, type):
        if issubclass(x, BaseException):
            return V(('x', 'exc', 'own'))
        for t, c in X_CLASS.items():
            if c == dotted:
                return V(('x', t, 'own'))
        # An object of a class of the standard library.
        return V(fl.new(fr, node, 'other', VANY, tag=dotted, key=VANY))
    parts = dotted.rsplit('.', 1)
    owner_cls = load(parts[0]) if len(parts) == 2 else None
    if isinstance(owner_cls, type) and args:
        # An unbound method: Class.method(instance, ...).
        out = BOTTOM
        for a in args[0]:
            if a[0] == 'obj' and fl.obj(a).kind == 'inst':
                out = join(out, call_method(fl, fr, node, parts[1], ('xinst', parts[0], a),
                                            args[1:], kwargs, False))
            elif a[0] in ('any',):
                out = join(out, VANY)
            else:
                r = fl.attr1(fr, node, a, parts[1])
                if r:
                    out = join(out, fl.call(fr, node, r, args[1:], kwargs))
                else:
                    out = join(out, VANY)
        return out
    return VANY


CALLS = {}


def builtin(*names):
    def deco(f):
        for n in names:
            CALLS[n if '.' in n else 'builtins.' + n] = f
        return f
    return deco


@builtin('len')
def _len(fl, fr, node, args, kwargs):
    for v in args[:1]:
        if not v:
            return BOTTOM if fl.collect else VINT
        for a in v:
            k = okind(fl, a)
            if k in ('int', 'float', 'bool', 'none', 'iter', 'fn', 'bm'):
                fl.event('type', fr, node, 'takes the length of %s' % fl.show(a), len(v) == 1)
            elif k == 'x' and python_class(fl, a) is not None and not hasattr(
                    python_class(fl, a), '__len__'):
                fl.event('type', fr, node, 'takes the length of %s' % fl.show(a), len(v) == 1)
            elif k == 'inst':
                if fl.method_of_inst(fr, node, a, '__len__', []) is None and not fl.ext_bases(
                        fl.obj(a).cls):
                    fl.event('type', fr, node, 'takes the length of %s' % fl.show(a),
                             len(v) == 1)
    return VINT


@builtin('str')
def _str(fl, fr, node, args, kwargs):
    if not args:
        return V(const(''))
    if not args[0]:
        return BOTTOM if fl.collect else VSTR
    for a in args[0]:
        if kind(a) == 'bytes' and len(args) == 1 and not kwargs:
            fl.event('type', fr, node, 'makes text of bytes without decoding',
                     len(args[0]) == 1)
        elif kind(a) == 'str' and (len(args) > 1 or kwargs):
            fl.event('type', fr, node, 'decodes text', len(args[0]) == 1)
        elif a[0] == 'obj' and fl.obj(a).kind == 'inst':
            m = fl.class_attr(fl.obj(a).cls, '__str__')
            if m is not None:
                fl.method_of_inst(fr, node, a, '__str__', [])
        elif a[0] == 'x' and a[1] == 'Message':
            fl.mutate(fr, node, a, 'str')
    if len(args[0]) == 1:
        a = next(iter(args[0]))
        if a[0] == 'c' and a[1] == 'str':
            return V(a)
    return VSTR


@builtin('bytes', 'bytearray')
def _bytes(fl, fr, node, args, kwargs):
    if not args:
        return V(const(b''))
    for a in args[0]:
        if kind(a) == 'str' and len(args) == 1 and not kwargs:
            fl.event('type', fr, node, 'makes bytes of text without encoding',
                     len(args[0]) == 1)
        elif kind(a) in ('float', 'none'):
            fl.event('type', fr, node, 'makes bytes of %s' % fl.show(a), len(args[0]) == 1)
    return VBYTES


@builtin('int', 'float')
def _int(fl, fr, node, args, kwargs):
    name = getattr(node.func, 'id', 'int') if isinstance(node, ast.Call) else 'int'
    if args:
        if not check_arg(fl, fr, node, name, args[0], 'str|bytes|float|int|inst'):
            return BOTTOM
    return VFLOAT if name == 'float' else VINT


@builtin('bool')
def _bool(fl, fr, node, args, kwargs):
    return VBOOL


@builtin('ord')
def _ord(fl, fr, node, args, kwargs):
    return VINT if check_arg(fl, fr, node, 'ord', args[0] if args else None,
                             'str|bytes') else BOTTOM


@builtin('round')
def _round(fl, fr, node, args, kwargs):
    if not args or not check_arg(fl, fr, node, 'round', args[0], 'float|inst'):
        return BOTTOM
    if len(args) == 1:
        return VINT
    return VFLOAT | VINT


@builtin('abs')
def _abs(fl, fr, node, args, kwargs):
    if not args or not check_arg(fl, fr, node, 'abs', args[0], 'float|inst'):
        return BOTTOM
    return general(args[0])


@builtin('sum')
def _sum(fl, fr, node, args, kwargs):
    el = fl.iterate(fr, node, args[0]) if args else BOTTOM
    check_arg(fl, fr, node, 'sum', el, 'float|list|tuple|inst')
    return join(general(el), VINT) if el else VINT


@builtin('max', 'min')
def _max(fl, fr, node, args, kwargs):
    el = fl.iterate(fr, node, args[0]) if len(args) == 1 else join(*args)
    ks = {('num' if kind(a) in NUM else kind(a)) for a in el} - {'any'}
    known = {'num', 'str', 'bytes', 'none'}
    if len(ks & known) > 1 and 'key' not in kwargs:
        fl.event('type', fr, node, 'orders values of kinds %s' % ', '.join(sorted(ks)), False)
    key_call(fl, fr, node, kwargs, el)
    return join(general(el), kwargs.get('default', BOTTOM))


@builtin('sorted')
def _sorted(fl, fr, node, args, kwargs):
    el = fl.iterate(fr, node, args[0]) if args else BOTTOM
    ks = {('num' if kind(a) in NUM else kind(a)) for a in el} - {'any'}
    if 'key' not in kwargs and (len(ks & {'num', 'str', 'bytes', 'none'}) > 1):
        fl.event('type', fr, node, 'sorts values of kinds %s' % ', '.join(sorted(ks)), False)
    key_call(fl, fr, node, kwargs, el)
    n = fl.new(fr, node, 'list', el, tag='sorted')
    fl.obj(n).sorted = True
    return V(n)


def _sequence(k):
    def f(fl, fr, node, args, kwargs):
        el = fl.iterate(fr, node, args[0]) if args else BOTTOM
        if k == 'tuple' and args and len(args[0]) == 1 and next(iter(args[0]))[0] == 'tup':
            return args[0]
        n = fl.new(fr, node, k, el, tag=k + '()')
        if args and k != 'set' and fl.is_unordered(args[0]):
            fl.unorder(fl.obj(n))
        return V(n)
    return f


builtin('list')(_sequence('list'))
builtin('tuple')(_sequence('tuple'))
builtin('set', 'frozenset')(_sequence('set'))
builtin('iter')(_sequence('iter'))
builtin('reversed')(_sequence('iter'))


@builtin('dict', 'collections.OrderedDict', 'collections.Counter')
def _dict(fl, fr, node, args, kwargs):
    a = fl.new(fr, node, 'dict', BOTTOM, tag='dict()')
    container_method(fl, fr, node, 'update', 'dict', a, fl.obj(a), args[:1] or [BOTTOM], kwargs)
    return V(a)


@builtin('enumerate')
def _enumerate(fl, fr, node, args, kwargs):
    el = fl.iterate(fr, node, args[0]) if args else BOTTOM
    n = fl.new(fr, node, 'iter', V(('tup', (VINT, el))) if el else BOTTOM, tag='enumerate')
    if args and fl.is_unordered(args[0]):
        fl.unorder(fl.obj(n))
    return V(n)


@builtin('zip', 'itertools.zip_longest')
def _zip(fl, fr, node, args, kwargs):
    els = [fl.iterate(fr, node, v) for v in args]
    e = V(('tup', tuple(els))) if all(els) and els else BOTTOM
    n = fl.new(fr, node, 'iter', e, tag='zip')
    if any(fl.is_unordered(v) for v in args):
        fl.unorder(fl.obj(n))
    return V(n)


@builtin('map', 'itertools.starmap')
def _map(fl, fr, node, args, kwargs):
    if not args:
        return VANY
    els = [fl.iterate(fr, node, v) for v in args[1:]]
    if not all(els):
        return V(fl.new(fr, node, 'iter', BOTTOM, tag='map'))
    if isinstance(node.func, ast.Attribute) and node.func.attr == 'starmap':
        r = VANY
        for t in els[0]:
            if t[0] == 'tup':
                r = fl.call(fr, node, args[0], list(t[1]), {})
    else:
        r = fl.call(fr, node, args[0], els, {})
    n = fl.new(fr, node, 'iter', r, tag='map')
    if any(fl.is_unordered(v) for v in args[1:]):
        fl.unorder(fl.obj(n))
    return V(n)


@builtin('filter', 'itertools.filterfalse', 'itertools.takewhile', 'itertools.dropwhile')
def _filter(fl, fr, node, args, kwargs):
    el = fl.iterate(fr, node, args[1]) if len(args) > 1 else BOTTOM
    if el and any(a[0] != 'none' for a in args[0]):
        fl.call(fr, node, frozenset(a for a in args[0] if a[0] != 'none'), [el], {})
    if args and args[0] == VNONE:
        el = frozenset(a for a in el if fl.atom_truth(a)[0])
    n = fl.new(fr, node, 'iter', el, tag='filter')
    if len(args) > 1 and fl.is_unordered(args[1]):
        fl.unorder(fl.obj(n))
    return V(n)


@builtin('range')
def _range(fl, fr, node, args, kwargs):
    for v in args:
        check_arg(fl, fr, node, 'range', v, 'int|inst')
    return V(fl.new(fr, node, 'tuple', VINT, tag='range'))


@builtin('next')
def _next(fl, fr, node, args, kwargs):
    if not args:
        return VANY
    for a in args[0]:
        if a[0] == 'obj' and fl.obj(a).kind == 'list':
            fl.event('type', fr, node, 'takes the next of a list', len(args[0]) == 1)
    return join(fl.iterate(fr, node, args[0], ordered=True), *args[1:2])


@builtin('getattr')
def _getattr(fl, fr, node, args, kwargs):
    if len(args) >= 2 and len(args[1]) == 1:
        n = next(iter(args[1]))
        if n[0] == 'c' and isinstance(n[2], str):
            out = BOTTOM
            for a in args[0]:
                r = fl.attr1(fr, node, a, n[2])
                if r is None:
                    if len(args) == 2:
                        fl.event('attr', fr, node, '%s has no attribute %s' % (
                            fl.show(a), n[2]), len(args[0]) == 1, on=a)
                    continue
                out = join(out, r)
            return join(out, *args[2:3])
    return VANY


@builtin('setattr')
def _setattr(fl, fr, node, args, kwargs):
    if len(args) == 3:
        for a in args[0]:
            fl.mutate(fr, node, a, 'setattr')
            if a[0] == 'obj' and len(args[1]) == 1:
                n = next(iter(args[1]))
                if n[0] == 'c':
                    fl.put_attr(fl.obj(a), n[2], args[2])
    return VNONE


@builtin('delattr')
def _delattr(fl, fr, node, args, kwargs):
    for a in args[0] if args else ():
        fl.mutate(fr, node, a, 'delattr')
    return VNONE


@builtin('format')
def _format(fl, fr, node, args, kwargs):
    if args:
        formatted(fl, fr, node, args[0], None)
    return VSTR


@builtin('type')
def _type(fl, fr, node, args, kwargs):
    out = BOTTOM
    for a in args[0] if args else ():
        if a[0] == 'obj' and fl.obj(a).kind == 'inst':
            out |= V(('cls', fl.obj(a).cls))
        else:
            c = python_class(fl, a)
            out |= V(('ext', 'builtins.' + c.__name__)) if c in (
                str, bytes, int, float, bool, tuple, list, dict, set) else VANY
    return out


@builtin('super')
def _super(fl, fr, node, args, kwargs):
    if len(args) == 2:
        out = BOTTOM
        for c in args[0]:
            for a in args[1]:
                if c[0] == 'cls' and a[0] == 'obj' and fl.obj(a).kind == 'inst':
                    out |= V(('super', fl.obj(a).cls, c[1], a))
                else:
                    out |= VANY
        return out
    return VANY


@builtin('itertools.chain')
def _chain(fl, fr, node, args, kwargs):
    el = join(*(fl.iterate(fr, node, v) for v in args)) if args else BOTTOM
    n = fl.new(fr, node, 'iter', el, tag='chain')
    if any(fl.is_unordered(v) for v in args):
        fl.unorder(fl.obj(n))
    return V(n)


@builtin('itertools.chain.from_iterable')
def _chain_from(fl, fr, node, args, kwargs):
    outer = fl.iterate(fr, node, args[0]) if args else BOTTOM
    el = fl.iterate(fr, node, outer) if outer else BOTTOM
    n = fl.new(fr, node, 'iter', el, tag='chain')
    if args and (fl.is_unordered(args[0]) or fl.is_unordered(outer)):
        fl.unorder(fl.obj(n))
    return V(n)


@builtin('itertools.islice', 'itertools.cycle')
def _islice(fl, fr, node, args, kwargs):
    n = fl.new(fr, node, 'iter', fl.iterate(fr, node, args[0]) if args else BOTTOM,
               tag='islice')
    if args and fl.is_unordered(args[0]):
        fl.unorder(fl.obj(n))
    return V(n)


@builtin('itertools.tee')
def _tee(fl, fr, node, args, kwargs):
    return V(fl.new(fr, node, 'tuple', V(fl.new(fr, node, 'iter', fl.iterate(
        fr, node, args[0]) if args else BOTTOM, tag='tee')), tag='tees'))


@builtin('itertools.count')
def _count(fl, fr, node, args, kwargs):
    return V(fl.new(fr, node, 'iter', VINT, tag='count'))


@builtin('itertools.repeat')
def _repeat(fl, fr, node, args, kwargs):
    return V(fl.new(fr, node, 'iter', args[0] if args else VANY, tag='repeat'))


@builtin('functools.reduce')
def _reduce(fl, fr, node, args, kwargs):
    if len(args) < 2:
        return VANY
    el = fl.iterate(fr, node, args[1], ordered=True)
    acc = args[2] if len(args) > 2 else el
    for _i in range(3):
        if not acc or not el:
            break
        acc = join(acc, fl.call(fr, node, args[0], [acc, el], {}))
    return acc


@builtin('functools.partial')
def _partial(fl, fr, node, args, kwargs):
    return VANY


@builtin('functools.lru_cache', 'functools.cache')
def _lru_cache(fl, fr, node, args, kwargs):
    fns = frozenset(a for a in (args[0] if args else ()) if a[0] in ('fn', 'bm'))
    if fns:
        return frozenset(('cached', a) for a in fns)
    return V(('ext', 'functools.lru_cache'))


@builtin('functools.wraps')
def _wraps(fl, fr, node, args, kwargs):
    return V(('ext', 'functools.wraps~'))


@builtin('functools.wraps~')
def _wraps2(fl, fr, node, args, kwargs):
    return args[0] if args else VANY


@builtin('copy.copy')
def _copy(fl, fr, node, args, kwargs):
    out = BOTTOM
    for a in args[0] if args else ():
        if a[0] == 'obj' and fl.obj(a).kind in ('list', 'dict', 'set'):
            o = fl.obj(a)
            out |= V(fl.new(fr, node, o.kind, o.elem, key=o.key, tag='copy'))
        else:
            # A copy of a message has its list of headers.
            out |= V(a)
    return out


@builtin('copy.deepcopy')
def _deepcopy(fl, fr, node, args, kwargs):
    out = BOTTOM
    for a in args[0] if args else ():
        if a[0] == 'x':
            out |= V((a[0], a[1], 'own'))
        elif a[0] == 'obj':
            o = fl.obj(a)
            n = fl.new(fr, node, o.kind, o.elem, key=o.key, tag='deepcopy', cls=o.cls)
            for k, v in o.attrs.items():
                fl.put_attr(fl.obj(n), k, v)
            out |= V(n)
        else:
            out |= V(a)
    return out


@builtin('re.compile')
def _re_compile(fl, fr, node, args, kwargs):
    return make_pattern(fl, fr, node, args[0] if args else BOTTOM,
                        args[1] if len(args) > 1 else kwargs.get('flags'))


def _re(name, nparams):
    def f(fl, fr, node, args, kwargs):
        if not args:
            return VANY
        fv = args[nparams] if len(args) > nparams else kwargs.get('flags')
        p = make_pattern(fl, fr, node, args[0], fv)
        kw = {k: v for k, v in kwargs.items() if k != 'flags'}
        out = BOTTOM
        for a in p:
            if a[0] == 'x':
                out = join(out, pattern_method(fl, fr, node, name, a, args[1:nparams], kw))
            else:
                out = join(out, VANY)
        return out
    return f


for _n, _k in (('search', 2), ('match', 2), ('fullmatch', 2), ('findall', 2), ('finditer', 2),
               ('sub', 4), ('subn', 4), ('split', 3)):
    CALLS['re.' + _n] = _re(_n, _k)


@builtin('re.escape')
def _escape(fl, fr, node, args, kwargs):
    return general(args[0]) if args else VANY


@builtin('email.header.decode_header')
def _decode_header(fl, fr, node, args, kwargs):
    if not args or not check_arg(fl, fr, node, 'decode_header', args[0], 'str|Header'):
        return BOTTOM
    return V(fl.new(fr, node, 'list', V(('tup', (V(STR, BYTES), VSTR | VNONE))),
                    tag='decode_header'))


@builtin('email.utils.getaddresses')
def _getaddresses(fl, fr, node, args, kwargs):
    if args:
        el = fl.iterate(fr, node, args[0], ordered=True)
        for a in el:
            if kind(a) == 'bytes':
                fl.event('type', fr, node, 'reads addresses in bytes', len(el) == 1)
    return V(fl.new(fr, node, 'list', V(('tup', (VSTR, VSTR))), tag='getaddresses'))


PARSED = {
    'urlparse': {'str': 'urllib.parse.ParseResult', 'bytes': 'urllib.parse.ParseResultBytes'},
    'urlsplit': {'str': 'urllib.parse.SplitResult', 'bytes': 'urllib.parse.SplitResultBytes'},
}


@builtin('urllib.parse.urlparse')
def _urlparse(fl, fr, node, args, kwargs):
    out = BOTTOM
    for a in args[0] if args else ():
        k = kind(a)
        if k in ('str', 'bytes'):
            out |= V(('tup', (V((k,)),) * 6, PARSED['urlparse'][k]))
        elif k == 'any':
            out |= VANY
        else:
            fl.event('type', fr, node, 'parses %s as a URL' % fl.show(a), len(args[0]) == 1)
    return out


@builtin('urllib.parse.urlsplit')
def _urlsplit(fl, fr, node, args, kwargs):
    out = BOTTOM
    for a in args[0] if args else ():
        k = kind(a)
        out |= (V(('tup', (V((k,)),) * 5, PARSED['urlsplit'][k])) if k in ('str', 'bytes')
                else VANY)
    return out


@builtin('socket.gethostbyaddr', 'socket.gethostbyname_ex')
def _gethost(fl, fr, node, args, kwargs):
    check_arg(fl, fr, node, 'gethostbyaddr', args[0] if args else None, 'str|bytes')
    return V(('tup', (VSTR, V(fl.new(fr, node, 'list', VSTR, tag='hosts')),
                      V(fl.new(fr, node, 'list', VSTR, tag='addresses')))))


@builtin('socket.getaddrinfo')
def _getaddrinfo(fl, fr, node, args, kwargs):
    check_arg(fl, fr, node, 'getaddrinfo', args[0] if args else None, 'str|bytes|none')
    e = V(('tup', (VINT, VINT, VINT, VSTR, V(('tup', (VSTR, VINT))))))
    return V(fl.new(fr, node, 'list', e, tag='getaddrinfo'))


@builtin('collections.defaultdict')
def _defaultdict(fl, fr, node, args, kwargs):
    a = fl.new(fr, node, 'dict', BOTTOM, tag='defaultdict', key=BOTTOM)
    if args and args[0]:
        fl.put(fl.obj(a), 'elem', fl.call(fr, node, args[0], [], {}))
    return V(a)


@builtin('collections.deque')
def _deque(fl, fr, node, args, kwargs):
    return _sequence('list')(fl, fr, node, args, kwargs)


@builtin('operator.itemgetter', 'operator.attrgetter')
def _getter(fl, fr, node, args, kwargs):
    return VANY
