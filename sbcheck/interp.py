"""A disjunctive abstract interpreter for the Python subset of the package.

Abstract values are terms (terms.py), abstract states are (heap, facts,
linear constraints, events) (state.py). The interpreter follows all branches
that the facts do not exclude, inlines the package's own functions, and runs
loops over abstract collections to a fixpoint: of the elements of an abstract
collection one is distinguished (the witness 'w', an arbitrary element); all
others are represented by one summary element per collection.

Whatever it cannot model gives an unknown value ('unk'); a path on which a
decision or result depends on one carries a note, and no check reports a
violation on the strength of a path with notes.
"""
import ast
import builtins
import os
import time

from . import terms as T
from .program import Function
from .state import St, Obj, Exc, Logic, skeleton, MAYBE, SOME

NEXT, RET, RAISE, BRK, CONT = 'next', 'ret', 'raise', 'brk', 'cont'

EXT_EXC = {
    'socket.herror': ('socket.herror', 'OSError'),
    'socket.gaierror': ('socket.gaierror', 'OSError'),
    'socket.timeout': ('socket.timeout', 'TimeoutError', 'OSError'),
    'socket.error': ('OSError',),
    'binascii.Error': ('binascii.Error', 'ValueError'),
    'pickle.UnpicklingError': ('pickle.UnpicklingError', 'pickle.PickleError'),
    'pickle.PicklingError': ('pickle.PicklingError', 'pickle.PickleError'),
    'struct.error': ('struct.error',),
    'email.errors.HeaderParseError': ('email.errors.HeaderParseError',
                                      'email.errors.MessageParseError',
                                      'email.errors.MessageError'),
    'requests.exceptions.RequestException': ('requests.exceptions.RequestException', 'OSError'),
    **{n: (n,) + tuple('requests.exceptions.' + b for b in bases) + (
        'requests.exceptions.RequestException', 'OSError')
       for n, bases in (('requests.exceptions.' + n, bases) for n, bases in (
           ('HTTPError', ()), ('ConnectionError', ()), ('SSLError', ('ConnectionError',)),
           ('ProxyError', ('ConnectionError',)), ('Timeout', ()),
           ('ConnectTimeout', ('ConnectionError', 'Timeout')), ('ReadTimeout', ('Timeout',)),
           ('URLRequired', ()), ('TooManyRedirects', ()), ('MissingSchema', ()),
           ('InvalidSchema', ()), ('InvalidURL', ()), ('InvalidHeader', ()),
           ('ChunkedEncodingError', ()), ('ContentDecodingError', ()),
           ('StreamConsumedError', ()), ('RetryError', ())))},
    'shutil.Error': ('shutil.Error', 'OSError'),
    'dbm.error': ('dbm.error',),
    'lockfile.LockTimeout': ('lockfile.LockTimeout', 'lockfile.LockError', 'lockfile.Error'),
    'lockfile.LockFailed': ('lockfile.LockFailed', 'lockfile.LockError', 'lockfile.Error'),
    'lockfile.AlreadyLocked': ('lockfile.AlreadyLocked', 'lockfile.LockError', 'lockfile.Error'),
}


def exc_chain(name):
    """All names under which an exception can be caught."""
    if name in EXT_EXC:
        first = EXT_EXC[name]
        out = list(first)
        for n in first[1:]:
            c = getattr(builtins, n, None)
            if isinstance(c, type):
                out += [x.__name__ for x in c.__mro__]
        return set(out) | {'Exception', 'BaseException'}
    c = getattr(builtins, name, None)
    if isinstance(c, type) and issubclass(c, BaseException):
        return {x.__name__ for x in c.__mro__}
    return None


class Stop(Exception):
    """The analysis of an entry became too large."""


class Joiner:
    """A set of states in which those that differ only in what else may be in
    their lists are joined."""

    def __init__(self, ip):
        self.ip = ip
        self.table = {}
        self.todo = []
        self.count = 0

    def add(self, st, extra=()):
        k = self.ip.key(st, extra=extra, join=True)
        old = self.table.get(k)
        if old is None:
            self.table[k] = (st, extra)
        else:
            new = self.ip.join(old[0], st, old[1], extra)
            if new is None:
                return
            self.table[k] = (new, old[1])
        if k not in self.todo:
            self.todo.append(k)

    def pop(self):
        self.count += 1
        return self.table[self.todo.pop()][0].copy()

    def states(self):
        return [s for s, _x in self.table.values()]


#: When analysis stops; what is left then is undecided.
DEADLINE = time.monotonic() + float(os.environ.get('SBCHECK_SECONDS', '600'))


class Interp(Logic):
    MAX_DEPTH = 40
    MAX_HEADS = 400
    WIDEN = 6     # rounds of a loop before what changes is given up
    MAX_STEPS = 400000

    def __init__(self, program):
        self.summaries = {}
        super().__init__()
        self.p = program
        self.hooks = {}
        self.faults = False          # fork a failure at each modelled I/O call
        self.fault_filter = None
        self.steps = 0
        self.record = None           # (interp, st, symbol, key) -> term
        self.const_override = {}
        self.exact_sort = False
        self.slice_hook = None
        self.length_hook = None
        self.symbolic_globals = set()
        self.call_override = {}      # fid -> fn(interp, st, args, kwargs, node)
        self.visited = {'functions': set(), 'calls': 0, 'branches': 0, 'loops': 0}
        self.unmodelled = {}
        self.sortmap = {}
        self.widened = 0
        self.dropped = 0
        self.global_writes = self._global_writes()
        from .records import Records
        self.records = Records(program)
        from . import models, mail, text, net, bytemem
        self.bytemem = bytemem
        self.models = models.MODELS
        self.methods = models.METHODS
        self.make_list = models.make_list
        self._gcache = {}
        self._live = {}

    def _global_writes(self):
        out = set()
        for f in self.p.functions.values():
            for n in f.own_nodes():
                if isinstance(n, ast.Global):
                    out.update((f.module.name, x) for x in n.names)
        return out

    # ======================================================================
    # helpers
    def tick(self):
        self.steps += 1
        if self.steps % 256 == 0 and time.monotonic() > DEADLINE:
            raise Stop('out of time')
        if self.steps > self.MAX_STEPS:
            raise Stop('too many steps')

    def site(self, st, node, env=None):
        f = None
        if env is not None:
            f = self.p.functions.get(st.heap[env].d.get('fid'))
        elif st.stack:
            f = self.p.functions.get(st.heap[st.stack[-1]].d.get('fid'))
        return ('@', f.module.rel if f else '?', f.qual if f else '?',
                getattr(node, 'lineno', 0))

    def fork(self, atom, st):
        """Yields (state, truth) for the atom."""
        r = self.decide(atom, st)
        if r is not None:
            yield st, r
            return
        self.visited['branches'] += 1
        a, b = st.copy(), st
        a = self.assume(atom, True, a)
        b = self.assume(atom, False, b)
        if a is not None:
            yield a, True
        if b is not None:
            yield b, False

    def raises(self, st, name, node=None, payload=None):
        return st, Exc(name, payload, self.site(st, node))

    def truth(self, t, st, node=None):
        """Yields (state, bool | Exc)."""
        k = t[0]
        if k == 'c':
            yield st, bool(t[2])
        elif k == 'tup':
            yield st, len(t) > 1
        elif k == 'ref':
            o = st.heap[t]
            if o.kind == 'inst':
                for m, conv in (('__bool__', None), ('__len__', 1)):
                    f = self.p.find_method(o.cls, m)
                    if isinstance(f, Function):
                        for s, v in self.call(st, ('bm', f.fid, t), [], {}, node):
                            if isinstance(v, Exc):
                                yield s, v
                            else:
                                yield from self.truth(v, s, node)
                        return
                    if f is not None and f[0] == 'ext' and \
                            not f[1].startswith('builtins.object.'):
                        st.note('truth of an object')
                        yield from self.fork(('bool', T.app('truthy', t)), st)
                        return
                yield st, True
            elif o.kind in ('dict', 'set', 'list', 'stream'):
                yield from self.nonempty(t, st)
            else:
                yield st, True
        elif k == 'view':
            yield from self.nonempty(t[2], st)
        elif k in ('fn', 'cls', 'ext', 'bm', 'bbm', 'mod', 'bext', 'enum', 'enumcls'):
            yield st, True
        elif k == 'unk':
            a, b = st.copy(), st
            a.note('condition on an unknown value: %s' % t[1])
            b.note('condition on an unknown value: %s' % t[1])
            yield a, True
            yield b, False
        else:
            s = self.sort(t, st)
            if s in ('int', 'float') or k == 'rat':
                for s2, r in self.fork(('eq', t, T.C(0)), st):
                    yield s2, not r
            elif s in ('str', 'bytes'):
                if T.const_prefix(t):
                    yield st, True
                    return
                for s2, r in self.fork(('eq', t, T.C('' if s == 'str' else b'')), st):
                    yield s2, not r
            elif s == 'none':
                yield st, False
            else:
                if st.facts.get(('is',) + tuple(sorted((t, T.NONE), key=repr))):
                    yield st, False
                    return
                yield from self.fork(('bool', t), st)

    def nonempty(self, ref, st):
        o = st.heap[ref]
        if o.kind == 'stream':
            yield st, True
            return
        definite, possible = self.size_info(o, st)
        if definite:
            yield st, True
        elif not possible:
            yield st, False
        else:
            f = st.facts.get(('nonempty', ref))
            if f is not None:
                yield st, f
                return
            a, b = st.copy(), st
            a.facts[('nonempty', ref)] = True
            if b.heap[ref].kind == 'list':
                b.heap[ref] = b.heap[ref].with_(exact=True, items=(), wit=(),
                                                others=frozenset())
            else:
                b.heap[ref] = b.heap[ref].with_(items=(), base=None, others=False)
            yield a, True
            yield b, False

    def size_info(self, o, st):
        """(definitely nonempty, possibly nonempty)"""
        if o.kind == 'list':
            if o.exact:
                return bool(o.items), bool(o.items)
            return any(c for _t, c in o.wit), True
        d = any(v is not None and v is not False for _k, v in o.items)
        if not d and o.base is not None:
            for k, v in st.facts.items():
                if k[0] == 'in' and k[2] == o.base and v:
                    if not any(x == k[1] for x, _v in o.items):
                        d = True
        return d, d or bool(o.base) or bool(o.others)

    def mutated(self, st, ref):
        if st.facts.pop(('haslen', ref), None):
            # Its length so far has been looked at: the next is another one.
            st.facts[('lenver', ref)] = (st.facts.get(('lenver', ref), 0) + 1) % 4
            t = self.length_term(st, ref, True)
            hit = lambda x: x == t
            st.facts = {k: v for k, v in st.facts.items() if not T.mentions(k, hit)}
            st.lins = tuple(x for x in st.lins if not T.mentions(x[0], hit))
        st.facts.pop(('nonempty', ref), None)

    def length_term(self, st, ref, peek=False):
        if not peek:
            st.facts[('haslen', ref)] = True
        return T.app('len', ref, T.C(st.facts.get(('lenver', ref), 0)))

    # ======================================================================
    # names
    def lookup(self, st, env, name, node):
        e = env
        first = True
        while e is not None:
            o = st.heap[e]
            if name in o.vars:
                return o.vars[name]
            f = self.p.functions.get(o.d.get('fid'))
            if first and f is not None and not o.d.get('comp') and name in f.local_names:
                return Exc('UnboundLocalError', None, self.site(st, node, env))
            if not o.d.get('comp'):
                first = False
            e = o.d.get('parent')
        return self.global_name(st, st.heap[env].module, name, node)

    def global_name(self, st, modname, name, node=None):
        key = (modname, name)
        if key in st.glob:
            return st.glob[key]
        if key in self.const_override:
            return self.const_override[key]
        if key in self.global_writes or key in self.symbolic_globals:
            return T.S('global:%s.%s' % key)
        if key in self._gcache:
            return self._gcache[key]
        v = self._global_value(modname, name)
        if v is None:
            return Exc('NameError', name, self.site(st, node))
        if not (v[0] == 'ref'):
            self._gcache[key] = v
        else:
            # mutable module-level objects: copy into this state on demand
            return v
        return v

    def _global_value(self, modname, name, depth=0):
        m = self.p.modules[modname]
        bs = m.bindings.get(name)
        if not bs:
            t = self.p.binding(m, name)
            return t
        kind, node = bs[-1]
        if len(bs) > 1 and kind not in ('def', 'class'):
            if all(k == 'assign' for k, _n in bs):
                pass
            elif kind == 'del' or any(k in ('other', 'maybe') for k, _n in bs):
                return T.unk('module variable %s' % name)
        if kind in ('def', 'class', 'import'):
            if kind == 'def' and node.decorator_list:
                return self.decorated(m, node)
            return self.p.binding(m, name)
        if kind == 'from':
            base, n = node
            if base in self.p.modules:
                if n in self.p.modules[base].bindings:
                    if (base, n) in self.global_writes:
                        return T.S('global:%s.%s' % (base, n))
                    if (base, n) in self.const_override:
                        return self.const_override[(base, n)]
                    return self._global_value(base, n, depth + 1)
                if base + '.' + n in self.p.modules:
                    return ('mod', base + '.' + n)
                return None
            return ('ext', base + '.' + n)
        if kind == 'assign':
            return self.const_expr(m, node)
        if kind == 'unpack':
            v = self.const_expr(m, node[0])
            if v[0] == 'tup' and len(v) == node[2] + 1:
                return v[1 + node[1]]
            return T.unk('module variable %s' % name)
        return T.unk('module variable %s' % name)

    def decorated(self, m, node):
        f = self.p.by_node[id(node)]
        t = ('fn', f.fid, None)
        for i, d in reversed(list(enumerate(node.decorator_list))):
            dt = self.p.static_name(m, d.func if isinstance(d, ast.Call) else d)
            if dt is not None and dt[0] in ('fn', 'cls') and isinstance(d, ast.Call):
                t = ('decorated', ('decorator', f.fid, i), t)
            elif dt is not None and dt[0] == 'fn':
                t = ('decorated', dt[1], t)
            elif dt is not None and dt[0] == 'ext' and dt[1] in (
                    'contextlib.contextmanager',):
                t = ('ctxfn', f.fid)
            elif dt is not None and dt[0] == 'cls':
                t = ('decorated', dt, t)
            else:
                t = T.unk('decorator of %s' % f.qual)
        return t

    def const_expr(self, m, node):
        """Evaluates a module-level expression."""
        st = St()
        env = st.new('env', vars={}, parent=None, fid=None, module=m.name)
        st.stack = (env,)
        try:
            rs = list(self.eval(node, st, env))
        except (Stop, RecursionError):
            return T.unk('module expression')
        if len(rs) != 1 or isinstance(rs[0][1], Exc):
            return T.unk('module expression in %s line %d' % (m.rel, node.lineno))
        s, v = rs[0]
        return self.freeze(s, v)

    def freeze(self, st, v):
        """Makes a heap object a constant term, if it can be."""
        if v[0] == 'ref':
            o = st.heap[v]
            if o.kind == 'list' and o.exact:
                return ('frozen', 'list') + tuple(self.freeze(st, x) for x in o.items)
            if o.kind == 'set' and not o.base and not o.others:
                return ('frozen', 'set') + tuple(self.freeze(st, x) for x, p in o.items if p)
            if o.kind == 'dict' and not o.base and not o.others:
                return ('frozen', 'dict') + tuple(
                    ('tup', self.freeze(st, k), self.freeze(st, x))
                    for k, x in o.items if x is not None)
            if o.kind == 'inst':
                return ('frozeninst', o.cls) + tuple(
                    (k, self.freeze(st, x)) for k, x in sorted(o.attrs.items()))
            return T.unk('module-level object')
        if v[0] == 'tup':
            return ('tup',) + tuple(self.freeze(st, x) for x in v[1:])
        if v[0] == 'bm':
            return ('bm', v[1], self.freeze(st, v[2]))
        if v[0] == 'bbm':
            return ('bbm', self.freeze(st, v[1]), v[2])
        return v

    def thaw(self, st, v):
        if v[0] == 'frozen':
            key = ('thawed', v)
            if key in st.glob and st.glob[key] in st.heap:
                return st.glob[key]
            items = tuple(self.thaw(st, x) for x in v[2:])
            if v[1] == 'list':
                r = st.new('list', items=items, exact=True, wit=(), others=frozenset(), order=None)
            elif v[1] == 'set':
                r = st.new('set', items=tuple((x, True) for x in items), base=None, others=False)
            else:
                r = st.new('dict', items=tuple((x[1], self.thaw(st, x[2])) for x in items),
                           base=None, others=False, flavor='dict')
            st.glob[key] = r
            return r
        if v[0] == 'frozeninst':
            key = ('thawed', v)
            if key in st.glob and st.glob[key] in st.heap:
                return st.glob[key]
            r = st.new('inst', cls=v[1], attrs={}, sym=None)
            st.glob[key] = r
            st.upd(r, attrs={k: self.thaw(st, x) for k, x in v[2:]})
            return r
        if v[0] == 'tup' and any(x[0] in ('frozen', 'frozeninst') for x in v[1:]):
            return ('tup',) + tuple(self.thaw(st, x) for x in v[1:])
        if v[0] == 'bm' and v[2][0] == 'frozeninst':
            return ('bm', v[1], self.thaw(st, v[2]))
        if v[0] == 'bbm' and v[1][0] == 'frozen':
            return ('bbm', self.thaw(st, v[1]), v[2])
        return v

    # ======================================================================
    # expressions: yield (state, term | Exc)
    def eval(self, node, st, env):
        self.tick()
        m = getattr(self, 'ev_' + type(node).__name__, None)
        if m is None:
            yield st, T.unk('expression %s' % type(node).__name__)
            return
        yield from m(node, st, env)

    def eval_many(self, nodes, st, env):
        """Yields (state, [terms] | Exc), handling starred items."""
        if not nodes:
            yield st, []
            return
        n = nodes[0]
        star = isinstance(n, ast.Starred)
        for s, v in self.eval(n.value if star else n, st, env):
            if isinstance(v, Exc):
                yield s, v
                continue
            if star:
                if v[0] == 'ref' and s.heap[v].kind in ('gen', 'chain', 'lazy'):
                    outs = self.make_list(self, s, v, n)
                else:
                    outs = [(s, v)]
            else:
                outs = [(s, None)]
            for s1, u in outs:
                if isinstance(u, Exc):
                    yield s1, u
                    continue
                if u is None:
                    xs = [v]
                else:
                    xs = self.exact_items(s1, u)
                    if xs is None:
                        xs = [('star', u)]
                for s2, rest in self.eval_many(nodes[1:], s1, env):
                    if isinstance(rest, Exc):
                        yield s2, rest
                    else:
                        yield s2, xs + rest

    def enum_members(self, v):
        """[(name, member)] of an enumeration, or None."""
        if v[0] == 'enumcls':
            return [(n, ('enum', v[1], n, x)) for n, x in v[2:]]
        if v[0] != 'cls' or v[1] not in self.p.classes or not any(
                b == ('ext', 'enum.Enum') for b in self.p.mro(v[1])):
            return None
        ci = self.p.classes[v[1]]
        out, n = [], 0
        for x in ci.node.body:
            if isinstance(x, ast.Assign) and len(x.targets) == 1 and \
                    isinstance(x.targets[0], ast.Name) and x.targets[0].id[:1] != '_':
                val = self.const_expr(ci.module, x.value)
                if val == T.app('enum.auto'):
                    val = T.C(n + 1)
                if val[0] == 'c' and type(val[2]) is int:
                    n = val[2]
                name = x.targets[0].id
                same = [m for _n, m in out if m[3] == val]
                out.append((name, same[0] if same else ('enum', v[1], name, val)))
        return out

    def members(self, st, v):
        return st.new('dict', items=[(T.C(n), m) for n, m in self.enum_members(v)],
                      base=None, others=None, flavor='dict', ovals=None, ks=None)

    def enum_of(self, st, v, args, node):
        """A member looked up by its value."""
        ms = self.enum_members(v)
        x = args[0]
        if any(x == m for _n, m in ms):
            return st, x
        for _n, m in ms:
            r = self.eq(m[3], x, st)
            if r is True:
                return st, m
            if r is None:
                return st, T.unk('enum call')
        return self.raises(st, 'ValueError', node)

    def enum_member(self, st, v, name, node):
        for n, m in self.enum_members(v):
            if n == name:
                return st, m
        return None

    def exact_items(self, st, v):
        """The items of a collection that is exactly known, or None."""
        if v[0] == 'tup':
            return list(v[1:])
        if v[0] == 'c' and isinstance(v[2], str):
            return [T.C(ch) for ch in v[2]]
        if v[0] == 'c' and isinstance(v[2], bytes):
            return [T.C(ch) for ch in v[2]]
        if v[0] == 'range':
            lo, hi, step = v[1:]
            if all(x[0] == 'c' for x in (lo, hi, step)):
                r = range(lo[2], hi[2], step[2])
                if len(r) <= 300:
                    return [T.C(i) for i in r]
            return None
        if v[0] in ('enumcls', 'cls'):
            ms = self.enum_members(v)
            return None if ms is None else [m for _n, m in ms]
        if v[0] == 'view':
            o = st.heap[v[2]]
            if o.kind == 'dict' and not o.base and not o.others:
                if v[1] == 'keys':
                    return [k for k, x in o.items if x is not None]
                if v[1] == 'values':
                    return [x for k, x in o.items if x is not None]
                return [('tup', k, x) for k, x in o.items if x is not None]
            return None
        if v[0] == 'ref':
            o = st.heap[v]
            if o.kind == 'list' and o.exact:
                return list(o.items)
            if o.kind == 'set' and not o.base and not o.others:
                return [k for k, x in o.items if x]
            if o.kind == 'dict' and not o.base and not o.others:
                return [k for k, x in o.items if x is not None]
        return None

    def ev_Constant(self, node, st, env):
        yield st, T.C(node.value)

    def ev_Name(self, node, st, env):
        v = self.lookup(st, env, node.id, node)
        if not isinstance(v, Exc):
            v = self.thaw(st, v)
        yield st, v

    def ev_NamedExpr(self, node, st, env):
        for s, v in self.eval(node.value, st, env):
            if not isinstance(v, Exc):
                s.setvar(self.var_env(s, env), node.target.id, v)
            yield s, v

    def var_env(self, st, env):
        while st.heap[env].d.get('comp'):
            env = st.heap[env].parent
        return env

    def ev_Tuple(self, node, st, env):
        for s, xs in self.eval_many(node.elts, st, env):
            if isinstance(xs, Exc):
                yield s, xs
            elif any(x[0] == 'star' for x in xs):
                yield s, T.unk('starred item')
            else:
                yield s, ('tup',) + tuple(xs)

    def new_list(self, st, items):
        return st.new('list', items=tuple(items), exact=True, wit=(),
                      others=frozenset(), order=None)

    def ev_List(self, node, st, env):
        for s, xs in self.eval_many(node.elts, st, env):
            if isinstance(xs, Exc):
                yield s, xs
            elif any(x[0] == 'star' for x in xs):
                r = self.new_list(s, [])
                yield from self.extend_all(s, r, xs, node)
            else:
                yield s, self.new_list(s, xs)

    def extend_all(self, st, r, xs, node):
        if not xs:
            yield st, r
            return
        x = xs[0]
        if x[0] == 'star':
            for s, k, v in self.iterate(st, x[1], lambda s, e: self.cb_append(s, r, e), node):
                if k == RAISE:
                    yield s, v
                else:
                    yield from self.extend_all(s, r, xs[1:], node)
        else:
            self.list_append(st, r, x)
            yield from self.extend_all(st, r, xs[1:], node)

    def cb_append(self, s, r, e):
        self.list_append(s, r, e)
        yield s, NEXT, None

    def ev_Set(self, node, st, env):
        for s, xs in self.eval_many(node.elts, st, env):
            if isinstance(xs, Exc):
                yield s, xs
            else:
                r = s.new('set', items=(), base=None, others=False)
                yield from self.add_all(s, r, xs, node)

    def add_all(self, st, r, xs, node):
        if not xs:
            yield st, r
            return
        x = xs[0]
        if x[0] == 'star':
            for s, k, v in self.iterate(st, x[1], lambda s, e: self.cb_add(s, r, e), node):
                if k == RAISE:
                    yield s, v
                else:
                    yield from self.add_all(s, r, xs[1:], node)
        else:
            for s in self.set_add(st, r, x):
                yield from self.add_all(s, r, xs[1:], node)

    def cb_add(self, s, r, e):
        for s2 in self.set_add(s, r, e):
            yield s2, NEXT, None

    def ev_Dict(self, node, st, env):
        if any(k is None for k in node.keys):
            yield st, T.unk('** in dict display')
            return
        for s, ks in self.eval_many(node.keys, st, env):
            if isinstance(ks, Exc):
                yield s, ks
                continue
            for s2, vs in self.eval_many(node.values, s, env):
                if isinstance(vs, Exc):
                    yield s2, vs
                    continue
                r = s2.new('dict', items=(), base=None, others=False, flavor='dict')
                yield from self.set_items(s2, r, list(zip(ks, vs)), node)

    def set_items(self, st, r, kvs, node):
        if not kvs:
            yield st, r
            return
        for s in self.dict_set(st, r, kvs[0][0], kvs[0][1]):
            yield from self.set_items(s, r, kvs[1:], node)

    def ev_Lambda(self, node, st, env):
        yield st, ('fn', self.p.by_node[id(node)].fid, env)

    def ev_IfExp(self, node, st, env):
        for s, v in self.cond(node.test, st, env):
            if isinstance(v, Exc):
                yield s, v
            else:
                yield from self.eval(node.body if v else node.orelse, s, env)

    def cond(self, node, st, env):
        """Yields (state, bool | Exc) for a condition."""
        if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
            for s, v in self.cond(node.operand, st, env):
                yield s, v if isinstance(v, Exc) else not v
            return
        if isinstance(node, ast.BoolOp):
            yield from self.cond_bool(node.values, isinstance(node.op, ast.And), st, env)
            return
        for s, v in self.eval(node, st, env):
            if isinstance(v, Exc):
                yield s, v
            else:
                yield from self.truth(v, s, node)

    def cond_bool(self, values, is_and, st, env):
        for s, v in self.cond(values[0], st, env):
            if isinstance(v, Exc) or len(values) == 1 or v != is_and:
                yield s, v
            else:
                yield from self.cond_bool(values[1:], is_and, s, env)

    def ev_BoolOp(self, node, st, env):
        yield from self._boolop(node.values, isinstance(node.op, ast.And), st, env)

    def _boolop(self, values, is_and, st, env):
        for s, v in self.eval(values[0], st, env):
            if isinstance(v, Exc) or len(values) == 1:
                yield s, v
                continue
            for s2, b in self.truth(v, s, values[0]):
                if isinstance(b, Exc):
                    yield s2, b
                elif b != is_and:
                    yield s2, v
                else:
                    yield from self._boolop(values[1:], is_and, s2, env)

    def ev_UnaryOp(self, node, st, env):
        if isinstance(node.op, ast.Not):
            for s, v in self.cond(node.operand, st, env):
                yield s, v if isinstance(v, Exc) else T.C(not v)
            return
        for s, v in self.eval(node.operand, st, env):
            if isinstance(v, Exc):
                yield s, v
            elif T.is_unk(v):
                yield s, v
            elif isinstance(node.op, ast.USub):
                yield s, T.rneg(v)
            elif isinstance(node.op, ast.UAdd):
                yield s, v
            elif v[0] == 'c' and isinstance(v[2], int):
                yield s, T.C(~v[2])
            else:
                yield s, T.app('invert', v)

    def ev_BinOp(self, node, st, env):
        for s, a in self.eval(node.left, st, env):
            if isinstance(a, Exc):
                yield s, a
                continue
            for s2, b in self.eval(node.right, s, env):
                if isinstance(b, Exc):
                    yield s2, b
                else:
                    yield from self.binop(type(node.op).__name__, a, b, s2, node)

    def stringlike(self, t, st):
        if t[0] == 'c':
            return t[1] in ('str', 'bytes')
        if t[0] == 'cat':
            return True
        return self.sort(t, st) in ('str', 'bytes')

    def parity(self, t, st):
        n, d = T.to_rat(t)
        if d != T.ONE or self.sort(t, st) != 'int':
            return None
        r = 0
        for m, c in n:
            if c.denominator != 1:
                return None
            if m == ():
                r = int(c) % 2
            elif int(c) % 2:
                return None
        return r

    opaque = False               # do not follow the values of floats
    NUM = ('app', 'num')

    def is_float(self, t, st):
        return t == self.NUM or self.sort(t, st) == 'float'

    def binop(self, op, a, b, st, node):
        for x in (a, b):
            if T.is_unk(x):
                yield st, x
                return
        if (a == SOME or b == SOME) and op in ('Add', 'Sub', 'Mult', 'FloorDiv', 'Mod') \
                and a[0] != 'ref' and b[0] != 'ref':
            yield st, SOME
            return
        if self.opaque and a[0] != 'ref' and op in (
                'Add', 'Sub', 'Mult', 'Div', 'Pow', 'FloorDiv', 'Mod') and not \
                self.stringlike(a, st) and not self.stringlike(b, st) and (
                    op == 'Div' or self.is_float(a, st) or self.is_float(b, st)):
            yield st, self.NUM
            return
        if a[0] == 'ref' and op in ('Add', 'BitOr', 'BitAnd', 'Sub', 'Mult', 'BitXor'):
            yield from self.container_op(op, a, b, st, node)
            return
        if op == 'Add':
            if self.stringlike(a, st) or self.stringlike(b, st):
                sa, sb = self.sort(a, st), self.sort(b, st)
                if {sa, sb} == {'str', 'bytes'} or (
                        sa in ('str', 'bytes') and sb in ('int', 'none', 'float', 'bool')) or (
                        sb in ('str', 'bytes') and sa in ('int', 'none', 'float', 'bool')):
                    yield self.raises(st, 'TypeError', node)
                    return
                yield st, self.unwrap(self.cat(a, b), st)
                return
            if a[0] == 'tup' and b[0] == 'tup':
                yield st, a + b[1:]
                return
            if a[0] == 'tup' or b[0] == 'tup':
                yield st, T.app('concat', a, b)
                return
            yield st, T.radd(a, b)
        elif op == 'Sub':
            yield st, T.rsub(a, b)
        elif op == 'Mult':
            if self.stringlike(a, st) or self.stringlike(b, st) or a[0] == 'tup' or b[0] == 'tup':
                if a[0] == 'c' and b[0] == 'c':
                    yield st, T.C(a[2] * b[2])
                else:
                    yield st, T.app('repeat', a, b)
                return
            yield st, T.rmul(a, b)
        elif op == 'Div':
            if b[0] == 'c' and b[2] == 0:
                yield self.raises(st, 'ZeroDivisionError', node)
                return
            if b[0] != 'c' and self.sort(b, st) in ('int', 'float'):
                # Division by something that may be zero.
                if self.eq(b, T.C(0), st) is None and not self.positive(b, st):
                    for s, z in self.fork(('eq', b, T.C(0)), st):
                        if z:
                            yield self.raises(s, 'ZeroDivisionError', node)
                        else:
                            yield s, T.rdiv(a, b)
                    return
            yield st, T.rdiv(a, b)
        elif op == 'Mod' and self.stringlike(a, st):
            yield st, self.percent(a, b, st)
        elif a[0] == 'c' and b[0] == 'c' and a[1] in ('int', 'bool', 'float') and \
                b[1] in ('int', 'bool', 'float'):
            import operator
            f = {'FloorDiv': operator.floordiv, 'Mod': operator.mod,
                 'Pow': operator.pow, 'LShift': operator.lshift,
                 'RShift': operator.rshift, 'BitAnd': operator.and_,
                 'BitOr': operator.or_, 'BitXor': operator.xor}.get(op)
            try:
                yield st, T.C(f(a[2], b[2]))
            except Exception:
                yield st, T.unk('constant operation')
        elif op in ('BitAnd', 'Mod') and b in (T.C(1), T.C(2)) and (op == 'Mod') == (b == T.C(2)) \
                and self.parity(a, st) is not None:
            yield st, T.C(self.parity(a, st))
        elif op == 'Pow' and b[0] == 'c' and isinstance(b[2], int) and 0 <= b[2] <= 8:
            r = T.C(1)
            for _ in range(b[2]):
                r = T.rmul(r, a)
            yield st, r
        elif op == 'FloorDiv' and b[0] == 'c' and b[2] not in (0, True, False) and \
                b[1] == 'int' and T.rdiv(a, b)[0] != 'unk' and \
                self.sort(T.rdiv(a, b), st) == 'int':
            yield st, T.rdiv(a, b)
        else:
            yield st, T.app(op.lower(), a, b)

    def cat(self, *parts):
        ps = []
        for p in parts:
            if p[0] in ('cat', 'fmt') or (p[0] == 'c' and p[1] in ('str', 'bytes')):
                ps.append(p)
            else:
                ps.append(('fmt', '', p))
        return T.cat(ps)

    def fmt(self, t, spec, st, conv=''):
        """The part for a formatted value."""
        if T.is_unk(t):
            return ('fmt', '', t)
        if conv == 'r':
            if t[0] == 'c' and t[1] != 'frac':
                return T.C(repr(t[2]))
            return ('fmt', '', T.app('repr', t))
        if spec in ('d', 's'):
            spec = ''
        if t[0] == 'c' and t[1] in ('str', 'int', 'float', 'NoneType', 'bool') and not spec:
            return T.C(str(t[2]))
        if t[0] == 'c' and t[1] == 'bytes' and not spec:
            return T.C(str(t[2]))
        if t[0] == 'app' and t[1] == 'Header' and not spec:
            from .text import header_text
            h = header_text(t)
            if h is not None:
                return h
        if t[0] == 'enum' and not spec and not any(
                isinstance(self.p.find_method(t[1], m), Function)
                for m in ('__str__', '__format__') if t[1] in self.p.classes):
            return T.C('%s.%s' % (t[1].split(':')[-1].split('.')[-1], t[2]))
        if not spec and self.sort(t, st) == 'bytes':
            return ('fmt', '', T.app('str', t))
        if t[0] == 'cat' and not spec and self.sort(t, st) == 'str':
            return t
        return ('fmt', spec, t)

    def percent(self, a, b, st):
        if a[0] != 'c':
            return T.app('percent', a, b)
        import re
        s = a[2]
        isb = isinstance(s, bytes)
        if isb:
            s = s.decode('latin-1')
        args = list(b[1:]) if b[0] == 'tup' else [b]
        parts = []
        pos = 0
        for m in re.finditer(r'%(?:\((\w+)\))?([-#0 +]*)(\*|\d+)?(?:\.(\*|\d+))?([a-zA-Z%])', s):
            parts.append(T.C(s[pos:m.start()]))
            pos = m.end()
            key, flags, width, prec, conv = m.groups()
            if conv == '%':
                parts.append(T.C('%'))
                continue
            if key or width == '*':
                return T.app('percent', a, b)
            if prec == '*':
                if len(args) < 2:
                    return T.app('percent', a, b)
                pw = args.pop(0)
                x = args.pop(0)
                parts.append(('fmt', '.*' + conv, ('tup', pw, x)))
                continue
            if not args:
                return T.app('percent', a, b)
            x = args.pop(0)
            if conv == 'r':
                parts.append(self.fmt(x, '', st, 'r'))
            elif conv in 'sdi' and not (flags or width or prec):
                parts.append(self.fmt(x, '', st))
            else:
                parts.append(('fmt', (flags or '') + (width or '') +
                              ('.' + prec if prec else '') + conv, x))
        parts.append(T.C(s[pos:]))
        if args:
            return T.app('percent', a, b)
        r = T.cat(parts)
        if isb:
            def enc(x):
                if x[0] == 'c' and x[1] == 'str':
                    return T.C(x[2].encode('latin-1'))
                return x
            if r[0] == 'cat':
                return ('cat',) + tuple(enc(x) for x in r[1:])
            return enc(r)
        return r

    def str_format(self, a, args, kwargs, st):
        import string
        if a[0] != 'c':
            return T.app('format', a, *args)
        parts = []
        auto = 0
        try:
            pieces = list(string.Formatter().parse(a[2]))
        except ValueError:
            return T.unk('format string')
        for lit, field, spec, conv in pieces:
            if lit:
                parts.append(T.C(lit))
            if field is None:
                continue
            if field == '':
                idx = auto
                auto += 1
                x = args[idx] if idx < len(args) else None
            elif field.isdigit():
                x = args[int(field)] if int(field) < len(args) else None
            else:
                x = kwargs.get(field)
            if x is None:
                return T.unk('format arguments')
            parts.append(self.fmt(x, spec or '', st, conv or ''))
        return T.cat(parts)

    def ev_JoinedStr(self, node, st, env):
        yield from self._joined(node.values, [], st, env)

    def _joined(self, values, parts, st, env):
        if not values:
            yield st, T.cat(parts or [T.C('')])
            return
        v = values[0]
        if isinstance(v, ast.Constant):
            yield from self._joined(values[1:], parts + [T.C(v.value)], st, env)
            return
        for s, x in self.eval(v.value, st, env):
            if isinstance(x, Exc):
                yield s, x
                continue
            spec = ''
            if v.format_spec is not None:
                if len(v.format_spec.values) == 1 and isinstance(v.format_spec.values[0], ast.Constant):
                    spec = v.format_spec.values[0].value
                elif v.format_spec.values:
                    yield s, T.unk('format spec')
                    continue
            conv = chr(v.conversion) if v.conversion != -1 else ''
            yield from self._joined(values[1:], parts + [self.fmt(x, spec, s, conv)], s, env)

    # -- comparisons ---------------------------------------------------------
    def ev_Compare(self, node, st, env):
        for s, a in self.eval(node.left, st, env):
            if isinstance(a, Exc):
                yield s, a
            else:
                yield from self._compare(a, list(zip(node.ops, node.comparators)), s, env, node)

    def _compare(self, a, rest, st, env, node):
        op, right = rest[0]
        for s, b in self.eval(right, st, env):
            if isinstance(b, Exc):
                yield s, b
                continue
            for s2, r in self.compare(type(op).__name__, a, b, s, node):
                if isinstance(r, Exc) or r is False or len(rest) == 1:
                    yield s2, r if isinstance(r, Exc) else T.C(r)
                else:
                    yield from self._compare(b, rest[1:], s2, env, node)

    def compare(self, op, a, b, st, node=None):
        """Yields (state, bool | Exc)."""
        if op in ('In', 'NotIn'):
            for s, r in self.contains(a, b, st, node):
                yield s, r if isinstance(r, Exc) or op == 'In' else not r
            return
        if op in ('Is', 'IsNot'):
            for s, r in self.fork(('is', a, b), st):
                yield s, r == (op == 'Is')
            return
        if op in ('Eq', 'NotEq'):
            for x, y in ((a, b), (b, a)):
                if x[0] == 'ref' and st.heap[x].kind == 'inst':
                    f = self.p.find_method(st.heap[x].cls, '__eq__')
                    if isinstance(f, Function):
                        for s, v in self.call(st, ('bm', f.fid, x), [y], {}, node):
                            if isinstance(v, Exc):
                                yield s, v
                                continue
                            for s2, r in self.truth(v, s, node):
                                yield s2, r if isinstance(r, Exc) else r == (op == 'Eq')
                        return
            if a[0] == 'ref' and b[0] == 'ref' and st.heap[a].kind == st.heap[b].kind == 'inst' \
                    and st.heap[a].cls == st.heap[b].cls and self.records.data.get(
                        st.heap[a].cls) and st.heap[a].sym is None and st.heap[b].sym is None:
                names = [f[0] for f in self.records.fields(st.heap[a].cls)]
                xa, xb = (('tup',) + tuple(st.heap[x].attrs.get(n, T.unk('field'))
                                           for n in names) for x in (a, b))
                yield from self.compare(op, xa, xb, st, node)
                return
            if a[0] == 'ref' and b[0] == 'ref':
                xa, xb = self.exact_items(st, a), self.exact_items(st, b)
                if xa is not None and xb is not None:
                    r = self.eq(('tup',) + tuple(xa), ('tup',) + tuple(xb), st)
                    if r is not None and st.heap[a].kind == st.heap[b].kind == 'list':
                        yield st, r == (op == 'Eq')
                        return
            for x, y in ((a, b), (b, a)):
                if x[0] == 'ref' and st.heap[x].kind in ('list', 'dict', 'set') and \
                        self.sort(y, st) in ('str', 'bytes', 'int', 'float', 'bool', 'none',
                                             'tuple', 'header'):
                    yield st, op != 'Eq'
                    return
            if (a[0] == 'ref') != (b[0] == 'ref') or a[0] == 'ref':
                st.note('comparison of objects')
            for s, r in self.fork(('eq', a, b), st):
                yield s, r == (op == 'Eq')
            return
        x, y, strict = {'Lt': (a, b, True), 'LtE': (a, b, False),
                        'Gt': (b, a, True), 'GtE': (b, a, False)}[op]
        for t, u in ((a, b), (b, a)):
            s = self.sort(t, st)
            if s in ('str', 'bytes', 'none', 'tuple') or t[0] in ('ref', 'tup'):
                if s == 'none' and self.sort(u, st) in ('int', 'float'):
                    yield self.raises(st, 'TypeError', node)
                    return
                if a[0] == 'c' and b[0] == 'c':
                    try:
                        yield st, (a[2] < b[2]) if strict else (a[2] <= b[2])
                    except TypeError:
                        yield self.raises(st, 'TypeError', node)
                    return
                for s2, r in self.fork(('bool', T.app('cmp', strict, x, y)), st):
                    if t[0] == 'ref':
                        s2.note('ordering of objects')
                    yield s2, r
                return
        if y == T.C(float('inf')):
            yield st, True
            return
        if x == T.C(float('inf')):
            for s2, r in self.fork(('eq', y, x), st):
                yield s2, r and not strict
            return
        yield from self.fork(('le', strict, x, y), st)

    def shelf_fault(self, st, ref, get, node):
        """States in which a shelf cannot be read."""
        if self.faults and st.heap[ref].d.get('flavor') == 'shelf':
            from .models import fault
            yield from fault(self, st, 'shelfget', ['dbm.error', 'OSError'] + (
                ['pickle.UnpicklingError', 'EOFError'] if get else []), node)

    def contains(self, a, b, st, node):
        if T.is_unk(b) or T.is_unk(a):
            yield from self.truth(T.unk('membership in an unknown value'), st)
            return
        if b[0] == 'view':
            if b[1] == 'keys':
                b = b[2]
            else:
                yield from self.truth(T.unk('membership in a view'), st)
                return
        if b[0] == 'ref':
            o = st.heap[b]
            if o.kind == 'dict':
                yield from self.shelf_fault(st, b, False, node)
                for s, v in self.dict_get(st, b, a):
                    yield s, v is not None
                return
            if o.kind == 'set':
                yield from self.set_contains(st, b, a)
                return
            if o.kind == 'list':
                if o.exact:
                    yield from self.any_eq(a, list(o.items), st)
                else:
                    wit = [t for t, c in o.wit if c]
                    for s, r in self.any_eq(a, wit, st):
                        if r:
                            yield s, True
                        elif self.elemish(a) and o.others or not self.is_elem(a) and o.others:
                            yield from self.fork(('in', a, b), s)
                        else:
                            yield s, False
                return
            if o.kind == 'inst':
                f = self.p.find_method(o.cls, '__contains__')
                if isinstance(f, Function):
                    for s, v in self.call(st, ('bm', f.fid, b), [a], {}, node):
                        if isinstance(v, Exc):
                            yield s, v
                        else:
                            yield from self.truth(v, s, node)
                    return
                if f is not None and f[0] == 'ext':
                    for s, v in self.call(st, ('bext', f[1], b), [a], {}, node):
                        if isinstance(v, Exc):
                            yield s, v
                        else:
                            yield from self.truth(v, s, node)
                    return
                f = self.p.find_method(o.cls, '__iter__')
                if isinstance(f, Function):
                    # membership by iteration
                    def cb(s, e):
                        for s2, r in self.fork(('eq', a, e), s):
                            if r:
                                yield s2, 'found', None
                            else:
                                yield s2, NEXT, None
                    for s, k, v in self.iterate(st, b, cb, node):
                        if k == RAISE:
                            yield s, v
                        else:
                            yield s, k == 'found'
                    return
            if o.kind == 'stream' and not o.oneshot:
                yield from self.fork(('in', a, T.S(o.name)), st)
                return
            yield from self.truth(T.unk('membership in an object'), st)
            return
        if b[0] == 'tup':
            yield from self.any_eq(a, list(b[1:]), st)
            return
        if b[0] == 'c' and isinstance(b[2], (str, bytes)) and a[0] == 'c':
            try:
                yield st, a[2] in b[2]
            except TypeError:
                yield self.raises(st, 'TypeError', node)
            return
        xs = self.exact_items(st, b) if b[0] in ('range',) else None
        if xs is not None:
            yield from self.any_eq(a, xs, st)
            return
        yield from self.fork(('bool', T.app('contains', b, a)), st)

    def any_eq(self, a, items, st):
        if not items:
            yield st, False
            return
        for s, r in self.fork(('eq', a, items[0]), st):
            if r:
                yield s, True
            else:
                yield from self.any_eq(a, items[1:], s)

    def elemish(self, t):
        """Whether the term mentions a summary element."""
        return T.mentions(t, lambda x: x[0] == 's' and len(x) == 2 and
                          isinstance(x[1], str) and ('o:' in x[1] or 'o~' in x[1]))

    def maybe_other(self, key):
        """Whether the key may be one of the forgotten keys of a collection:
        those that have to do with the witness are never forgotten."""
        return self.elemish(key) or not T.mentions(key, lambda x: x == ('s', 'w'))

    # -- containers --------------------------------------------------------------
    def find_key(self, st, items, key):
        """Yields (state, index or None): the entry for the key."""
        def go(s, i):
            if i == len(items):
                yield s, None
                return
            for s2, r in self.fork(('eq', key, items[i][0]), s):
                if r:
                    yield s2, i
                else:
                    yield from go(s2, i + 1)
        # exact matches first: no need to fork
        for i, it in enumerate(items):
            if self.eq(it[0], key, st) is True:
                yield st, i
                return
        yield from go(st, 0)

    def dict_get(self, st, ref, key):
        """Yields (state, value or None)."""
        o = st.heap[ref]
        if o.d.get('flavor') == 'cache':
            # Anything may be in it; nothing about it is remembered.
            yield st.copy(), T.app('item', T.S(o.base), key)
            yield st, None
            return
        if o.d.get('flavor') == 'shelf':
            for s, v in self.dict_get1(st, ref, key):
                if v is not None and v[0] in ('ref', 'tup') and self._refs(v):
                    yield from self.unpickled(s, v, None)
                else:
                    yield s, v
            return
        yield from self.dict_get1(st, ref, key)

    def dict_get1(self, st, ref, key):
        o = st.heap[ref]
        for s, i in self.find_key(st, o.items, key):
            o = s.heap[ref]
            if i is not None:
                yield s, o.items[i][1]
                continue
            if o.base is None:
                if o.others and self.maybe_other(key):
                    yield from self.dict_other(s, ref, key)
                else:
                    yield s, None
                continue
            for s2, r in self.fork(('in', key, o.base), s):
                if r:
                    v = self.base_value(s2, ref, key)
                    s2.heap[ref] = s2.heap[ref].with_(
                        items=s2.heap[ref].items + ((key, v),))
                    yield s2, v
                else:
                    s2.heap[ref] = s2.heap[ref].with_(
                        items=s2.heap[ref].items + ((key, None),))
                    yield s2, None

    def dict_other(self, st, ref, key):
        o = st.heap[ref]
        vs = sorted(o.d.get('ovals', ()), key=repr) or [T.unk('entry added in a loop')]
        for v in vs:
            a = st.copy()
            a.heap[ref] = o.with_(items=o.items + ((key, v),))
            yield a, v
        st.heap[ref] = o.with_(items=o.items + ((key, None),))
        yield st, None

    def pickled(self, st, v, node):
        """Yields (state, what is stored of the value | Exc)."""
        if v[0] == 'tup':
            for s, xs in self.pickled_all(st, list(v[1:]), node):
                yield s, xs if isinstance(xs, Exc) else ('tup',) + tuple(xs)
            return
        if v[0] != 'ref':
            yield st, v
            return
        o = st.heap[v]
        if o.kind in ('dict', 'set'):
            flat = [x for k, y in o.items for x in ((k, y) if o.kind == 'dict' and y else (k,))]
            ov = sorted(o.d.get('ovals', ()), key=repr)
            for s, xs in self.pickled_all(st, flat + ov, node):
                if isinstance(xs, Exc):
                    yield s, xs
                    continue
                it = iter(xs)
                items = []
                for k, y in o.items:
                    k2 = next(it)
                    items.append((k2, next(it) if o.kind == 'dict' and y else y))
                d = dict(o.d, items=tuple(items))
                if ov:
                    d['ovals'] = frozenset(it)
                yield s, s.new(o.kind, **d)
        elif o.kind == 'list':
            flat = list(o.items) + [t for t, _c in o.wit] + sorted(o.others, key=repr)
            for s, xs in self.pickled_all(st, flat, node):
                if isinstance(xs, Exc):
                    yield s, xs
                    continue
                n, m = len(o.items), len(o.wit)
                yield s, s.new('list', **dict(
                    o.d, items=tuple(xs[:n]), others=frozenset(xs[n + m:]),
                    wit=tuple((t, c) for t, (_t, c) in zip(xs[n:n + m], o.wit))))
        elif o.kind == 'inst':
            f = self.p.find_method(o.cls, '__getstate__')
            if isinstance(f, Function):
                for s, t in self.call(st, ('bm', f.fid, v), [], {}, node):
                    if isinstance(t, Exc):
                        yield s, t
                        continue
                    for s2, c in self.pickled(s, t, node):
                        yield s2, c if isinstance(c, Exc) else s2.new(
                            'ext', type='pickled', data={'cls': o.cls, 'state': c})
            else:
                names = sorted(o.attrs)
                for s, xs in self.pickled_all(st, [o.attrs[n] for n in names], node):
                    yield s, xs if isinstance(xs, Exc) else s.new(
                        'ext', type='pickled',
                        data={'cls': o.cls, 'attrs': tuple(zip(names, xs))})
        else:
            st.note('pickling of %s' % o.kind)
            yield st, v

    def pickled_all(self, st, vs, node, fn=None):
        fn = fn or self.pickled
        if not vs:
            yield st, []
            return
        for s, x in fn(st, vs[0], node):
            if isinstance(x, Exc):
                yield s, x
                continue
            for s2, xs in self.pickled_all(s, vs[1:], node, fn):
                yield s2, xs if isinstance(xs, Exc) else [x] + xs

    def unpickled(self, st, v, node):
        """Yields (state, the value read back | Exc)."""
        if v[0] == 'tup':
            for s, xs in self.pickled_all(st, list(v[1:]), node, self.unpickled):
                yield s, xs if isinstance(xs, Exc) else ('tup',) + tuple(xs)
            return
        if v[0] != 'ref':
            yield st, v
            return
        o = st.heap[v]
        if o.kind in ('dict', 'set'):
            flat = [x for k, y in o.items for x in ((k, y) if o.kind == 'dict' and y else (k,))]
            ov = sorted(o.d.get('ovals', ()), key=repr)
            for s, xs in self.pickled_all(st, flat + ov, node, self.unpickled):
                if isinstance(xs, Exc):
                    yield s, xs
                    continue
                it = iter(xs)
                items = []
                for k, y in o.items:
                    k2 = next(it)
                    items.append((k2, next(it) if o.kind == 'dict' and y else y))
                d = dict(o.d, items=tuple(items))
                if ov:
                    d['ovals'] = frozenset(it)
                yield s, s.new(o.kind, **d)
        elif o.kind == 'list':
            flat = list(o.items) + [t for t, _c in o.wit] + sorted(o.others, key=repr)
            for s, xs in self.pickled_all(st, flat, node, self.unpickled):
                if isinstance(xs, Exc):
                    yield s, xs
                    continue
                n, m = len(o.items), len(o.wit)
                yield s, s.new('list', **dict(
                    o.d, items=tuple(xs[:n]), others=frozenset(xs[n + m:]),
                    wit=tuple((t, c) for t, (_t, c) in zip(xs[n:n + m], o.wit))))
        elif o.kind == 'ext' and o.type == 'pickled':
            cls = o.data['cls']
            new = st.new('inst', cls=cls, attrs={}, sym=None)
            if 'attrs' in o.data:
                names = [n for n, _x in o.data['attrs']]
                for s, xs in self.pickled_all(st, [x for _n, x in o.data['attrs']], node,
                                              self.unpickled):
                    if isinstance(xs, Exc):
                        yield s, xs
                        continue
                    s.upd(new, attrs=dict(zip(names, xs)))
                    yield s, new
                return
            for s, t in self.unpickled(st, o.data['state'], node):
                if isinstance(t, Exc):
                    yield s, t
                    continue
                f = self.p.find_method(cls, '__setstate__')
                if not isinstance(f, Function):
                    s.note('no __setstate__ in %s' % cls)
                    yield s, new
                    continue
                for s2, x in self.call(s, ('bm', f.fid, new), [t], {}, node):
                    yield s2, x if isinstance(x, Exc) else new
        else:
            st.note('unpickling of %s' % o.kind)
            yield st, v

    def cached(self, t):
        """Whether the term was found in a dict of which nothing is known."""
        while t[0] == 'app' and t[1] == 'item':
            t = t[2]
        return t[0] == 's' and t[1].startswith('cache:')

    def base_value(self, st, ref, key):
        o = st.heap[ref]
        if self.record is not None:
            v = self.record(self, st, o, key)
            if v is not None:
                return v
        return T.app('item', T.S(o.base), key)

    def dict_set(self, st, ref, key, val):
        """Yields states."""
        o = st.heap[ref]
        if o.d.get('flavor') == 'cache':
            yield st
            return
        for s, i in self.find_key(st, o.items, key):
            o = s.heap[ref]
            self.mutated(s, ref)
            if i is None:
                items = o.items + ((key, val),)
            else:
                old = o.items[i][0]
                items = o.items[:i] + ((old, val),) + o.items[i + 1:]
                if o.items[i][1] is None:       # re-added: at the end
                    items = o.items[:i] + o.items[i + 1:] + ((old, val),)
            s.heap[ref] = o.with_(items=items, ks=self.key_sort(o, key, s))
            yield s

    def key_sort(self, o, key, st):
        """The type of the keys of a collection, to be remembered with it."""
        ks = o.d.get('ks')
        if ks == 'mix':
            return ks
        n = self.sort(key, st)
        n = n if n in ('str', 'bytes', 'int', 'tuple') else 'mix'
        return n if ks in (None, n) else 'mix'

    def elem_name(self, o, kind):
        ks = o.d.get('ks')
        n = o.d.get('base') or kind
        return '%s@%s' % (n, ks) if ks and ks != 'mix' else n

    def dict_del(self, st, ref, key):
        """Yields (state, found)."""
        for s, v in self.dict_get(st, ref, key):
            if v is None:
                yield s, False
                continue
            o = s.heap[ref]
            self.mutated(s, ref)
            items = tuple((k, None if self.eq(k, key, s) else x) for k, x in o.items)
            s.heap[ref] = o.with_(items=items)
            yield s, True

    def set_contains(self, st, ref, e):
        o = st.heap[ref]
        for s, i in self.find_key(st, o.items, e):
            o = s.heap[ref]
            if i is not None:
                yield s, o.items[i][1]
                continue
            if o.base is None:
                if o.others and self.maybe_other(e):
                    a, b = s.copy(), s
                    for x, p in ((a, True), (b, False)):
                        ob = x.heap[ref]
                        x.heap[ref] = ob.with_(items=ob.items + ((e, p),))
                    yield a, True
                    yield b, False
                else:
                    yield s, False
                continue
            for s2, r in self.fork(('in', e, o.base), s):
                ob = s2.heap[ref]
                s2.heap[ref] = ob.with_(items=ob.items + ((e, r),))
                yield s2, r

    def set_put(self, st, ref, e, present):
        """Yields states with e in (or not in) the set."""
        o = st.heap[ref]
        for s, i in self.find_key(st, o.items, e):
            o = s.heap[ref]
            self.mutated(s, ref)
            if i is None:
                items = o.items + ((e, present),)
            else:
                items = o.items[:i] + ((o.items[i][0], present),) + o.items[i + 1:]
            s.heap[ref] = o.with_(items=items, ks=self.key_sort(o, e, s))
            yield s

    def set_add(self, st, ref, e):
        yield from self.set_put(st, ref, e, True)

    def list_append(self, st, ref, e, front=False):
        o = st.heap[ref]
        self.mutated(st, ref)
        if o.kind != 'list':
            st.note('append to %s' % o.kind)
            return
        if o.exact:
            items = ((e,) + o.items) if front else (o.items + (e,))
            st.heap[ref] = o.with_(items=items, order=None)
            if self.elemish(e):
                self.summarise(st, ref)
        else:
            if self.elemish(e):
                st.heap[ref] = o.with_(order=None)
                self.add_other(st, ref, e)
            else:
                d = dict(o.wit)
                d[e] = min(2, d.get(e, 0) + 1)
                st.heap[ref] = o.with_(wit=tuple(sorted(d.items(), key=repr)), order=None)

    def summarise(self, st, ref):
        o = st.heap[ref]
        if not o.exact:
            return
        d = {}
        others = set()
        for e in o.items:
            if self.elemish(e):
                others.add(e)
            else:
                d[e] = min(2, d.get(e, 0) + 1)
        st.heap[ref] = o.with_(exact=False, items=(), wit=tuple(sorted(d.items(), key=repr)),
                               others=frozenset(others), order=None)

    def container_op(self, op, a, b, st, node):
        oa = st.heap[a]
        if oa.kind == 'list' and op == 'Add':
            r = self.new_list(st, [])
            def cb(s, e):
                self.list_append(s, r, e)
                yield s, NEXT, None
            for s, k, v in self.iterate(st, a, cb, node):
                if k == RAISE:
                    yield s, v
                    continue
                for s2, k2, v2 in self.iterate(s, b, cb, node):
                    yield s2, (v2 if k2 == RAISE else r)
            return
        if oa.kind == 'set' or oa.kind == 'dict':
            name = {'BitOr': 'union', 'BitAnd': 'intersection', 'Sub': 'difference'}.get(op)
            if name and oa.kind == 'set':
                yield from self.set_algebra(st, a, b, name, node)
                return
        xs = self.exact_items(st, a)
        if op == 'Mult' and xs is not None and b[0] == 'c' and oa.kind == 'list':
            yield st, self.new_list(st, xs * b[2])
            return
        yield st, T.unk('operation %s on an object' % op)

    def set_algebra(self, st, a, b, name, node):
        """The union/intersection/difference, element by known element."""
        ob = None
        if b[0] == 'view' and b[1] == 'keys':
            b = b[2]
        if b[0] == 'ref':
            ob = st.heap[b]
        if ob is None or ob.kind not in ('set', 'dict', 'list'):
            if b[0] == 'tup' or ob is not None and ob.kind in ('stream', 'gen', 'iter'):
                r = st.new('set', items=(), base=None, others=False)
                for s, k, v in self.iterate(st, b, lambda s, e: self.cb_add(s, r, e), node):
                    if k == RAISE:
                        yield s, v
                    else:
                        yield from self.set_algebra(s, a, r, name, node)
                return
            yield st, T.unk('set operation')
            return
        oa = st.heap[a]
        if oa.base or oa.others or ob.d.get('base') or ob.d.get('others'):
            # membership of the witness and of the known elements only
            known = [k for k, _v in oa.items]
            for k in ([k for k, _v in ob.items] if ob.kind != 'list' else
                      list(ob.items) + [t for t, _c in ob.wit]):
                if k not in known:
                    known.append(k)
            if ('s', 'w') not in known:
                known.append(('s', 'w'))
            others = True
        else:
            known = [k for k, p in oa.items if p]
            for k in (self.exact_items(st, b) or []):
                if k not in known:
                    known.append(k)
            others = False
        def go(s, ks, got):
            if not ks:
                r = s.new('set', items=tuple(got), base=None, others=others)
                yield s, r
                return
            k = ks[0]
            for s2, ina in self.set_contains(s, a, k):
                for s3, inb in self.contains(k, b, s2, node):
                    if isinstance(inb, Exc):
                        yield s3, inb
                        continue
                    p = {'union': ina or inb, 'intersection': ina and inb,
                         'difference': ina and not inb}[name]
                    yield from go(s3, ks[1:], got + [(k, p)])
        yield from go(st, known, [])

    # -- attributes ---------------------------------------------------------------
    def ev_Attribute(self, node, st, env):
        for s, v in self.eval(node.value, st, env):
            if isinstance(v, Exc):
                yield s, v
            else:
                yield from self.getattr(s, v, node.attr, node, env)

    def getattr(self, st, v, name, node=None, env=None):
        k = v[0]
        if k == 'unk':
            yield st, v
        elif k == 'exc' and isinstance(v[1].payload, tuple) and (
                name == 'args' or name in ('errno', 'strerror') and len(v[1].payload) == 2):
            xs = v[1].payload
            yield st, ('tup',) + xs if name == 'args' else xs[name == 'strerror']
        elif k == 'tup' and (self.records.tuples or self.records.calls):
            yield from self.tuple_attr(st, v, name, node)
        elif k == 'ref':
            o = st.heap[v]
            if o.kind == 'inst':
                if name in o.attrs:
                    yield st, o.attrs[name]
                    return
                if name == '__class__':
                    yield st, ('cls', o.cls)
                    return
                f = self.p.find_method(o.cls, name)
                if isinstance(f, Function):
                    for d in f.node.decorator_list:
                        dn = self.p.static_name(f.module, d.func if isinstance(d, ast.Call) else d)
                        if dn == ('ext', 'builtins.property'):
                            yield from self.call(st, ('bm', f.fid, v), [], {}, node)
                            return
                        if dn == ('ext', 'builtins.staticmethod'):
                            yield st, ('fn', f.fid, None)
                            return
                        if dn == ('ext', 'builtins.classmethod'):
                            yield st, ('bm', f.fid, ('cls', o.cls))
                            return
                        if dn and dn[0] == 'fn':
                            yield st, ('bound', ('decorated', dn[1], ('fn', f.fid, None)), v)
                            return
                        yield st, T.unk('decorated method %s' % name)
                        return
                    yield st, ('bm', f.fid, v)
                    return
                if f is not None and f[0] == 'expr':
                    x = self.const_expr(f[1].module, f[2])
                    x = self.thaw(st, x)
                    if x[0] == 'fn':
                        x = ('bm', x[1], v)
                    yield st, x
                    return
                if o.sym is not None:
                    t = self.sym_attr(st, v, o, name)
                    if t is not None:
                        yield st, t
                        return
                if f is not None and f[0] == 'ext':
                    yield st, ('bext', f[1], v)
                    return
                yield self.raises(st, 'AttributeError', node, T.C(name))
                return
            if o.kind == 'ext' and name in o.data:
                yield st, o.data[name]
                return
            yield st, ('bbm', v, name)
        elif k == 'mod':
            m = self.p.modules[v[1]]
            if name in m.bindings:
                x = self.global_name(st, v[1], name, node)
                yield st, x if isinstance(x, Exc) else self.thaw(st, x)
            elif v[1] + '.' + name in self.p.modules:
                yield st, ('mod', v[1] + '.' + name)
            else:
                yield self.raises(st, 'AttributeError', node, T.C(name))
        elif k == 'ext':
            yield st, self.ext_attr(v[1], name)
        elif k in ('cls', 'ntcls') and name == '_make' and (
                k == 'ntcls' or v[1] in self.records.tuples):
            yield st, ('ntmake', v)
        elif k in ('cls', 'ntcls') and name == '_fields' and (
                k == 'ntcls' or v[1] in self.records.tuples):
            yield st, ('tup',) + tuple(T.C(f[0]) for f in (
                v[1] if k == 'ntcls' else self.records.tuples[v[1]]))
        elif k == 'cls':
            f = self.p.find_method(v[1], name)
            ms = self.enum_members(v)
            if ms is not None and name in dict(ms):
                yield st, dict(ms)[name]
                return
            if ms is not None and name == '__members__':
                yield st, self.members(st, v)
                return
            if isinstance(f, Function):
                for d in f.node.decorator_list:
                    dn = self.p.static_name(f.module, d.func if isinstance(d, ast.Call) else d)
                    if dn == ('ext', 'builtins.classmethod'):
                        yield st, ('bm', f.fid, v)
                        return
                    if dn != ('ext', 'builtins.staticmethod'):
                        yield st, T.unk('decorated method %s' % name)
                        return
                yield st, ('fn', f.fid, None)
            elif f is None:
                if name in ('__name__', '__qualname__'):
                    yield st, T.C(v[1].split(':')[1].split('.')[-1])
                else:
                    yield self.raises(st, 'AttributeError', node, T.C(name))
            elif f[0] == 'expr':
                yield st, self.thaw(st, self.const_expr(f[1].module, f[2]))
            else:
                yield st, ('ext', f[1])
        elif k == 'super':
            o = st.heap[v[2]] if v[2][0] == 'ref' else None
            f = self.p.find_method(o.cls if o else v[2][1], name, after=v[1])
            if isinstance(f, Function):
                yield st, ('bm', f.fid, v[2])
            elif f is None:
                if name in ('__init__',):
                    yield st, ('ext', 'builtins.object.__init__')
                else:
                    yield self.raises(st, 'AttributeError', node, T.C(name))
            elif f[0] == 'ext':
                yield st, ('bext', f[1], v[2])
            else:
                yield st, self.const_expr(f[1].module, f[2])
        elif k == 'enum' and name in ('name', '_name_'):
            yield st, T.C(v[2])
        elif k == 'enum' and name in ('value', '_value_') and len(v) > 3:
            yield st, v[3]
        elif k in ('enum', 'enumcls'):
            r = self.enum_member(st, ('enumcls',) + v[1:], name, node) if k == 'enumcls' else None
            if r is not None:
                yield r
            elif k == 'enumcls' and name == '__members__':
                yield st, self.members(st, v)
            elif k == 'enumcls' and name in ('__name__', '__qualname__'):
                yield st, T.C(v[1])
            elif k == 'enum' and v[1] in self.p.classes and isinstance(
                    self.p.find_method(v[1], name), Function):
                yield st, ('bm', self.p.find_method(v[1], name).fid, v)
            elif k == 'enum' and name.startswith('__'):
                yield st, ('bbm', v, name)
            else:
                yield self.raises(st, 'AttributeError', node, T.C(name))
        elif k == 's' or k == 'app':
            t = self.attr_of_symbol(st, v, name)
            yield st, t
        else:
            yield st, ('bbm', v, name)

    def tuple_attr(self, st, v, name, node):
        known, i = self.records.index(v, name)
        if i is not None:
            yield st, v[i + 1]
            return
        if not known:
            st.note('which field of a named tuple')
            yield st, T.unk('field of a tuple')
            return
        m = self.records.method(v, name)
        if m is None:
            yield st, ('bbm', v, name)
            return
        names = [self.p.static_name(m.module, d) for d in m.node.decorator_list]
        if not names:
            yield st, ('bm', m.fid, v)
        elif names == [('ext', 'builtins.property')]:
            yield from self.call(st, ('bm', m.fid, v), [], {}, node)
        elif names == [('ext', 'builtins.staticmethod')]:
            yield st, ('fn', m.fid, None)
        else:
            yield st, T.unk('decorated method %s' % name)

    PURE_METHODS = {'lower', 'upper', 'strip', 'lstrip', 'rstrip', 'split',
                    'startswith', 'endswith', 'decode', 'encode', 'replace',
                    'format', 'join', 'find', 'count', 'splitlines', 'rsplit',
                    'partition', 'rpartition', 'translate', 'isdigit', 'index',
                    'title', 'capitalize', 'isspace', 'isalpha', 'zfill', 'casefold'}

    def attr_of_symbol(self, st, v, name):
        """An attribute of a value that is only a symbol."""
        if v[:2] == ('app', 'struct') and name in ('size', 'format'):
            if name == 'format':
                return v[2]
            f = self.bytemem.numbers(v[2][2]) if v[2][0] == 'c' else None
            return T.C(4 * f[1]) if f else T.unk('size')
        s = self.sort(v, st)
        if s in ('str', 'bytes') or name in self.PURE_METHODS:
            return ('bbm', v, name)
        if self.attr_hook is not None:
            t = self.attr_hook(self, st, v, name)
            if t is not None:
                return t
        return ('bbm', v, name)

    attr_hook = None

    def sym_attr(self, st, ref, o, name):
        return None

    def ext_attr(self, dotted, name):
        d = dotted + '.' + name
        if d == 'math.inf':
            return T.C(float('inf'))
        if d == 'pickle.HIGHEST_PROTOCOL':
            return T.C(5)
        if d == 'os.sep':
            return T.C('/')
        if d == 'os.curdir':
            return T.C('.')
        if d == 'os.pardir':
            return T.C('..')
        return ('ext', d)

    # -- subscripts -------------------------------------------------------------
    def ev_Subscript(self, node, st, env):
        for s, v in self.eval(node.value, st, env):
            if isinstance(v, Exc):
                yield s, v
                continue
            if isinstance(node.slice, ast.Slice):
                yield from self.ev_slice(node, v, s, env)
                continue
            for s2, i in self.eval(node.slice, s, env):
                if isinstance(i, Exc):
                    yield s2, i
                else:
                    yield from self.getitem(s2, v, i, node)

    def eval_slice(self, sl, st, env):
        parts = [sl.lower, sl.upper, sl.step]
        def go(s, i, got):
            if i == 3:
                yield s, got
                return
            if parts[i] is None:
                yield from go(s, i + 1, got + [None])
                return
            for s2, v in self.eval(parts[i], s, env):
                if isinstance(v, Exc):
                    yield s2, v
                else:
                    yield from go(s2, i + 1, got + [None if v == T.NONE else v])
        yield from go(st, 0, [])

    def ev_slice(self, node, v, st, env):
        for s, sl in self.eval_slice(node.slice, st, env):
            if isinstance(sl, Exc):
                yield s, sl
            else:
                yield from self.getslice(s, v, sl, node)

    def const_slice(self, sl):
        out = []
        for x in sl:
            if x is None:
                out.append(None)
            elif x[0] == 'c' and isinstance(x[2], int):
                out.append(x[2])
            else:
                return None
        return slice(*out)

    def getslice(self, st, v, sl, node):
        cs = self.const_slice(sl)
        if T.is_unk(v):
            yield st, v
            return
        if self.slice_hook is not None:
            r = self.slice_hook(self, st, v, sl, node)
            if r is not None:
                yield from r
                return
        if v[0] == 'c' and isinstance(v[2], (str, bytes)) and cs is not None:
            yield st, T.C(v[2][cs])
            return
        if v[0] == 'tup' and cs is not None:
            yield st, ('tup',) + tuple(v[1:][cs])
            return
        if v[0] == 'cat' and cs is not None and cs.step is None and cs.stop is None \
                and cs.start is not None and cs.start >= 0:
            p = T.const_prefix(v)
            if len(p) >= cs.start:
                rest = p[cs.start:]
                yield st, self.unwrap(T.cat(((T.C(rest),) if rest else ()) + v[2:]), st)
                return
        if v[0] == 'ref':
            o = st.heap[v]
            if o.kind == 'list':
                if o.exact and cs is not None:
                    yield st, self.new_list(st, o.items[cs])
                    return
                yield from self.slice_summary(st, v, sl, node)
                return
            yield st, T.unk('slice of an object')
            return
        if v[0] == 'range' and cs is not None:
            xs = self.exact_items(st, v)
            if xs is not None:
                yield st, ('tup',) + tuple(xs[cs])
                return
        yield st, T.app('slice', v, *(x if x is not None else T.NONE for x in sl))

    def unwrap(self, t, st):
        """A concatenation of one string is that string."""
        if t[0] == 'cat' and len(t) == 2 and t[1][0] == 'fmt' and t[1][1] == '' \
                and self.sort(t[1][2], st) in ('str', 'bytes'):
            return t[1][2]
        if t[0] == 'cat' and len(t) == 2 and t[1][0] == 'c':
            return t[1]
        return t

    def slice_summary(self, st, ref, sl, node, out=None):
        """A slice of an abstract list: the witness is in it or cut off."""
        o = st.heap[ref]
        keep = self.keep_of_slice(sl)
        if out is None:
            out = st.new('list', items=(), exact=False, wit=o.wit, others=o.others,
                         order=o.order)
        if keep == ('all',):
            st.heap[out] = st.heap[out].with_(wit=o.wit, others=o.others, order=o.order)
            yield st, out
            return
        cut = [t for t, c in o.wit if c]
        if not cut:
            st.event('cap', keep, o.order, 'none', self.site(st, node))
            yield st, out
            return
        a, b = st.copy(), st
        a.event('cap', keep, o.order, 'kept', self.site(a, node))
        yield a, out
        b.event('cap', keep, o.order, 'cut', self.site(b, node))
        b.heap[out] = b.heap[out].with_(wit=())
        yield b, out

    def keep_of_slice(self, sl):
        lo, hi, step = sl
        if step is not None and step != T.C(1):
            if step == T.C(-1) and lo is None and hi is None:
                return ('reverse',)
            return ('?',)
        if (lo is None or lo == T.C(0)) and hi is None:
            return ('all',)
        if hi is None and lo is not None:
            return ('last', T.rneg(lo))
        if lo is None or lo == T.C(0):
            return ('first', hi)
        return ('?',)

    def getitem(self, st, v, i, node):
        k = v[0]
        if T.is_unk(v):
            yield st, v
            return
        if k == 'tup':
            if i[0] == 'c' and isinstance(i[2], int):
                xs = v[1:]
                if -len(xs) <= i[2] < len(xs):
                    yield st, xs[i[2]]
                else:
                    yield self.raises(st, 'IndexError', node)
                return
            yield st, T.unk('index of a tuple')
            return
        ms = self.enum_members(v) if k in ('enumcls', 'cls') else None
        if ms is not None and i[0] == 'c':
            r = dict(ms).get(i[2])
            yield (st, r) if r is not None else self.raises(st, 'KeyError', node, i)
            return
        if k == 'c' and isinstance(v[2], (str, bytes)) and i[0] == 'c' and isinstance(i[2], int):
            try:
                yield st, T.C(v[2][i[2]])
            except IndexError:
                yield self.raises(st, 'IndexError', node)
            return
        if k == 'ref':
            o = st.heap[v]
            if o.kind == 'dict':
                yield from self.shelf_fault(st, v, True, node)
                for s, x in self.dict_get(st, v, i):
                    if x is None:
                        f = s.heap[v].d.get('factory')
                        if f is not None:
                            for s2, y in self.call(s, f, [], {}, node):
                                if isinstance(y, Exc):
                                    yield s2, y
                                    continue
                                for s3 in self.dict_set(s2, v, i, y):
                                    yield s3, y
                            continue
                        yield self.raises(s, 'KeyError', node, i)
                    else:
                        if o.d.get('flavor') == 'shelf':
                            s.event('dbget', v, i)
                        yield s, x
                return
            if o.kind == 'list':
                if o.exact:
                    if i[0] == 'c' and isinstance(i[2], int):
                        if -len(o.items) <= i[2] < len(o.items):
                            yield st, o.items[i[2]]
                        else:
                            yield self.raises(st, 'IndexError', node)
                        return
                    yield st, T.unk('index of a list')
                    return
                # Any element: the witnesses or another one.
                outs = []
                for t, c in o.wit:
                    if c:
                        outs.append((st.copy(), t))
                for t in sorted(o.others, key=repr):
                    outs.append((st.copy(), t))
                for s, t in outs:
                    yield s, t
                if not outs:
                    yield st, T.unk('index of an abstract list')
                return
            if o.kind == 'inst':
                f = self.p.find_method(o.cls, '__getitem__')
                if isinstance(f, Function):
                    yield from self.call(st, ('bm', f.fid, v), [i], {}, node)
                    return
                if f is not None and f[0] == 'ext':
                    yield from self.call(st, ('bext', f[1], v), [i], {}, node)
                    return
            yield st, T.unk('subscript of an object')
            return
        if k in ('s', 'app'):
            if self.item_hook is not None:
                r = self.item_hook(self, st, v, i, node)
                if r is not None:
                    yield from r
                    return
            if self.cached(v):
                yield self.raises(st.copy(), 'KeyError', node)
            yield st, T.app('item', v, i)
            return
        if k == 'c' and not isinstance(v[2], (str, bytes)):
            yield self.raises(st, 'TypeError', node)
            return
        yield st, T.unk('subscript')

    item_hook = None

    # -- comprehensions ------------------------------------------------------------
    def comp_env(self, st, env):
        o = st.heap[env]
        return st.new('env', vars={}, parent=env, fid=o.d.get('fid'),
                      module=o.module, comp=True)

    def run_comp(self, node, gens, st, cenv, cb):
        """Runs the generators of a comprehension, calling cb(state)."""
        g = gens[0]
        for s, it in self.eval(g.iter, st, cenv):
            if isinstance(it, Exc):
                yield s, RAISE, it
                continue
            names = {n.id for n in ast.walk(g.target) if isinstance(n, ast.Name)}

            def each(s2, e):
                for s3, k3, v3 in each1(s2, e):
                    if k3 in (NEXT, CONT):
                        # The targets are dead at the head of the loop.
                        vars = s3.heap[cenv].vars
                        s3.upd(cenv, vars={k: v for k, v in vars.items() if k not in names})
                    yield s3, k3, v3

            def each1(s2, e):
                for s3, x in self.assign(g.target, e, s2, cenv, node):
                    if isinstance(x, Exc):
                        yield s3, RAISE, x
                        continue
                    for s4, r in self.conds(g.ifs, s3, cenv):
                        if isinstance(r, Exc):
                            yield s4, RAISE, r
                        elif not r:
                            yield s4, NEXT, None
                        elif len(gens) > 1:
                            yield from self.run_comp(node, gens[1:], s4, cenv, cb)
                        else:
                            yield from cb(s4)
            yield from self.iterate(s, it, each, node)

    def conds(self, ifs, st, env):
        if not ifs:
            yield st, True
            return
        for s, r in self.cond(ifs[0], st, env):
            if isinstance(r, Exc) or not r:
                yield s, r
            else:
                yield from self.conds(ifs[1:], s, env)

    def ev_ListComp(self, node, st, env):
        r = self.new_list(st, [])
        cenv = self.comp_env(st, env)
        st.stack = st.stack + (cenv, r)
        depth = len(st.stack)
        def cb(s):
            for s2, v in self.eval(node.elt, s, cenv):
                if isinstance(v, Exc):
                    yield s2, RAISE, v
                else:
                    self.list_append(s2, r, v)
                    yield s2, NEXT, None
        for s, k, v in self.run_comp(node, node.generators, st, cenv, cb):
            s.stack = s.stack[:depth - 2]
            if k == RAISE:
                yield s, v
            else:
                self.carry_order(s, r, node, cenv)
                yield s, r

    def carry_order(self, st, r, node, cenv):
        """A comprehension over an ordered list keeps its order."""
        g = node.generators[0]
        if len(node.generators) != 1 or not isinstance(g.iter, ast.Name):
            return
        try:
            v = self.lookup(st, cenv, g.iter.id, node)
        except KeyError:
            return
        if isinstance(v, tuple) and v[0] == 'ref' and v in st.heap and \
                st.heap[v].kind == 'list' and st.heap[v].order and not st.heap[r].exact:
            st.heap[r] = st.heap[r].with_(order=('of', st.heap[v].order))

    def ev_SetComp(self, node, st, env):
        r = st.new('set', items=(), base=None, others=False)
        cenv = self.comp_env(st, env)
        st.stack = st.stack + (cenv, r)
        depth = len(st.stack)
        def cb(s):
            for s2, v in self.eval(node.elt, s, cenv):
                if isinstance(v, Exc):
                    yield s2, RAISE, v
                else:
                    for s3 in self.set_add(s2, r, v):
                        yield s3, NEXT, None
        for s, k, v in self.run_comp(node, node.generators, st, cenv, cb):
            s.stack = s.stack[:depth - 2]
            yield s, (v if k == RAISE else r)

    def ev_DictComp(self, node, st, env):
        r = st.new('dict', items=(), base=None, others=False, flavor='dict')
        cenv = self.comp_env(st, env)
        st.stack = st.stack + (cenv, r)
        depth = len(st.stack)
        def cb(s):
            for s2, k in self.eval(node.key, s, cenv):
                if isinstance(k, Exc):
                    yield s2, RAISE, k
                    continue
                for s3, v in self.eval(node.value, s2, cenv):
                    if isinstance(v, Exc):
                        yield s3, RAISE, v
                        continue
                    for s4 in self.dict_set(s3, r, k, v):
                        yield s4, NEXT, None
        for s, k, v in self.run_comp(node, node.generators, st, cenv, cb):
            s.stack = s.stack[:depth - 2]
            yield s, (v if k == RAISE else r)

    def ev_GeneratorExp(self, node, st, env):
        # The first iterable is evaluated at once, the rest lazily.
        for s, it in self.eval(node.generators[0].iter, st, env):
            if isinstance(it, Exc):
                yield s, it
            else:
                yield s, s.new('gen', node=node, env=env, first=it, fid=None, done=False)

    def ev_Starred(self, node, st, env):
        yield st, T.unk('starred expression')

    def ev_Yield(self, node, st, env):
        if node.value is None:
            vals = [(st, T.NONE)]
        else:
            vals = self.eval(node.value, st, env)
        for s, v in vals:
            if isinstance(v, Exc):
                yield s, v
                continue
            yield from self.do_yield(s, v, env)

    def do_yield(self, s, v, env):
        h = self.hooks.get(self.var_env(s, env))
        if h is None:
            yield s, T.unk('yield')
            return
        for s2, k, x in h(s, v):
            if k in (NEXT, CONT):
                yield s2, T.NONE
            elif k == RAISE:
                yield s2, x
            else:
                yield s2, Exc('$exit', (k, x))

    def ev_YieldFrom(self, node, st, env):
        for s, it in self.eval(node.value, st, env):
            if isinstance(it, Exc):
                yield s, it
                continue
            def cb(s2, e):
                for s3, v in self.do_yield(s2, e, env):
                    if isinstance(v, Exc):
                        yield s3, RAISE, v
                    else:
                        yield s3, NEXT, None
            for s2, k, v in self.iterate(s, it, cb, node):
                if k == RAISE:
                    yield s2, v
                else:
                    yield s2, T.NONE

    # ======================================================================
    # calls
    def ev_Call(self, node, st, env):
        # super()
        if isinstance(node.func, ast.Name) and node.func.id == 'super' and not node.args:
            f = self.p.functions[st.heap[self.var_env(st, env)].fid]
            e = self.var_env(st, env)
            while f.cls is None or not f.node.args.args and st.heap[e].d.get('parent'):
                e = st.heap[e].parent
                f = self.p.functions[st.heap[e].fid]
            a = f.node.args.args[0].arg
            yield st, ('super', f.cls.name, st.heap[e].vars[a])
            return
        for s, f in self.eval(node.func, st, env):
            if isinstance(f, Exc):
                yield s, f
                continue
            for s2, args in self.eval_many(node.args, s, env):
                if isinstance(args, Exc):
                    yield s2, args
                    continue
                for s3, kws in self.eval_kw(node.keywords, s2, env):
                    if isinstance(kws, Exc):
                        yield s3, kws
                        continue
                    yield from self.call(s3, f, args, kws, node)

    def eval_kw(self, keywords, st, env):
        if not keywords:
            yield st, {}
            return
        k = keywords[0]
        for s, v in self.eval(k.value, st, env):
            if isinstance(v, Exc):
                yield s, v
                continue
            if k.arg is None:
                d = None
                if v[0] == 'ref' and s.heap[v].kind == 'dict' and not s.heap[v].base \
                        and not s.heap[v].others and all(
                            x[0][0] == 'c' for x in s.heap[v].items):
                    d = {x[0][2]: x[1] for x in s.heap[v].items if x[1] is not None}
                if d is None:
                    d = {'**': v}
            else:
                d = {k.arg: v}
            for s2, rest in self.eval_kw(keywords[1:], s, env):
                if isinstance(rest, Exc):
                    yield s2, rest
                else:
                    yield s2, {**d, **rest}

    def call(self, st, f, args, kwargs, node=None):
        """Yields (state, term | Exc)."""
        self.tick()
        self.visited['calls'] += 1
        k = f[0]
        if k == 'fn':
            yield from self.call_fn(st, f[1], f[2] if len(f) > 2 else None, args, kwargs, node)
        elif k == 'bm':
            yield from self.call_fn(st, f[1], None, [f[2]] + list(args), kwargs, node)
        elif k == 'bound':
            yield from self.call(st, f[1], [f[2]] + list(args), kwargs, node)
        elif k == 'cls':
            yield from self.instantiate(st, f[1], args, kwargs, node)
        elif k == 'decorated':
            yield from self.call_decorated(st, f, args, kwargs, node)
        elif k == 'ctxfn':
            r = st.new('gen', fid=f[1], args=tuple(args), kwargs=tuple(sorted(kwargs.items())),
                       fenv=f[2] if len(f) > 2 else None, ctx=True, done=False)
            yield st, r
        elif k == 'partial':
            kw = dict(f[3])
            kw.update(kwargs)
            yield from self.call(st, f[1], list(f[2]) + list(args), kw, node)
        elif k == 'ext':
            yield from self.call_ext(st, f[1], args, kwargs, node)
        elif k == 'bext':
            name = f[1]
            m = self.models.get('.' + name.split('.')[-1] if False else name)
            if m is not None:
                yield from m(self, st, [f[2]] + list(args), kwargs, node)
            else:
                yield from self.unmodelled_call(st, name, [f[2]] + list(args), kwargs, node)
        elif k == 'bbm':
            yield from self.call_method(st, f[1], f[2], args, kwargs, node)
        elif k == 'ref':
            o = st.heap[f]
            if o.kind == 'inst':
                m = self.p.find_method(o.cls, '__call__')
                if isinstance(m, Function):
                    yield from self.getcall(st, m, f, args, kwargs, node)
                    return
            yield from self.unmodelled_call(st, 'object', args, kwargs, node)
        elif k == 'unk':
            self.havoc(st, args)
            st.note('call of an unknown value: %s' % f[1])
            yield st, T.unk('call of an unknown value')
        elif k in ('s', 'app'):
            st.event('call', f, tuple(args), tuple(sorted(kwargs.items())), self.site(st, node))
            if self.faults:
                s2 = st.copy()
                yield self.raises(s2, '*', node)
            yield st, T.app('call', f, *args)
        elif k == 'enumcls' and len(args) == 1:
            yield self.enum_of(st, f, args, node)
        elif k in ('enum', 'enumcls'):
            yield st, T.unk('call of an enum member')
        elif k == 'getter':
            def items(s, idx, got):
                if not idx:
                    yield s, got[0] if len(got) == 1 else ('tup',) + tuple(got)
                    return
                for s2, v in self.getitem(s, args[0], idx[0], node):
                    if isinstance(v, Exc):
                        yield s2, v
                    else:
                        yield from items(s2, idx[1:], got + [v])
            yield from items(st, f[1:], [])
        elif k == 'wraps':
            yield st, args[0]
        elif k == 'ntcls':
            yield from self.new_tuple(st, self.records.calls[f[2]], args, kwargs, node)
        elif k == 'ntmake':
            xs = self.exact_items(st, args[0]) if len(args) == 1 and not kwargs else None
            if xs is None:
                xs = [('star', args[0])] if args else []
            yield from self.call(st, f[1], list(xs), {}, node)
        else:
            yield from self.unmodelled_call(st, str(f[:2]), args, kwargs, node)

    def getcall(self, st, m, ref, args, kwargs, node):
        if m.node.decorator_list:
            for s, g in self.getattr(st, ref, m.name, node):
                if isinstance(g, Exc):
                    yield s, g
                else:
                    yield from self.call(s, g, args, kwargs, node)
            return
        yield from self.call_fn(st, m.fid, None, [ref] + list(args), kwargs, node)

    def call_decorated(self, st, f, args, kwargs, node):
        # Apply the decorator to the function, once.
        key = ('decorated value', f)
        if key in st.glob:
            yield from self.call(st, st.glob[key], args, kwargs, node)
            return
        for s, d in self.decorator(st, f[1], node):
            if isinstance(d, Exc):
                yield s, d
                continue
            for s2, g in self.call(s, d, [f[2]], {}, node):
                if isinstance(g, Exc):
                    yield s2, g
                    continue
                s2.glob[key] = g
                yield from self.call(s2, g, args, kwargs, node)

    def decorator(self, st, d, node):
        if not isinstance(d, tuple):
            yield st, ('fn', d, None)
        elif d[0] == 'decorator':
            # The expression at the i-th decorator of a function.
            f = self.p.functions[d[1]]
            env = st.new('env', vars={}, parent=None, fid=None, module=f.module.name)
            old = st.stack
            st.stack = old + (env,)
            for s, v in self.eval(f.node.decorator_list[d[2]], st, env):
                s.stack = old
                yield s, v
        else:
            yield st, d

    def bind_args(self, st, f, fenv, args, kwargs, node):
        """(vars, None) or (None, Exc)."""
        a = f.node.args
        params = [x.arg for x in a.posonlyargs + a.args]
        vars = {}
        args = list(args)
        if any(x[0] == 'star' for x in args) or '**' in kwargs:
            # Unknown arguments: give every parameter an unknown value.
            for p in params + [x.arg for x in a.kwonlyargs]:
                vars[p] = T.unk('argument %s' % p)
            i = 0
            for x in args:
                if x[0] == 'star' or i >= len(params):
                    break
                vars[params[i]] = x
                i += 1
            for k2, v in kwargs.items():
                if k2 in vars:
                    vars[k2] = v
            if a.vararg:
                vars[a.vararg.arg] = T.unk('arguments')
                if args and args[-1][0] == 'star' and len(args) - 1 == len(params):
                    vars[a.vararg.arg] = args[-1][1]
            if a.kwarg:
                vars[a.kwarg.arg] = kwargs.get('**', T.unk('arguments'))
            return vars, None
        extra = args[len(params):]
        for p, v in zip(params, args):
            vars[p] = v
        if extra:
            if a.vararg:
                pass
            else:
                return None, Exc('TypeError', 'arguments', self.site(st, node))
        if a.vararg:
            vars[a.vararg.arg] = ('tup',) + tuple(extra)
        kwonly = [x.arg for x in a.kwonlyargs]
        rest = {}
        for k2, v in kwargs.items():
            if k2 in params or k2 in kwonly:
                if k2 in vars:
                    return None, Exc('TypeError', 'arguments', self.site(st, node))
                vars[k2] = v
            elif a.kwarg:
                rest[k2] = v
            else:
                return None, Exc('TypeError', 'arguments', self.site(st, node))
        if a.kwarg:
            vars[a.kwarg.arg] = st.new(
                'dict', items=tuple((T.C(k2), v) for k2, v in rest.items()),
                base=None, others=False, flavor='dict')
        nd = len(a.defaults)
        for p, d in zip(params[len(params) - nd:], a.defaults):
            if p not in vars:
                vars[p] = self.default(st, f, d)
        for p, d in zip(kwonly, a.kw_defaults):
            if p not in vars and d is not None:
                vars[p] = self.default(st, f, d)
        for p in params + kwonly:
            if p not in vars:
                return None, Exc('TypeError', 'arguments', self.site(st, node))
        return vars, None

    def default(self, st, f, d):
        return self.thaw(st, self.const_expr(f.module, d))

    dedupe = True

    def call_fn(self, st, fid, fenv, args, kwargs, node):
        ov = self.call_override.get(fid)
        if ov is not None:
            r = ov(self, st, args, kwargs, node)
            if r is not None:
                yield from r
                return
        f = self.p.functions[fid]
        self.visited['functions'].add(fid)
        depth = sum(1 for e in st.stack if e in st.heap and st.heap[e].kind == 'env'
                    and st.heap[e].d.get('fid') == fid)
        if depth > 3 or len(st.stack) > self.MAX_DEPTH:
            st.note('recursion into %s' % f.qual)
            self.havoc(st, args)
            yield st, T.unk('recursion into %s' % f.qual)
            return
        vars, exc = self.bind_args(st, f, fenv, args, kwargs, node)
        if exc is not None:
            yield st, exc
            return
        if f.is_generator:
            r = st.new('gen', fid=fid, vars=tuple(sorted(vars.items())), fenv=fenv,
                       ctx=False, done=False)
            yield st, r
            return
        env = st.new('env', vars=vars, parent=fenv, fid=fid, module=f.module.name)
        base = st.stack
        st.stack = st.stack + (env,)
        if isinstance(f.node, ast.Lambda):
            for s, v in self.eval(f.node.body, st, env):
                s.stack = base
                yield s, v
            return
        if self.opaque and fenv is None and vars and not self.summarising and all(
                v == self.NUM or v[0] == 'c' or self.sort(v, st) == 'int'
                for v in vars.values()):
            self.sorts['?int'] = 'int'
            outs = self.summary(fid, tuple(sorted(
                ((k, v if v == self.NUM or v[0] == 'c' else T.S('?int'))
                 for k, v in vars.items()), key=repr)), node)
            if outs is not None:
                st.stack = base
                for v in outs:
                    yield st.copy(), v
                return
        outs = Joiner(self)
        for s, k, v in self.block(f.node.body, st, env):
            s.stack = base
            if k == RAISE:
                yield s, v
                continue
            if k != RET:
                v = T.NONE
            if self.dedupe:
                outs.add(s, v)
            else:
                yield s, v
        for s, v in list(outs.table.values()):
            yield s, v

    summarising = False

    def summary(self, fid, vars, node):
        """The possible results of a function of numbers that has no effects,
        or None."""
        k = (fid, vars)
        if k not in self.summaries:
            f = self.p.functions[fid]
            st = St()
            env = st.new('env', vars=dict(vars), parent=None, fid=fid, module=f.module.name)
            st.stack = (env,)
            outs = []
            self.summarising = True
            try:
                for s, k2, v in self.block(f.node.body, st, env):
                    if k2 not in (RAISE, RET):
                        v = T.NONE
                    if s.events or s.notes or s.glob or not (
                            isinstance(v, Exc) and v.payload is None
                            or isinstance(v, tuple) and (v[0] == 'c' or v == self.NUM)):
                        outs = None
                        break
                    if v not in outs:
                        outs.append(v)
            finally:
                self.summarising = False
            self.summaries[k] = outs
        return self.summaries[k]

    def instantiate(self, st, cls, args, kwargs, node):
        if cls in self.class_override:
            yield from self.class_override[cls](self, st, args, kwargs, node)
            return
        ci = self.p.classes[cls]
        if any(isinstance(b, tuple) and b[0] == 'ext' and b[1] in ('enum.Enum', 'enum.IntEnum')
               for b in self.p.mro(cls)):
            if len(args) == 1 and self.enum_members(('cls', cls)) is not None:
                yield self.enum_of(st, ('cls', cls), args, node)
                return
            yield st, T.unk('enum call')
            return
        if cls in self.records.tuples and not isinstance(
                self.p.find_method(cls, '__new__'), Function):
            yield from self.new_tuple(st, self.records.tuples[cls], args, kwargs, node)
            return
        bases = [b for b in self.p.mro(cls) if isinstance(b, tuple)]
        if bases and exc_chain(bases[0][1].split('.')[-1]):
            yield st, ('excinst', cls, tuple(args))
            return
        r = st.new('inst', cls=cls, attrs={}, sym=None)
        init = self.p.find_method(cls, '__init__')
        fields = self.records.fields(cls) if self.records.data else []
        if fields and not (isinstance(init, Function) and init.cls is not None
                           and init.cls.name == cls):
            xs = None
            if not any(x[0] == 'star' for x in args) and '**' not in kwargs:
                xs = self.records.bind(self, st, fields, args, kwargs)
                if xs is None:
                    yield self.raises(st, 'TypeError', node)
                    return
            else:
                st.note('arguments of a dataclass')
                xs = [T.unk('argument %s' % f[0]) for f in fields]
            o = st.heap[r]
            st.heap[r] = o.with_(attrs=dict(o.attrs, **{f[0]: x for f, x in zip(fields, xs)}))
            post = self.p.find_method(cls, '__post_init__')
            if not isinstance(post, Function):
                yield st, r
                return
            base = st.stack
            st.stack = base + (r,)
            for s, v in self.call_fn(st, post.fid, None, [r], {}, node):
                s.stack = base
                yield s, v if isinstance(v, Exc) else r
            return
        if isinstance(init, Function):
            base = st.stack
            st.stack = base + (r,)
            for s, v in self.call_fn(st, init.fid, None, [r] + list(args), kwargs, node):
                s.stack = base
                yield s, v if isinstance(v, Exc) else r
            return
        if init is not None and init[0] == 'ext' and init[1] != 'builtins.object.__init__':
            for s, v in self.call(st, ('bext', init[1], r), args, kwargs, node):
                yield s, v if isinstance(v, Exc) else r
            return
        if args or kwargs:
            yield self.raises(st, 'TypeError', node)
            return
        yield st, r

    def new_tuple(self, st, fields, args, kwargs, node):
        if any(x[0] == 'star' for x in args) or '**' in kwargs:
            st.note('arguments of a named tuple')
            yield st, ('tup',) + tuple(T.unk('field %s' % f[0]) for f in fields)
            return
        xs = self.records.bind(self, st, fields, args, kwargs)
        if xs is None:
            yield self.raises(st, 'TypeError', node)
        else:
            yield st, ('tup',) + tuple(xs)

    def call_ext(self, st, dotted, args, kwargs, node):
        if dotted in ('collections.namedtuple', 'typing.NamedTuple'):
            if node in self.records.calls:
                yield st, ('ntcls', tuple((f[0],) for f in self.records.calls[node]), node)
            else:
                st.note('named tuple')
                yield st, T.unk('named tuple')
            return
        if any(x[0] == 'star' for x in args if isinstance(x, tuple)):
            yield from self.unmodelled_call(st, dotted, args, kwargs, node)
            return
        m = self.models.get(dotted)
        if m is None and dotted.startswith('builtins.'):
            name = dotted[9:]
            c = getattr(builtins, name, None)
            if isinstance(c, type) and issubclass(c, BaseException):
                yield st, ('excinst', name, tuple(args))
                return
        if m is None and dotted in EXT_EXC:
            yield st, ('excinst', dotted, tuple(args))
            return
        if m is None and dotted.startswith('logging.'):
            yield st, T.NONE
            return
        if m is None:
            yield from self.unmodelled_call(st, dotted, args, kwargs, node)
            return
        yield from m(self, st, args, kwargs, node)

    def unmodelled_call(self, st, name, args, kwargs, node):
        self.unmodelled[name] = self.unmodelled.get(name, 0) + 1
        self.havoc(st, list(args) + list(kwargs.values()))
        st.event('extcall', name, tuple(args), tuple(sorted(kwargs.items())), self.site(st, node))
        if self.faults:
            s2 = st.copy()
            s2.note('failure of %s' % name)
            yield self.raises(s2, '*', node)
        yield st, T.unk('result of %s' % name)

    def havoc(self, st, args):
        """An unknown callee may change the objects it is given."""
        for a in args:
            if isinstance(a, tuple) and a and a[0] == 'ref' and a in st.heap:
                o = st.heap[a]
                if o.kind in ('dict', 'set'):
                    st.heap[a] = o.with_(items=tuple((k, T.unk('changed by a callee') if o.kind == 'dict' else True) for k, _v in o.items), others=True)
                    st.note('object passed to unknown code')
                elif o.kind == 'list':
                    st.heap[a] = o.with_(exact=False, wit=(), items=(),
                                         others=frozenset([T.unk('changed by a callee')]))
                    st.note('object passed to unknown code')
                elif o.kind == 'stream':
                    st.heap[a] = o.with_(done=True)
                elif o.kind == 'inst':
                    st.note('object passed to unknown code')

    def call_method(self, st, recv, name, args, kwargs, node):
        if T.is_unk(recv):
            st.note('method of an unknown value')
            self.havoc(st, args)
            yield st, recv
            return
        kind = None
        if recv[0] == 'ref':
            o = st.heap[recv]
            kind = o.d.get('flavor') or o.kind
            if o.kind == 'ext':
                kind = o.type
            m = self.methods.get((kind, name)) or self.methods.get((o.kind, name))
            if m is not None:
                yield from m(self, st, recv, args, kwargs, node)
                return
            if o.kind == 'ext':
                st.event('extmethod', kind, name, recv, tuple(args), self.site(st, node))
                self.unmodelled['%s.%s' % (kind, name)] = 1
                self.havoc(st, args)
                yield st, T.unk('method %s of %s' % (name, kind))
                return
            self.unmodelled['%s.%s' % (kind, name)] = 1
            if o.kind in ('dict', 'set', 'list'):
                self.havoc(st, [recv])
            st.note('method %s of %s' % (name, kind))
            yield st, T.unk('method %s of %s' % (name, kind))
            return
        if recv[0] == 'view':
            xs = self.exact_items(st, recv)
            yield st, T.unk('method of a view')
            return
        if self.method_hook is not None:
            r = self.method_hook(self, st, recv, name, args, kwargs, node)
            if r is not None:
                yield from r
                return
        s = self.sort(recv, st)
        m = self.methods.get((s, name)) or self.methods.get(('any', name))
        if s == 'none':
            yield self.raises(st, 'AttributeError', node, T.C(name))
            return
        if m is not None:
            yield from m(self, st, recv, args, kwargs, node)
            return
        if name == '__getstate__' and not args:
            # object.__getstate__, of something without attributes
            yield st, T.NONE
            return
        self.unmodelled['.' + name] = 1
        st.event('method', name, recv, tuple(args), self.site(st, node))
        if self.faults:
            s2 = st.copy()
            yield self.raises(s2, '*', node)
        self.havoc(st, args)
        yield st, T.app('method', name, recv, *args)

    method_hook = None

    # ======================================================================
    # iteration
    def iterate(self, st, it, cb, node=None):
        """Runs cb(state, element) for each element.

        Yields (state, kind, value): NEXT when exhausted, else what cb gave.
        """
        self.tick()
        k = it[0]
        if k == 'unk':
            st.note('iteration over an unknown value')
            r = st.new('stream', name='?%d' % getattr(node, 'lineno', 0), oneshot=True, rem=None, done=False)
            yield from self.iterate(st, r, cb, node)
            return
        if k == 'view':
            yield from self.iterate_dict(st, it[2], it[1], cb, node)
            return
        xs = self.exact_items(st, it)
        if xs is not None:
            # Adding to a list while it is being iterated over is not modelled.
            yield from self.unroll(st, xs, cb)
            return
        if k == 'ref':
            o = st.heap[it]
            if o.kind == 'stream':
                yield from self.iterate_stream(st, it, cb, node)
                return
            if o.kind == 'list':
                src = st.new('iter', pending=o.wit, others=tuple(sorted(o.others, key=repr)),
                             name='L')
                yield from self.fix(st, src, cb, node)
                return
            if o.kind == 'set':
                yield from self.iterate_set(st, it, cb, node)
                return
            if o.kind == 'dict':
                yield from self.iterate_dict(st, it, 'keys', cb, node)
                return
            if o.kind == 'iter':
                yield from self.fix(st, it, cb, node)
                return
            if o.kind == 'gen':
                yield from self.iterate_gen(st, it, cb, node)
                return
            if o.kind == 'chain':
                yield from self.iterate_seq(st, list(o.parts), cb, node)
                return
            if o.kind == 'lazy':
                yield from o.run(self, st, o, cb, node)
                return
            if o.kind == 'inst':
                f = self.p.find_method(o.cls, '__iter__')
                if isinstance(f, Function):
                    for s, v in self.call(st, ('bm', f.fid, it), [], {}, node):
                        if isinstance(v, Exc):
                            yield s, RAISE, v
                        else:
                            yield from self.iterate(s, v, cb, node)
                    return
                if f is not None and f[0] == 'ext' and f[1] in self.models:
                    for s, v in self.call(st, ('bext', f[1], it), [], {}, node):
                        if isinstance(v, Exc):
                            yield s, RAISE, v
                        else:
                            yield from self.iterate(s, v, cb, node)
                    return
            if o.kind == 'ext' and o.type == 'shelf':
                yield from self.iterate(st, o.data['map'], cb, node)
                return
        if k in ('s', 'app', 'cat', 'rat', 'range'):
            if self.sort(it, st) in ('none', 'int', 'float', 'bool'):
                e = self.raises(st, 'TypeError', node)
                yield e[0], RAISE, e[1]
                return
            if k == 'range' and all(x[0] == 'c' for x in it[1:]):
                st.note('a long range')
            r = st.new('stream', name='elems(%s)' % T.show(it), oneshot=False, rem=0, done=False)
            yield from self.iterate_stream(st, r, cb, node)
            return
        st.note('iteration over %s' % k)
        r = st.new('stream', name='?%d' % getattr(node, 'lineno', 0), oneshot=True, rem=None, done=False)
        yield from self.iterate(st, r, cb, node)

    def iterate_seq(self, st, parts, cb, node):
        if not parts:
            yield st, NEXT, None
            return
        for s, k, v in self.iterate(st, parts[0], cb, node):
            if k == NEXT:
                yield from self.iterate_seq(s, parts[1:], cb, node)
            else:
                yield s, k, v

    def unroll(self, st, xs, cb):
        if not xs:
            yield st, NEXT, None
            return
        for s, k, v in cb(st, xs[0]):
            if k in (NEXT, CONT):
                yield from self.unroll(s, xs[1:], cb)
            else:
                yield s, k, v

    def iterate_gen(self, st, ref, cb, node):
        o = st.heap[ref]
        if o.done:
            yield st, NEXT, None
            return
        st.upd(ref, done=True)
        if o.fid is None:           # generator expression
            n = o.node
            cenv = self.comp_env(st, o.env)
            base = st.stack
            st.stack = base + (cenv,)
            g = n.generators[0]
            names = {x.id for x in ast.walk(g.target) if isinstance(x, ast.Name)}

            def each(s2, e):
                for s3, k3, v3 in each1(s2, e):
                    if k3 in (NEXT, CONT):
                        vars = s3.heap[cenv].vars
                        s3.upd(cenv, vars={k: v for k, v in vars.items() if k not in names})
                    yield s3, k3, v3

            def inner(s):
                for s2, v in self.eval(n.elt, s, cenv):
                    if isinstance(v, Exc):
                        yield s2, RAISE, v
                    else:
                        yield from cb(s2, v)
            def each1(s2, e):
                for s3, x in self.assign(g.target, e, s2, cenv, n):
                    if isinstance(x, Exc):
                        yield s3, RAISE, x
                        continue
                    for s4, r in self.conds(g.ifs, s3, cenv):
                        if isinstance(r, Exc):
                            yield s4, RAISE, r
                        elif not r:
                            yield s4, NEXT, None
                        elif len(n.generators) > 1:
                            yield from self.run_comp(n, n.generators[1:], s4, cenv, inner)
                        else:
                            yield from inner(s4)
            for s, k, v in self.iterate(st, o.first, each, node):
                s.stack = base
                yield s, k, v
            return
        f = self.p.functions[o.fid]
        if 'vars' in o.d:
            vars = dict(o.vars)
        else:
            vars, exc = self.bind_args(st, f, o.fenv, list(o.args), dict(o.kwargs), node)
            if exc is not None:
                yield st, RAISE, exc
                return
        self.visited['functions'].add(o.fid)
        env = st.new('env', vars=vars, parent=o.fenv, fid=o.fid, module=f.module.name)
        self.hooks[env] = cb
        base = st.stack
        st.stack = base + (env,)
        for s, k, v in self.block(f.node.body, st, env):
            s.stack = base
            if k == RAISE and v.name == '$exit':
                yield s, v.payload[0], v.payload[1]
            elif k == RAISE:
                yield s, RAISE, v
            else:
                yield s, NEXT, None

    def iterate_stream(self, st, ref, cb, node):
        o = st.heap[ref]
        if o.done:
            yield st, NEXT, None
            return
        if o.rem is None:
            for rem in (0, 1, 2):
                s = st.copy()
                s.upd(ref, rem=rem)
                yield from self.iterate_stream(s, ref, cb, node)
            return
        if o.oneshot:
            src = ref
        else:
            src = st.new('stream', name=o.name, oneshot=True, rem=o.rem, done=False,
                         alone=o.d.get('alone', False))
        yield from self.fix(st, src, cb, node)

    def iterate_set(self, st, ref, cb, node):
        o = st.heap[ref]
        w = ('s', 'w')
        outs = [st]
        if o.base is not None and not any(k == w for k, _v in o.items):
            outs = [s for s, _r in self.set_contains(st, ref, w)]
        for s in outs:
            o = s.heap[ref]
            src = s.new('iter', pending=tuple((k, 1) for k, v in o.items if v),
                        others=(('s', 'o:' + self.elem_name(o, 'set')),) if (o.base or o.others) else (),
                        name=self.elem_name(o, 'set'))
            yield from self.fix(s, src, cb, node)

    def iterate_dict(self, st, ref, what, cb, node):
        if st.heap[ref].kind == 'ext':
            ref = st.heap[ref].data['map']
        o = st.heap[ref]
        w = ('s', 'w')
        def pick(s, k):
            """The element for the key."""
            if what == 'keys':
                yield s, k
            else:
                for s2, v in self.dict_get(s, ref, k):
                    if v is None:
                        continue
                    yield s2, (v if what == 'values' else ('tup', k, v))
        def cb2(s, k):
            for s2, e in pick(s, k):
                yield from cb(s2, e)
        if not o.base and not o.others:
            ks = [k for k, v in o.items if v is not None]
            yield from self.unroll(st, ks, cb2)
            return
        outs = [st]
        if o.base is not None and not any(k == w for k, _v in o.items):
            outs = [s for s, _v in self.dict_get(st, ref, self.key_for_base(o) or w)]
        for s in outs:
            o = s.heap[ref]
            src = s.new('iter', pending=tuple((k, 1) for k, v in o.items if v is not None),
                        others=(('s', 'o:' + self.elem_name(o, 'dict')),), name=self.elem_name(o, 'dict'))
            yield from self.fix(s, src, cb2, node)

    key_for_base_hook = None
    class_override = {}

    def key_for_base(self, o):
        if self.key_for_base_hook:
            return self.key_for_base_hook(o)
        return None

    def draw(self, st, src):
        """Yields (state, element | None) for the next element of the source."""
        o = st.heap[src]
        if o.kind == 'stream':
            if o.done:
                yield st, None
                return
            if o.rem == 0:
                s = st.copy()
                s.upd(src, done=True)
                yield s, None
            elif o.rem == 1:
                s = st.copy()
                s.upd(src, rem=0)
                yield s, ('s', 'w')
            else:
                for r in (1, 2):
                    s = st.copy()
                    s.upd(src, rem=r)
                    yield s, ('s', 'w')
            if not o.d.get('alone'):
                yield st, ('s', 'o:' + o.name)
            return
        pend = [(t, c) for t, c in o.pending if c]
        if not pend:
            yield st.copy(), None
        for i, (t, c) in enumerate(pend):
            for c2 in ((0,) if c == 1 else (1, 2)):
                s = st.copy()
                s.upd(src, pending=tuple((u, c2 if u == t else d) for u, d in pend
                                         if not (u == t and c2 == 0)))
                yield s, t
        for t in o.others:
            yield st.copy(), t

    def fix(self, st, src, cb, node):
        """Runs the loop over an abstract source to a fixpoint."""
        self.visited['loops'] += 1
        st.stack = st.stack + (src,)
        depth = len(st.stack)
        work = Joiner(self)
        work.add(st)
        exits = Joiner(self)
        left = Joiner(self)
        shapes = {}
        while work.todo:
            s = work.pop()
            if work.count > self.MAX_HEADS:
                self.dropped += 1
                break
            for s1, e in self.draw(s, src):
                if e is None:
                    s1.stack = s1.stack[:depth - 1]
                    exits.add(s1)
                    continue
                for s2, k, v in cb(s1, e):
                    if k in (NEXT, CONT):
                        self.purge(s2)
                        s2.stack = s2.stack[:depth]
                        self.widen(s2, shapes)
                        work.add(s2)
                    else:
                        s2.stack = s2.stack[:depth - 1]
                        left.add(s2, (k, v))
        for s1 in exits.states():
            yield s1, NEXT, None
        for s1, (k, v) in list(left.table.values()):
            yield s1, k, v

    def widen(self, st, shapes):
        """Gives up on variables that keep changing."""
        shape = self.key(st, abstract=True)
        prev = shapes.setdefault(shape, [])
        vals = self.numbers(st)
        if len(prev) >= self.WIDEN:
            first = prev[0]
            changed = [loc for loc, v in vals.items() if any(p.get(loc) != v for p in prev)]
            for loc in changed:
                self.set_loc(st, loc, T.unk('changes in every round of a loop'))
                self.widened += 1
        else:
            prev.append(vals)

    def numbers(self, st):
        out = {}
        order = self.reach(st)
        for i, ref in enumerate(order):
            o = st.heap[ref]
            if o.kind == 'env':
                for n, v in o.vars.items():
                    if v[0] in ('rat', 'c', 'app', 'cat', 'tup'):
                        out[(i, 'v', n)] = v
            elif o.kind == 'inst':
                for n, v in o.attrs.items():
                    if v[0] in ('rat', 'c', 'app', 'cat', 'tup'):
                        out[(i, 'a', n)] = v
        return out

    def set_loc(self, st, loc, v):
        ref = self.reach(st)[loc[0]]
        if loc[1] == 'v':
            st.setvar(ref, loc[2], v)
        else:
            st.setattr(ref, loc[2], v)

    roots = ()

    def reach(self, st, extra=(), join=False):
        order = [r for r in self.roots if r in st.heap]
        order += [r for r in st.stack if r in st.heap]
        if st.glob:
            order += [v for _k, v in sorted(st.glob.items(), key=repr)
                      if isinstance(v, tuple) and v[0] == 'ref']
        if extra:
            refs = []
            skeleton(extra, refs, False)
            order += refs
        seen = set()
        todo = order
        order = []
        i = 0
        heap = st.heap
        while i < len(todo):
            r = todo[i]
            i += 1
            if r in seen:
                continue
            o = heap.get(r)
            if o is None:
                continue
            seen.add(r)
            order.append(r)
            todo.extend((o.jskeleton() if join else o.skeleton())[1])
        return order

    def key(self, st, abstract=False, extra=(), join=False):
        """A canonical key of the state (up to renaming of objects).

        With join, states that differ only in what else may be in their lists
        have the same key.
        """
        order = self.reach(st, extra, join)
        num = {r: i for i, r in enumerate(order)}
        get = num.get

        def flat(t):
            refs = []
            sk = skeleton(t, refs, False)
            if refs:
                return sk, tuple([get(r, -1) for r in refs])
            return sk
        heap = []
        for r in order:
            o = st.heap[r]
            n, refs = (o.askeleton() if abstract else o.jskeleton() if join
                       else o.skeleton())
            heap.append((n, tuple([get(x, -1) for x in refs])) if refs else n)
        heap = tuple(heap)
        facts = []
        for k, v in st.facts.items():
            if abstract and k[0] not in ('isinst', 'is', 'in'):
                continue
            refs = []
            sk = skeleton(k, refs, False)
            if refs:
                if any(r not in num for r in refs):
                    continue
                sk = (sk, tuple([num[r] for r in refs]))
            facts.append((sk, v))
        facts = frozenset(facts)
        if abstract:
            return hash((heap, facts))
        lins = frozenset(flat(tuple(x)) for x in st.lins)
        return (heap, facts, lins, flat(st.events), st.notes, flat(extra),
                tuple(sorted(((repr(k), flat(v)) for k, v in st.glob.items()))) if st.glob else (),
                tuple([get(x, -1) for x in st.stack]))

    def template_key(self, st, t, num):
        """A key of a term with the objects it refers to; num numbers the
        objects that are known to correspond."""
        order = []
        todo = []
        sk = skeleton(t, todo, False)
        pos = {}
        out = [sk]
        i = 0
        while i < len(todo):
            r = todo[i]
            i += 1
            if r in num:
                out.append(('known', num[r]))
            elif r in pos:
                out.append(('seen', pos[r]))
            elif r in st.heap:
                pos[r] = len(pos)
                n, refs = st.heap[r].skeleton()
                out.append(n)
                todo.extend(refs)
            else:
                out.append('gone')
        return tuple(out)

    def import_term(self, a, b, t, trans):
        """The term of state b in state a, whose objects trans gives."""
        def conv(x):
            if isinstance(x, tuple):
                if len(x) == 2 and x[0] == 'ref':
                    if x in trans:
                        return trans[x]
                    o = b.heap.get(x)
                    if o is None:
                        return x
                    St.counter += 1
                    n = ('ref', St.counter)
                    trans[x] = n
                    a.heap[n] = o
                    a.heap[n] = o.with_(**{k: conv(v) for k, v in o.d.items()})
                    return n
                return tuple([conv(y) for y in x])
            if isinstance(x, dict):
                return {k: conv(v) for k, v in x.items()}
            if isinstance(x, frozenset):
                return frozenset([conv(y) for y in x])
            return x
        return conv(t)

    def join(self, a, b, extra_a=(), extra_b=()):
        """The state a with what else may be in the lists of b added, or None
        if that adds nothing. Both have the same join key."""
        oa = self.reach(a, extra_a, True)
        ob = self.reach(b, extra_b, True)
        na = {r: i for i, r in enumerate(oa)}
        nb = {r: i for i, r in enumerate(ob)}
        out = None
        trans = None
        for ra, rb in zip(oa, ob):
            lb = b.heap[rb]
            fld = MAYBE.get(lb.kind)
            if fld is None or not lb.d.get(fld):
                continue
            la = a.heap[ra].d.get(fld, ())
            lb = lb.d[fld]
            if la == lb and ra == rb and \
                    all(a.heap.get(r) is b.heap.get(r) for t in lb for r in self._refs(t)):
                continue
            have = {self.template_key(a, t, na) for t in la}
            new = [t for t in sorted(lb, key=repr)
                   if self.template_key(b, t, nb) not in have]
            if not new:
                continue
            if out is None:
                out = a.copy()
                trans = dict(zip(ob, oa))
            out.upd(ra, **{fld: frozenset(la) | frozenset(
                self.import_term(out, b, t, trans) for t in new)})
        return out

    def _refs(self, t):
        refs = []
        skeleton(t, refs, False)
        return refs

    def add_other(self, st, ref, e):
        """Adds a possible element to the summary of a list."""
        o = st.heap[ref]
        if e in o.others:
            return
        if any(True for _ in self._refs(e)):
            k = self.template_key(st, e, {})
            if any(self.template_key(st, t, {}) == k for t in o.others):
                st.heap[ref] = o.with_(order=None)
                return
        st.heap[ref] = o.with_(others=o.others | {e}, order=None)

    def purge(self, st):
        """Forgets which of the other elements a round of a loop was about."""
        def fresh(x):
            return len(x) == 2 and x[0] == 's' and isinstance(x[1], str) and 'o:' in x[1]
        def older(x):
            return len(x) == 2 and x[0] == 's' and isinstance(x[1], str) and 'o~' in x[1]
        def elem(x):
            return fresh(x) or older(x)
        def ren(t):
            if isinstance(t, tuple):
                if fresh(t):
                    return self.aged(t)
                if t and t[0] == 'rat':
                    for a in {y for y in self._atoms_deep(t) if fresh(y)}:
                        t = T.subst(t, a, self.aged(a))
                    return t
                return tuple(ren(x) for x in t)
            if isinstance(t, dict):
                return {k: ren(v) for k, v in t.items()}
            if isinstance(t, frozenset):
                return frozenset(ren(x) for x in t)
            return t
        st.facts = {k: v for k, v in st.facts.items() if not T.mentions(k, elem)}
        st.lins = tuple(x for x in st.lins if not T.mentions(x[0], elem))
        for r, o in list(st.heap.items()):
            n = o.has_elems()
            if n == 0 or n == 1 and o.kind not in ('dict', 'set', 'list'):
                continue
            d = o.d
            if o.kind in ('dict', 'set'):
                keep = tuple(it for it in o.items if not T.mentions(it[0], elem))
                dropped = len(keep) != len(o.items)
                new = o.with_(items=ren(keep))
                st.heap[r] = new
                if dropped and not o.base:
                    vals = [it[1] for it in o.items if it not in keep
                            and it[1] is not None and it[1] is not False]
                    if vals:
                        st.heap[r] = new = new.with_(others=True)
                        if o.kind == 'dict':
                            have = set(o.d.get('ovals', ()))
                            keys = {self.template_key(st, t, {}) for t in have}
                            for v in vals:
                                v = self.smeared(st, v) if self.smear else ren(v)
                                k = self.template_key(st, v, {})
                                if k not in keys:
                                    keys.add(k)
                                    have.add(v)
                            st.heap[r] = new.with_(ovals=frozenset(have))
            elif o.kind == 'list':
                if o.exact and any(T.mentions(x, elem) for x in o.items):
                    self.summarise(st, r)
                    o = st.heap[r]
                st.heap[r] = o.with_(items=ren(o.items), wit=ren(o.wit), others=ren(o.others))
            elif o.kind in ('env',):
                st.heap[r] = o.with_(vars=ren(o.vars))
            elif o.kind == 'inst':
                st.heap[r] = o.with_(attrs=ren(o.attrs))
            elif o.kind == 'iter':
                pass
            elif o.kind in ('gen', 'chain', 'ext'):
                st.heap[r] = o.with_(**{k: ren(v) for k, v in d.items()
                                        if isinstance(v, (tuple, dict, frozenset))})
        if st.events:
            out = []
            for e in st.events:
                if T.mentions(e, elem):
                    e = ren(e)
                    if e in out:
                        continue
                out.append(e)
            st.events = tuple(out)

    smear = False          # forget the numbers kept for other elements

    def smeared(self, st, v):
        if v[0] == 'tup':
            return ('tup',) + tuple(self.smeared(st, x) for x in v[1:])
        if v[0] == 'ref':
            o = st.heap[v]
            if o.kind == 'inst':
                st.upd(v, attrs={k: self.smeared(st, x) for k, x in o.attrs.items()})
            elif o.kind == 'list' and o.exact:
                st.upd(v, items=tuple(self.smeared(st, x) for x in o.items))
            return v
        if v[0] in ('rat', 'unk', 'app') or v[0] == 'c' and v[1] == 'int' or \
                v[0] == 's' and self.sorts.get(v[1]) == 'int':
            return SOME
        return v

    def aged(self, t):
        n = t[1].replace('o:', 'o~')
        if t[1] in self.sorts:
            self.sorts[n] = self.sorts[t[1]]
        return ('s', n)

    def _atoms_deep(self, t):
        out = set()
        def go(x):
            if isinstance(x, tuple):
                if len(x) == 2 and x[0] == 's':
                    out.add(x)
                    return
                for y in x:
                    go(y)
        go(t)
        return out

    # ======================================================================
    # statements: yield (state, kind, value)
    def block(self, stmts, st, env):
        if not stmts:
            yield st, NEXT, None
            return
        for s, k, v in self.stmt(stmts[0], st, env):
            if k == NEXT:
                yield from self.block(stmts[1:], s, env)
            else:
                yield s, k, v

    def stmt(self, node, st, env):
        self.tick()
        m = getattr(self, 'st_' + type(node).__name__, None)
        if m is None:
            st.note('statement %s' % type(node).__name__)
            yield st, NEXT, None
            return
        yield from m(node, st, env)

    def st_Expr(self, node, st, env):
        if isinstance(node.value, ast.Constant):
            yield st, NEXT, None
            return
        for s, v in self.eval(node.value, st, env):
            if isinstance(v, Exc):
                yield s, RAISE, v
            else:
                yield s, NEXT, None

    def st_Pass(self, node, st, env):
        yield st, NEXT, None

    def st_Break(self, node, st, env):
        yield st, BRK, None

    def st_Continue(self, node, st, env):
        yield st, CONT, None

    def st_Global(self, node, st, env):
        e = self.var_env(st, env)
        g = tuple(st.heap[e].d.get('globals', ())) + tuple(node.names)
        st.upd(e, globals=g)
        yield st, NEXT, None

    def st_Nonlocal(self, node, st, env):
        e = self.var_env(st, env)
        st.upd(e, nonlocals=tuple(st.heap[e].d.get('nonlocals', ())) + tuple(node.names))
        yield st, NEXT, None

    def st_Import(self, node, st, env):
        for a in node.names:
            name = a.asname or a.name.split('.')[0]
            target = a.name if a.asname else a.name.split('.')[0]
            st.setvar(env, name, self.p.module_term(target))
        yield st, NEXT, None

    def st_ImportFrom(self, node, st, env):
        m = self.p.modules[st.heap[env].module]
        base = self.p.abs_import(m, node)
        for a in node.names:
            if base in self.p.modules:
                v = self._global_value(base, a.name)
                if v is None and base + '.' + a.name in self.p.modules:
                    v = ('mod', base + '.' + a.name)
                v = v or T.unk('import')
            else:
                v = ('ext', base + '.' + a.name)
            st.setvar(env, a.asname or a.name, v)
        yield st, NEXT, None

    def st_FunctionDef(self, node, st, env):
        f = self.p.by_node[id(node)]

        def wrap(i, s, t):
            if i < 0:
                s.setvar(env, node.name, t)
                yield s, NEXT, None
                return
            d = node.decorator_list[i]
            if self.p.static_name(f.module, d) == ('ext', 'contextlib.contextmanager'):
                t = ('ctxfn', f.fid, env) if t[0] == 'fn' else T.unk('local context manager')
                yield from wrap(i - 1, s, t)
                return
            for s2, v in self.eval(d, s, env):
                if isinstance(v, Exc):
                    yield s2, RAISE, v
                    continue
                for s3, t3 in self.call(s2, v, [t], {}, node):
                    if isinstance(t3, Exc):
                        yield s3, RAISE, t3
                    else:
                        yield from wrap(i - 1, s3, t3)
        yield from wrap(len(node.decorator_list) - 1, st, ('fn', f.fid, env))

    def st_ClassDef(self, node, st, env):
        st.setvar(env, node.name, ('cls', self.p.by_node[id(node)].name))
        yield st, NEXT, None

    def st_Assign(self, node, st, env):
        for s, v in self.eval(node.value, st, env):
            if isinstance(v, Exc):
                yield s, RAISE, v
                continue
            yield from self._assign_all(node.targets, v, s, env, node)

    def _assign_all(self, targets, v, st, env, node):
        if not targets:
            yield st, NEXT, None
            return
        for s, x in self.assign(targets[0], v, st, env, node):
            if isinstance(x, Exc):
                yield s, RAISE, x
            else:
                yield from self._assign_all(targets[1:], v, s, env, node)

    def st_AnnAssign(self, node, st, env):
        if node.value is None:
            yield st, NEXT, None
            return
        for s, v in self.eval(node.value, st, env):
            if isinstance(v, Exc):
                yield s, RAISE, v
                continue
            yield from self._assign_all([node.target], v, s, env, node)

    def assign(self, target, v, st, env, node):
        """Yields (state, None | Exc)."""
        if isinstance(target, ast.Name):
            e = env
            o = st.heap[e]
            ve = self.var_env(st, env)
            if target.id in st.heap[ve].d.get('globals', ()):
                st.glob[(st.heap[ve].module, target.id)] = v
                st.event('setglobal', (st.heap[ve].module, target.id), v)
            elif target.id in st.heap[ve].d.get('nonlocals', ()):
                p = st.heap[ve].parent
                while p is not None and target.id not in st.heap[p].vars:
                    p = st.heap[p].d.get('parent')
                if p is not None:
                    st.setvar(p, target.id, v)
            else:
                st.setvar(e, target.id, v)
            yield st, None
        elif isinstance(target, (ast.Tuple, ast.List)):
            if any(isinstance(t, ast.Starred) for t in target.elts):
                xs = self.exact_items(st, v)
                if xs is None:
                    for t in target.elts:
                        t2 = t.value if isinstance(t, ast.Starred) else t
                        if isinstance(t2, ast.Name):
                            st.setvar(env, t2.id, T.unk('starred assignment'))
                    yield st, None
                    return
                i = [isinstance(t, ast.Starred) for t in target.elts].index(True)
                after = len(target.elts) - i - 1
                mid = xs[i:len(xs) - after]
                vals = xs[:i] + [self.new_list(st, mid)] + xs[len(xs) - after:]
                targets = [t.value if isinstance(t, ast.Starred) else t for t in target.elts]
                yield from self._assign_seq(targets, vals, st, env, node)
                return
            xs = self.exact_items(st, v)
            n = len(target.elts)
            if xs is None and v[0] == 'ref' and st.heap[v].kind == 'gen':
                r = self.new_list(st, [])
                for s, k, x in self.iterate(st, v, lambda s, e: self.cb_append(s, r, e), node):
                    if k == RAISE:
                        yield s, x
                    else:
                        yield from self.assign(target, r, s, env, node)
                return
            if xs is None:
                if T.is_unk(v):
                    xs = [v] * n
                elif v[0] in ('s', 'app'):
                    xs = self.unpack(st, v, n)
                    if self.unpack_fault is not None:
                        pass
                else:
                    st.note('unpacking')
                    xs = [T.unk('unpacking')] * n
            if len(xs) != n:
                yield self.raises(st, 'ValueError', node)
                return
            yield from self._assign_seq(list(target.elts), xs, st, env, node)
        elif isinstance(target, ast.Attribute):
            for s, o in self.eval(target.value, st, env):
                if isinstance(o, Exc):
                    yield s, o
                    continue
                if o[0] == 'ref' and s.heap[o].kind == 'inst':
                    if self.setattr_hook is not None:
                        self.setattr_hook(self, s, o, target.attr, v, node)
                    s.setattr(o, target.attr, v)
                elif o[0] == 'mod':
                    s.glob[(o[1], target.attr)] = v
                    s.event('setglobal', (o[1], target.attr), v)
                elif o[0] == 'ref' and s.heap[o].kind == 'ext':
                    d = dict(s.heap[o].data)
                    d[target.attr] = v
                    s.upd(o, data=d)
                else:
                    s.event('setattr', o, target.attr, v, self.site(s, node))
                    if o[0] == 'unk':
                        s.note('attribute of an unknown value is set')
                yield s, None
        elif isinstance(target, ast.Subscript):
            for s, o in self.eval(target.value, st, env):
                if isinstance(o, Exc):
                    yield s, o
                    continue
                if isinstance(target.slice, ast.Slice):
                    yield from self.assign_slice(target, o, v, s, env, node)
                    continue
                for s2, i in self.eval(target.slice, s, env):
                    if isinstance(i, Exc):
                        yield s2, i
                    else:
                        yield from self.setitem(s2, o, i, v, node)
        elif isinstance(target, ast.Starred):
            yield from self.assign(target.value, v, st, env, node)
        else:
            st.note('assignment target')
            yield st, None

    unpack_fault = None
    setattr_hook = None

    def unpack(self, st, v, n):
        return [T.app('item', v, T.C(i)) for i in range(n)]

    def _assign_seq(self, targets, vals, st, env, node):
        if not targets:
            yield st, None
            return
        for s, x in self.assign(targets[0], vals[0], st, env, node):
            if isinstance(x, Exc):
                yield s, x
            else:
                yield from self._assign_seq(targets[1:], vals[1:], s, env, node)

    def assign_slice(self, target, o, v, st, env, node):
        for s, sl in self.eval_slice(target.slice, st, env):
            if isinstance(sl, Exc):
                yield s, sl
                continue
            if o[0] == 'ref' and s.heap[o].kind == 'list':
                if sl == [None, None, None]:
                    r = self.new_list(s, [])
                    for s2, k, x in self.iterate(s, v, lambda s, e: self.cb_append(s, r, e), node):
                        if k == RAISE:
                            yield s2, x
                            continue
                        s2.heap[o] = s2.heap[r]
                        yield s2, None
                    continue
            s.note('slice assignment')
            self.havoc(s, [o])
            yield s, None

    def setitem(self, st, o, i, v, node):
        """Yields (state, None | Exc)."""
        if o[0] == 'ref':
            ob = st.heap[o]
            if ob.kind == 'dict':
                if ob.d.get('flavor') == 'shelf':
                    st.event('dbset', o, i, v, self.site(st, node))
                    if self.sort(i, st) in ('bytes', 'int', 'none', 'tuple'):
                        yield self.raises(st, 'AttributeError', node)
                        return
                    if v[0] in ('ref', 'tup'):
                        # A shelf keeps a copy.
                        for s, c in self.pickled(st, v, node):
                            if isinstance(c, Exc):
                                yield s, c
                                continue
                            for s2 in self.dict_set(s, o, i, c):
                                yield s2, None
                        return
                for s in self.dict_set(st, o, i, v):
                    yield s, None
                return
            if ob.kind == 'list' and ob.exact and i[0] == 'c' and isinstance(i[2], int):
                n = len(ob.items)
                j = i[2] if i[2] >= 0 else n + i[2]
                if 0 <= j < n:
                    st.heap[o] = ob.with_(items=ob.items[:j] + (v,) + ob.items[j + 1:])
                    yield st, None
                else:
                    yield self.raises(st, 'IndexError', node)
                return
            if ob.kind == 'inst':
                f = self.p.find_method(ob.cls, '__setitem__')
                t = None
                if isinstance(f, Function):
                    t = ('bm', f.fid, o)
                elif f is not None and f[0] == 'ext':
                    t = ('bext', f[1], o)
                if t is not None:
                    for s, x in self.call(st, t, [i, v], {}, node):
                        yield s, x if isinstance(x, Exc) else None
                    return
            if ob.kind in ('list',):
                st.note('item assignment')
                self.havoc(st, [o])
                yield st, None
                return
        if self.cached(o):
            yield st, None
            return
        st.event('setitem', o, i, v, self.site(st, node))
        if o[0] == 'unk':
            st.note('item of an unknown value is set')
        yield st, None

    def st_AugAssign(self, node, st, env):
        op = type(node.op).__name__
        t = node.target
        if isinstance(t, ast.Name):
            load = ast.copy_location(ast.Name(t.id, ast.Load()), t)
            for s, a in self.eval(load, st, env):
                if isinstance(a, Exc):
                    yield s, RAISE, a
                    continue
                for s2, b in self.eval(node.value, s, env):
                    if isinstance(b, Exc):
                        yield s2, RAISE, b
                        continue
                    for s3, r in self.augop(op, a, b, s2, node):
                        if isinstance(r, Exc):
                            yield s3, RAISE, r
                        else:
                            yield from self._assign_all([t], r, s3, env, node)
        elif isinstance(t, ast.Attribute):
            for s, o in self.eval(t.value, st, env):
                if isinstance(o, Exc):
                    yield s, RAISE, o
                    continue
                for s1, a in self.getattr(s, o, t.attr, node, env):
                    if isinstance(a, Exc):
                        yield s1, RAISE, a
                        continue
                    for s2, b in self.eval(node.value, s1, env):
                        if isinstance(b, Exc):
                            yield s2, RAISE, b
                            continue
                        for s3, r in self.augop(op, a, b, s2, node):
                            if isinstance(r, Exc):
                                yield s3, RAISE, r
                                continue
                            if o[0] == 'ref' and s3.heap[o].kind == 'inst':
                                if self.setattr_hook is not None:
                                    self.setattr_hook(self, s3, o, t.attr, r, node)
                                s3.setattr(o, t.attr, r)
                            else:
                                s3.event('setattr', o, t.attr, r, self.site(s3, node))
                            yield s3, NEXT, None
        elif isinstance(t, ast.Subscript) and not isinstance(t.slice, ast.Slice):
            for s, o in self.eval(t.value, st, env):
                if isinstance(o, Exc):
                    yield s, RAISE, o
                    continue
                for s1, i in self.eval(t.slice, s, env):
                    if isinstance(i, Exc):
                        yield s1, RAISE, i
                        continue
                    for s2, a in self.getitem(s1, o, i, node):
                        if isinstance(a, Exc):
                            yield s2, RAISE, a
                            continue
                        for s3, b in self.eval(node.value, s2, env):
                            if isinstance(b, Exc):
                                yield s3, RAISE, b
                                continue
                            for s4, r in self.augop(op, a, b, s3, node):
                                if isinstance(r, Exc):
                                    yield s4, RAISE, r
                                    continue
                                for s5, x in self.setitem(s4, o, i, r, node):
                                    if isinstance(x, Exc):
                                        yield s5, RAISE, x
                                    else:
                                        yield s5, NEXT, None
        else:
            st.note('augmented assignment')
            yield st, NEXT, None

    def augop(self, op, a, b, st, node):
        if a[0] == 'ref':
            o = st.heap[a]
            if o.kind == 'list' and op == 'Add':
                for s, k, v in self.iterate(st, b, lambda s, e: self.cb_append(s, a, e), node):
                    yield s, v if k == RAISE else a
                return
            if o.kind == 'set':
                name = {'BitOr': 'update', 'Sub': 'difference_update',
                        'BitAnd': 'intersection_update'}.get(op)
                if name:
                    for s, v in self.call_method(st, a, name, [b], {}, node):
                        yield s, v if isinstance(v, Exc) else a
                    return
        yield from self.binop(op, a, b, st, node)

    def st_Delete(self, node, st, env):
        yield from self._delete(node.targets, st, env, node)

    def _delete(self, targets, st, env, node):
        if not targets:
            yield st, NEXT, None
            return
        t = targets[0]
        outs = []
        if isinstance(t, ast.Name):
            o = st.heap[env]
            v = dict(o.vars)
            v.pop(t.id, None)
            st.heap[env] = o.with_(vars=v)
            outs = [(st, None)]
        elif isinstance(t, ast.Attribute):
            for s, o in self.eval(t.value, st, env):
                if isinstance(o, Exc):
                    outs.append((s, o))
                elif o[0] == 'ref' and s.heap[o].kind == 'inst' and t.attr in s.heap[o].attrs:
                    a = dict(s.heap[o].attrs)
                    del a[t.attr]
                    s.upd(o, attrs=a)
                    outs.append((s, None))
                else:
                    s.note('attribute deleted')
                    outs.append((s, None))
        elif isinstance(t, ast.Subscript):
            outs = self._del_item(t, st, env, node)
        else:
            st.note('delete')
            outs = [(st, None)]
        for s, x in outs:
            if isinstance(x, Exc):
                yield s, RAISE, x
            else:
                yield from self._delete(targets[1:], s, env, node)

    def _del_item(self, t, st, env, node):
        for s, o in self.eval(t.value, st, env):
            if isinstance(o, Exc):
                yield s, o
                continue
            if isinstance(t.slice, ast.Slice):
                for s2, sl in self.eval_slice(t.slice, s, env):
                    if isinstance(sl, Exc):
                        yield s2, sl
                    else:
                        yield from self.del_slice(s2, o, sl, node)
                continue
            for s2, i in self.eval(t.slice, s, env):
                if isinstance(i, Exc):
                    yield s2, i
                else:
                    yield from self.delitem(s2, o, i, node)

    def del_slice(self, st, o, sl, node):
        if o[0] == 'ref' and st.heap[o].kind == 'list':
            ob = st.heap[o]
            cs = self.const_slice(sl)
            if ob.exact and cs is not None:
                items = list(ob.items)
                del items[cs]
                st.heap[o] = ob.with_(items=tuple(items))
                yield st, None
                return
            if sl == [None, None, None]:
                st.heap[o] = ob.with_(items=(), exact=True, wit=(), others=frozenset())
                yield st, None
                return
            lo, hi, step = sl
            keep = None
            if step is None and (lo is None or lo == T.C(0)) and hi is not None:
                keep = [hi, None, None]          # what remains is [hi:]
            elif step is None and hi is None and lo is not None:
                keep = [None, lo, None]
            if keep is not None and not ob.exact:
                for s, _v in self.slice_summary(st, o, keep, node, out=o):
                    yield s, None
                return
        st.note('slice deleted')
        self.havoc(st, [o])
        yield st, None

    def delitem(self, st, o, i, node):
        if o[0] == 'ref':
            ob = st.heap[o]
            if ob.kind == 'dict':
                for s, found in self.dict_del(st, o, i):
                    if found:
                        if ob.d.get('flavor') == 'shelf':
                            s.event('dbdel', o, i, self.site(s, node))
                        yield s, None
                    else:
                        yield self.raises(s, 'KeyError', node, i)
                return
            if ob.kind == 'list' and ob.exact and i[0] == 'c' and isinstance(i[2], int):
                items = list(ob.items)
                try:
                    del items[i[2]]
                except IndexError:
                    yield self.raises(st, 'IndexError', node)
                    return
                st.heap[o] = ob.with_(items=tuple(items))
                yield st, None
                return
            if ob.kind == 'list' and i[0] == 'app' and i[1] == 'index' and i[2] == o:
                # del l[l.index(x)]
                self.list_remove_one(st, o, i[3])
                yield st, None
                return
            if ob.kind == 'inst':
                f = self.p.find_method(ob.cls, '__delitem__')
                t = None
                if isinstance(f, Function):
                    t = ('bm', f.fid, o)
                elif f is not None and f[0] == 'ext':
                    t = ('bext', f[1], o)
                if t is not None:
                    for s, x in self.call(st, t, [i], {}, node):
                        yield s, x if isinstance(x, Exc) else None
                    return
        if self.cached(o):
            yield st, None
            return
        st.event('delitem', o, i, self.site(st, node))
        if o[0] in ('unk', 'ref'):
            st.note('item deleted')
            self.havoc(st, [o])
        yield st, None

    def list_remove_one(self, st, ref, e):
        o = st.heap[ref]
        self.mutated(st, ref)
        if o.exact:
            items = list(o.items)
            for i, x in enumerate(items):
                if self.eq(x, e, st):
                    del items[i]
                    break
            else:
                st.note('removal from a list')
            st.heap[ref] = o.with_(items=tuple(items))
            return
        d = dict(o.wit)
        if e in d and d[e] >= 1:
            if d[e] == 2:
                st.note('removal of one of several')
            d[e] -= 1
            st.heap[ref] = o.with_(wit=tuple((k, c) for k, c in d.items() if c))

    def st_Return(self, node, st, env):
        if node.value is None:
            yield st, RET, T.NONE
            return
        for s, v in self.eval(node.value, st, env):
            if isinstance(v, Exc):
                yield s, RAISE, v
            else:
                yield s, RET, v

    def st_If(self, node, st, env):
        for s, r in self.cond(node.test, st, env):
            if isinstance(r, Exc):
                yield s, RAISE, r
            else:
                yield from self.block(node.body if r else node.orelse, s, env)

    def st_Assert(self, node, st, env):
        for s, r in self.cond(node.test, st, env):
            if isinstance(r, Exc):
                yield s, RAISE, r
            elif r:
                yield s, NEXT, None
            else:
                yield s, RAISE, Exc('AssertionError', None, self.site(s, node))

    def st_For(self, node, st, env):
        for s, it in self.eval(node.iter, st, env):
            if isinstance(it, Exc):
                yield s, RAISE, it
                continue
            if it[0] == 'ref':
                s.stack = s.stack + (it,)
            base = len(s.stack)
            def cb(s2, e):
                for s3, x in self.assign(node.target, e, s2, env, node):
                    if isinstance(x, Exc):
                        yield s3, RAISE, x
                        continue
                    for s4, k4, v4 in self.block(node.body, s3, env):
                        if k4 in (NEXT, CONT):
                            self.forget(s4, env, node, 'head')
                        yield s4, k4, v4
            for s2, k, v in self.iterate(s, it, cb, node):
                if it[0] == 'ref':
                    s2.stack = s2.stack[:base - 1]
                if k == BRK:
                    self.forget(s2, env, node, 'exit')
                    yield s2, NEXT, None
                elif k == NEXT:
                    if not node.orelse:
                        self.forget(s2, env, node, 'exit')
                    yield from self.block(node.orelse, s2, env)
                else:
                    yield s2, k, v

    def forget(self, st, env, node, where):
        """Drops the local variables that are dead at a loop."""
        e = self.var_env(st, env)
        fid = st.heap[e].d.get('fid')
        f = self.p.functions.get(fid)
        if f is None:
            return
        lv = self._live.get(fid)
        if lv is None:
            from .live import Live
            lv = self._live[fid] = Live(f.node)
        keep = getattr(lv, where).get(id(node))
        if keep is None:
            return
        vars = st.heap[e].vars
        drop = [n for n in vars if n not in keep and n not in lv.captured
                and n in f.local_names and n != 'self']
        if drop:
            st.upd(e, vars={k: v for k, v in vars.items() if k not in drop})

    def st_While(self, node, st, env):
        self.visited['loops'] += 1
        work = Joiner(self)
        work.add(st.copy())
        exits = Joiner(self)
        left = Joiner(self)
        shapes = {}
        while work.todo:
            s = work.pop()
            if work.count > self.MAX_HEADS:
                self.dropped += 1
                break
            for s1, r in self.cond(node.test, s, env):
                if isinstance(r, Exc):
                    yield s1, RAISE, r
                elif not r:
                    yield from self.block(node.orelse, s1, env)
                else:
                    for s2, k, v in self.block(node.body, s1, env):
                        if k in (NEXT, CONT):
                            self.forget(s2, env, node, 'head')
                            self.purge(s2)
                            self.widen(s2, shapes)
                            work.add(s2)
                        elif k == BRK:
                            exits.add(s2)
                        else:
                            left.add(s2, (k, v))
        for s1 in exits.states():
            yield s1, NEXT, None
        for s1, (k, v) in list(left.table.values()):
            yield s1, k, v

    def st_Raise(self, node, st, env):
        if node.exc is None:
            cur = st.heap[self.var_env(st, env)].d.get('handling')
            if cur is None:
                for e in reversed(st.stack):
                    if e in st.heap and st.heap[e].kind == 'env' and st.heap[e].d.get('handling'):
                        cur = st.heap[e].d['handling']
                        break
            yield st, RAISE, cur or Exc('RuntimeError', None, self.site(st, node))
            return
        for s, v in self.eval(node.exc, st, env):
            if isinstance(v, Exc):
                yield s, RAISE, v
            elif v[0] == 'excinst':
                yield s, RAISE, Exc(v[1], v[2], self.site(s, node))
            elif v[0] == 'ext':
                n = v[1][9:] if v[1].startswith('builtins.') else v[1]
                yield s, RAISE, Exc(n, (), self.site(s, node))
            elif v[0] == 'cls':
                yield s, RAISE, Exc(v[1], (), self.site(s, node))
            elif v[0] == 'exc':
                yield s, RAISE, v[1]
            else:
                yield s, RAISE, Exc('*', (), self.site(s, node))

    def handler_names(self, h, st, env):
        """The names an except clause catches; None for everything."""
        if h.type is None:
            return None
        nodes = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        out = []
        for n in nodes:
            for _s, v in self.eval(n, st.copy(), env):
                if isinstance(v, Exc):
                    out.append('?')
                elif v[0] == 'ext':
                    out.append(v[1][9:] if v[1].startswith('builtins.') else v[1])
                elif v[0] == 'cls':
                    out.append(v[1])
                elif v[0] == 'tup':
                    for x in v[1:]:
                        out.append(x[1].replace('builtins.', '') if x[0] in ('ext', 'cls') else '?')
                else:
                    out.append('?')
                break
        return out

    def matches(self, exc, names):
        """True/False/None: whether the clause catches the exception."""
        if exc.name == '$exit':
            return False
        if names is None:
            return True
        if exc.name == '*':
            if 'Exception' in names or 'BaseException' in names:
                return True
            return None
        chain = exc_chain(exc.name)
        if exc.name in self.p.classes:
            chain = set()
            for c in self.p.mro(exc.name):
                if isinstance(c, tuple):
                    chain |= exc_chain(c[1].split('.')[-1]) or {c[1]}
                else:
                    chain.add(c)
        if chain is None:
            chain = {exc.name, 'Exception', 'BaseException'}
        unknown = False
        for n in names:
            n2 = {'IOError': 'OSError', 'EnvironmentError': 'OSError',
                  'socket.error': 'OSError', 'os.error': 'OSError',
                  'select.error': 'OSError'}.get(n, n)
            if n2 in chain:
                return True
            if n2 == '?':
                unknown = True
        return None if unknown else False

    def st_Try(self, node, st, env):
        def with_finally(outs):
            if not node.finalbody:
                yield from outs
                return
            for s, k, v in outs:
                for s2, k2, v2 in self.block(node.finalbody, s, env):
                    if k2 == NEXT:
                        yield s2, k, v
                    else:
                        yield s2, k2, v2
        def run():
            for s, k, v in self.block(node.body, st, env):
                if k == NEXT:
                    yield from self.block(node.orelse, s, env)
                elif k == RAISE:
                    yield from self.handle(node.handlers, v, s, env)
                else:
                    yield s, k, v
        yield from with_finally(run())

    def handle(self, handlers, exc, st, env):
        if not handlers:
            yield st, RAISE, exc
            return
        h = handlers[0]
        m = self.matches(exc, self.handler_names(h, st, env))
        if m is None:
            b = st.copy()
            yield from self.handle(handlers[1:], exc, b, env)
        if m is False:
            yield from self.handle(handlers[1:], exc, st, env)
            return
        e = self.var_env(st, env)
        old = st.heap[e].d.get('handling')
        st.upd(e, handling=exc)
        if h.name:
            st.setvar(e, h.name, ('exc', exc))
        for s, k, v in self.block(h.body, st, env):
            s.upd(e, handling=old)
            yield s, k, v

    def st_With(self, node, st, env):
        yield from self._with(node.items, node, st, env)

    def _with(self, items, node, st, env):
        if not items:
            yield from self.block(node.body, st, env)
            return
        it = items[0]
        for s, cm in self.eval(it.context_expr, st, env):
            if isinstance(cm, Exc):
                yield s, RAISE, cm
                continue
            if cm[0] == 'ref' and s.heap[cm].kind == 'gen' and s.heap[cm].d.get('ctx'):
                def cb(s2, e):
                    outs = [(s2, None)]
                    if it.optional_vars is not None:
                        outs = self.assign(it.optional_vars, e, s2, env, node)
                    for s3, x in outs:
                        if isinstance(x, Exc):
                            yield s3, RAISE, x
                            continue
                        for s4, k, v in self._with(items[1:], node, s3, env):
                            if k == CONT:
                                yield s4, 'cont*', v
                            else:
                                yield s4, k, v
                for s2, k, v in self.iterate_gen(s, cm, cb, node):
                    yield s2, CONT if k == 'cont*' else k, v
                continue
            for s2, target, exits in self.enter(s, cm, node):
                if isinstance(target, Exc):
                    yield s2, RAISE, target
                    continue
                outs = [(s2, None)]
                if it.optional_vars is not None:
                    outs = self.assign(it.optional_vars, target, s2, env, node)
                for s3, x in outs:
                    if isinstance(x, Exc):
                        inner = [(s3, RAISE, x)]
                    else:
                        inner = self._with(items[1:], node, s3, env)
                    for s4, k, v in inner:
                        yield from exits(s4, k, v)

    exit_functions = ()

    def unwind(self, s, ref, k, v, node):
        """Leaves an ExitStack."""
        o = s.heap[ref]
        todo = o.data['exits']
        if not todo:
            yield s, k, v
            return
        s.heap[ref] = o.with_(data=dict(o.data, exits=todo[:-1]))
        x = todo[-1]
        if x[0] == 'cm':
            outs = self.exit_functions[x[1]](s, k, v)
        else:
            def calls():
                for s2, r in self.call(s, x[1], list(x[2]), dict(x[3]), node):
                    if isinstance(r, Exc):
                        yield s2, RAISE, r
                    else:
                        yield s2, k, v
            outs = calls()
        for s2, k2, v2 in outs:
            yield from self.unwind(s2, ref, k2, v2, node)

    def enter(self, st, cm, node):
        """Yields (state, target, exits)."""
        def plain(s, k, v):
            yield s, k, v
        if cm[0] == 'ref':
            o = st.heap[cm]
            if o.kind == 'ext':
                t = o.type
                if t == 'lock' and self.faults:
                    from .models import fault
                    for s2, e in fault(self, st, 'lock', [
                            'lockfile.LockTimeout', 'lockfile.LockFailed'], node):
                        yield s2, e, plain
                st.event('enter', t, cm, self.site(st, node))
                def exits(s, k, v):
                    s.event('exit', t, cm, self.site(s, node))
                    if t in ('file', 'tempfile'):
                        from .models import closed
                        for s2, e in closed(self, s, cm, node):
                            if e is None:
                                yield s2, k, v
                            else:
                                yield s2, RAISE, e
                        return
                    if t == 'suppress' and k == RAISE:
                        m = self.matches(v, list(o.data.get('names', ())))
                        if m is None:
                            yield s.copy(), RAISE, v
                        if m is not False:
                            yield s, NEXT, None
                            return
                    if t == 'exitstack':
                        yield from self.unwind(s, cm, k, v, node)
                        return
                    if t == 'closing':
                        for s2, f in self.getattr(s, o.data['of'], 'close', node):
                            for s3, r in [(s2, f)] if isinstance(f, Exc) else \
                                    self.call(s2, f, [], {}, node):
                                if isinstance(r, Exc):
                                    yield s3, RAISE, r
                                else:
                                    yield s3, k, v
                        return
                    yield s, k, v
                yield st, o.data['of'] if t in ('closing', 'nullcontext') else cm, exits
                return
            if o.kind == 'inst':
                fe = self.p.find_method(o.cls, '__enter__')
                fx = self.p.find_method(o.cls, '__exit__')
                if isinstance(fe, Function) and isinstance(fx, Function):
                    def exits(s, k, v):
                        if k == RAISE:
                            a = [T.app('exctype', ('exc', v)), ('exc', v),
                                 T.app('traceback')]
                        else:
                            a = [T.NONE] * 3
                        for s2, r in self.call(s, ('bm', fx.fid, cm), a, {}, node):
                            if isinstance(r, Exc):
                                yield s2, RAISE, r
                                continue
                            if k == RAISE:
                                for s3, b in self.truth(r, s2, node):
                                    if b:
                                        yield s3, NEXT, None
                                    else:
                                        yield s3, k, v
                            else:
                                yield s2, k, v
                    for s2, r in self.call(st, ('bm', fe.fid, cm), [], {}, node):
                        yield s2, r, exits
                    return
        st.note('context manager')
        yield st, T.unk('context manager'), plain

    # ======================================================================
    # entry points
    def run_method(self, st, ref, name, args, kwargs=None):
        """All outcomes of a method call: (state, term | Exc)."""
        cls = st.heap[ref].cls
        f = self.p.method(cls, name)
        for s, g in self.getattr(st, ref, name):
            yield from self.call(s, g, list(args), kwargs or {}, None)
