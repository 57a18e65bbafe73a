"""Flow-sensitive inference of kinds of values, over all paths at once.

Where the interpreter of interp.py follows each path with symbolic values, this
one joins the paths where they meet and keeps only what kind of value a variable
can have: text, bytes, a number, nothing, a header, a list of ... Objects are
told apart by where they are made; the heap is flow-insensitive. Everything is
iterated to a fixpoint, so loops, recursion, and options of any setting are
covered. It finds operations whose operands cannot be what the operation needs,
attributes and names that do not exist, argument lists that do not fit, writes
to objects that the analysed call did not make, and results whose order is not
determined. What it does not know is the value ANY, which takes part in no error.

Nothing of the analysed program is imported or run.
"""
import ast
import builtins
import importlib
import inspect

from .program import Program, Function, ClassInfo

ANY = ('any',)
NONE = ('none',)
STR, BYTES, INT, FLOAT, BOOL = ('str',), ('bytes',), ('int',), ('float',), ('bool',)
BOTTOM = frozenset()
VANY = frozenset([ANY])


def V(*atoms):
    return frozenset(atoms)


VNONE, VSTR, VBYTES, VINT, VFLOAT, VBOOL = (
    V(NONE), V(STR), V(BYTES), V(INT), V(FLOAT), V(BOOL))
CONST_KINDS = {str: 'str', bytes: 'bytes', int: 'int', float: 'float', bool: 'bool',
               type(None): 'none'}
MOST_CONSTS = 6


def const(v):
    if v is None:
        return NONE
    if v is Ellipsis:
        return ANY
    k = CONST_KINDS.get(type(v))
    if k is None:
        return ANY
    if isinstance(v, (str, bytes)) and len(v) > 4000:
        return (k,)
    return ('c', k, v)


def kind(atom):
    """The kind of value of an atom: its sort, or what it is."""
    return atom[1] if atom[0] == 'c' else atom[0]


def general(v):
    """The value without its constants."""
    return frozenset((a[1],) if a[0] == 'c' else a for a in v)


def depth(v):
    return 1 + max((depth(x) for a in v if a[0] == 'tup' for x in a[1]), default=0)


def join(*vs):
    out = frozenset().union(*vs)
    if len(out) > 3:
        seen = {}
        for a in out:
            if a[0] == 'c':
                seen[a[1]] = seen.get(a[1], 0) + 1
        big = {k for k, n in seen.items() if n > MOST_CONSTS or (k,) in out}
        if big:
            out = frozenset((a[1],) if a[0] == 'c' and a[1] in big else a for a in out)
        tups = [a for a in out if a[0] == 'tup']
        if len(tups) > 4:
            lens = {len(a[1]) for a in tups}
            out = frozenset(a for a in out if a[0] != 'tup') | frozenset(
                ('tup', tuple(general(join(*(t[1][i] for t in tups if len(t[1]) == n)))
                              for i in range(n))) for n in lens)
    elif len(out) > 1:
        out = frozenset((a[1],) if a[0] == 'c' and (a[1],) in out else a for a in out)
    return out


def pos(node):
    return (getattr(node, 'lineno', 0), getattr(node, 'col_offset', 0),
            getattr(node, 'end_lineno', 0), getattr(node, 'end_col_offset', 0))


def fields_of(p, c):
    """The fields that the body of a dataclass or named tuple declares."""
    n = p.classes[c].node

    def last(e):
        e = e.func if isinstance(e, ast.Call) else e
        return getattr(e, 'id', getattr(e, 'attr', None))
    if not any(last(d) in ('dataclass', 'define', 'attrs', 's') for d in n.decorator_list) and \
            not any(last(b) in ('NamedTuple', 'TypedDict') for b in n.bases):
        return []
    return [x.target.id for x in n.body
            if isinstance(x, ast.AnnAssign) and isinstance(x.target, ast.Name)
            and 'ClassVar' not in ast.dump(x.annotation)]


class Obj:
    """An object, or all objects made at one place."""

    def __init__(self, kind, owner, where, cls=None):
        self.kind = kind          # list, dict, set, tuple, iter, inst, class, env, other
        self.owner = owner        # own, glob, msg, cache
        self.where = where
        self.cls = cls
        self.elem = BOTTOM
        self.key = BOTTOM
        self.attrs = {}
        self.unordered = False
        self.sorted = False


class Event:
    def __init__(self, kind, fid, node, text, certain, local=False):
        self.local = local        # guarded in the same function
        self.kind = kind
        self.fid = fid
        self.node = node
        self.text = text
        self.certain = certain


class Frame:
    def __init__(self, flow, f, fid, module, ctx, genv):
        self.flow = flow
        self.f = f
        self.fid = fid
        self.module = module
        self.ctx = ctx
        self.genv = genv
        self.cells = None          # site of the environment seen by nested functions
        self.outer = None          # site of the enclosing function's environment
        self.ret = BOTTOM
        self.yields = BOTTOM
        self.loops = []
        self.guards = []
        self.cls = None
        self.selfv = None
        self.raised = []           # environments at places that can raise
        self.handlers = 0


class Flow:
    def __init__(self, program, generalize=True):
        self.p = program
        self.heap = {}
        self.memo = {}
        self.ctxs = {}
        self.per_fid = {}
        self.changed = False
        self.events = {}
        self.guarded = {}
        self.on = {}               # what lacks an attribute
        self.asked = {}            # what functions ask for with hasattr
        self.whole = False         # functions are entered with any arguments
        self.good = set()
        self.notes = {}
        self.collect = False
        self.active = set()
        self.done = set()
        self.stack = []
        self.globals = {}          # module name -> {name: Value}
        self.class_sites = {}
        self.owner = 'glob'
        self.guard = ('none',)
        self.generalize = generalize
        self.functions = set()
        self.sites = 0
        self.ops = {}
        self.entry = {}
        self.rounds = 0
        self.writes = {}
        self.order = {}
        self.impure = {}
        self.attr_stores = None
        self.changes = set()
        self.caches = set()
        self.hooks = {}
        from . import flowlib
        self.lib = flowlib

    # -- heap ------------------------------------------------------------------
    def new(self, fr, node, kind, elem=BOTTOM, cls=None, tag='', key=BOTTOM, owner=None):
        site = (fr.fid, fr.ctx, pos(node), kind, tag, cls)
        o = self.heap.get(site)
        if o is None:
            o = Obj(kind, owner or self.owner, self.where(fr, node), cls)
            self.heap[site] = o
            self.changed = True
        self.put(o, 'elem', elem)
        self.put(o, 'key', key)
        return ('obj', site)

    def put(self, o, field, v):
        old = getattr(o, field)
        n = join(old, v)
        if depth(n) > 4:
            n = VANY
        if n != old:
            setattr(o, field, n)
            self.changed = True

    def put_attr(self, o, name, v):
        old = o.attrs.get(name, None)
        n = v if old is None else join(old, v)
        if depth(n) > 4:
            n = VANY
        if n != old:
            o.attrs[name] = n
            self.changed = True

    def obj(self, atom):
        return self.heap[atom[1]]

    def unorder(self, o):
        if not o.unordered and not o.sorted:
            o.unordered = True
            self.changed = True

    # -- events ----------------------------------------------------------------
    def where(self, fr, node):
        f = fr.f
        rel = fr.module.rel if fr.module else '?'
        qual = f.qual if f is not None else '<module>'
        return '%s:%s' % (rel, qual)

    def event(self, kind, fr, node, text, certain=True, on=None):
        """An operation that cannot be done. Certain: with every value it can get."""
        if not self.collect:
            return
        if on is not None:
            self.on.setdefault((kind, fr.fid, pos(node), text), on)
        g = self.guard
        k = (kind, fr.fid, pos(node), text)
        if g[0] == 'broad' or g[0] == 'explicit' and kind in ('type', 'attr', 'call') and (
                {'TypeError': 'type', 'AttributeError': 'attr'}.get(g[1]) == kind
                or g[1] == 'both'):
            # The program is prepared for it; but something has to be able to work.
            if not certain or on is not None and on[0] == 'ext':
                self.worked(fr, node)
            e = Event(kind, fr.fid, node, text, certain, g[-1] == fr.fid)
            old = self.guarded.setdefault(k, e)
            if certain and not e.local and (old.local or not old.certain):
                self.guarded[k] = e
            return
        self.events.setdefault(k, Event(kind, fr.fid, node, text, certain))

    def worked(self, fr, node):
        if self.collect:
            self.good.add((fr.fid, pos(node)))

    def op(self, fr, node, what):
        if self.collect:
            self.ops.setdefault((fr.fid, pos(node), what), 1)

    def note(self, fr, node, text):
        if self.collect:
            self.notes.setdefault((fr.fid, text), getattr(node, 'lineno', 0))

    def mutate(self, fr, node, atom, how):
        """The object is changed."""
        if atom[0] == 'obj':
            o = self.obj(atom)
            owner = o.owner
            what = '%s made in %s' % (o.kind if o.kind != 'inst' else str(o.cls), o.where)
            if atom[1] in self.caches:
                return
        elif atom[0] == 'x':
            owner = atom[2]
            what = atom[1].split(':')[0]
        elif atom[0] == 'cls':
            owner, what = 'glob', atom[1]
        elif atom[0] == 'mod':
            owner, what = 'glob', atom[1]
        else:
            return
        if self.collect and self.owner == 'own':
            self.changes.add((fr.fid, pos(node), how))
        if owner != 'own' and self.collect and self.owner == 'own':
            k = (fr.fid, pos(node), owner)
            self.writes.setdefault(k, (fr, node, owner, what, how))

    def disorder(self, fr, node, atom, how):
        if self.collect:
            o = self.obj(atom)
            k = (fr.fid, pos(node))
            self.order.setdefault(k, (fr, node, o.where, how))

    # -- whole program -----------------------------------------------------------
    def run(self, entries, most=40):
        """Modules, then entries (functions of self), until nothing changes."""
        for i in range(most):
            self.changed = False
            self.done = set()
            self.rounds = i + 1
            self.pass_(entries)
            if not self.changed:
                break
        else:
            self.note(Frame(self, None, '', None, 0, {}), None, 'no fixpoint')
        self.collect = True
        self.done = set()
        self.pass_(entries)
        self.collect = False
        for k, e in self.guarded.items():
            if e.certain and (not e.local or (k[1], k[2]) not in self.good):
                self.events.setdefault(k, e)

    def pass_(self, entries):
        self.owner = 'glob'
        self.guard = ('none',)
        for name in self.module_order():
            self.module(name)
        self.owner = 'own'
        for e in entries:
            e(self)

    def module_order(self):
        """Modules after those that they import."""
        if getattr(self, '_order', None) is None:
            out, seen = [], set()

            def visit(n):
                if n in seen or n not in self.p.modules:
                    return
                seen.add(n)
                m = self.p.modules[n]
                for x in ast.walk(m.tree):
                    if isinstance(x, ast.ImportFrom):
                        b = self.p.abs_import(m, x)
                        visit(b)
                        for a in x.names:
                            visit(b + '.' + a.name)
                    elif isinstance(x, ast.Import):
                        for a in x.names:
                            visit(a.name)
                out.append(n)
            for n in sorted(self.p.modules):
                visit(n)
            self._order = out
        return self._order

    def module(self, name):
        m = self.p.modules[name]
        g = self.globals.setdefault(name, {})
        fr = Frame(self, None, name + ':<module>', m, 0, g)
        env = {}
        fr.is_module = True
        env = self.block(fr, m.tree.body, env)
        for k, v in (env or {}).items():
            old = g.get(k)
            n = v if old is None else join(old, v)
            if n != old:
                g[k] = n
                self.changed = True

    # -- functions ---------------------------------------------------------------
    def call_fn(self, fr, node, fatom, args, kwargs, star=False):
        """Call of a user function; args are Values."""
        _t, fid, outer = fatom[:3]
        defaults = fatom[3] if len(fatom) > 3 else None
        f = self.p.functions[fid]
        bound = self.bind(fr, node, f, args, kwargs, star, defaults)
        if bound is None:
            return BOTTOM
        return self.enter(fr, f, bound, outer, node)

    def bind(self, fr, node, f, args, kwargs, star, defaults):
        a = f.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        kwonly = [x.arg for x in a.kwonlyargs]
        out = {}
        name = f.qual
        args = list(args)
        if star:
            extra = join(*[v for s, v in args if s] or [BOTTOM])
            vals, some = [], False
            for s, v in args:
                if s:
                    some = True
                elif some:
                    vals.append(join(v, extra))
                else:
                    vals.append(v)
        else:
            vals, some, extra = args, False, BOTTOM
        if len(vals) > len(pos) and not a.vararg:
            self.event('call', fr, node, '%s() takes %d positional arguments, not %d'
                       % (name, len(pos), len(vals)))
            return None
        for n, v in zip(pos, vals):
            out[n] = v
        rest = vals[len(pos):]
        if some:
            for n in pos[len(vals):]:
                if n not in kwargs:
                    out[n] = join(extra, VANY) if not extra else extra
        if a.vararg:
            e = join(*rest, extra) if rest or some else BOTTOM
            if some or len(rest) > 6:
                out[a.vararg.arg] = V(self.new(fr, node, 'tuple', e, tag='*' + f.fid))
            else:
                out[a.vararg.arg] = V(('tup', tuple(rest)))
        more = {}
        anykw = kwargs.get('**')
        for k, v in kwargs.items():
            if k == '**':
                continue
            if k in pos[len(a.posonlyargs):] or k in kwonly:
                if k in out and not some:
                    self.event('call', fr, node, '%s() gets %s twice' % (name, k))
                    return None
                out[k] = v
            elif a.kwarg:
                more[k] = v
            else:
                self.event('call', fr, node, '%s() has no parameter %s' % (name, k))
                return None
        if a.kwarg:
            e = join(*more.values(), anykw or BOTTOM) if more or anykw else BOTTOM
            key = VSTR if anykw is not None else V(*[const(k) for k in more])
            out[a.kwarg.arg] = V(self.new(fr, node, 'dict', e, tag='**' + f.fid, key=key))
        nd = len(a.defaults)
        for i, n in enumerate(pos):
            if n not in out:
                j = i - (len(pos) - nd)
                if j >= 0:
                    out[n] = defaults[j] if defaults else VANY
                    if anykw:
                        out[n] = join(out[n], anykw)
                elif anykw is not None:
                    out[n] = anykw
                else:
                    self.event('call', fr, node, '%s() needs an argument %s' % (name, n))
                    return None
        for i, n in enumerate(kwonly):
            if n not in out:
                if a.kw_defaults[i] is None and anykw is None:
                    self.event('call', fr, node, '%s() needs an argument %s' % (name, n))
                    return None
                out[n] = (defaults[nd + i] if defaults else VANY)
                if anykw:
                    out[n] = join(out[n], anykw)
        return out

    def enter(self, fr, f, bound, outer, node):
        fid = f.fid
        if fid in self.hooks:
            r = self.hooks[fid](self, fr, node, bound)
            if r is not None:
                return r
        args = tuple(sorted((k, v) for k, v in bound.items())) if False else \
            tuple(sorted(bound.items(), key=lambda kv: kv[0]))
        key = (fid, args, outer, self.guard, self.owner)
        ctxs = self.per_fid.setdefault(fid, [])
        if key not in self.ctxs:
            if len(ctxs) >= 24:
                # Too many: one context for all others.
                wide = (fid, 'wide', outer, self.guard, self.owner)
                if wide not in self.ctxs:
                    self.ctxs[wide] = len(self.ctxs) + 1
                    self.memo[wide] = (BOTTOM, BOTTOM, dict(bound))
                ret, ys, old = self.memo[wide]
                new = {k: join(general(old.get(k, BOTTOM)), general(v))
                       for k, v in bound.items()}
                if new != old:
                    self.changed = True
                    self.memo[wide] = (ret, ys, new)
                key, bound = wide, new
            else:
                self.ctxs[key] = len(self.ctxs) + 1
                ctxs.append(key)
        return self.analyse(f, key, bound, outer)

    def analyse(self, f, key, bound, outer):
        ctx = self.ctxs[key]
        m = self.memo.get(key)
        ret, ys = (m[0], m[1]) if m else (BOTTOM, BOTTOM)
        if ctx not in self.done and ctx not in self.active and len(self.stack) < 60:
            self.active.add(ctx)
            self.stack.append(f.fid)
            fr = Frame(self, f, f.fid, f.module, ctx, self.globals.setdefault(
                f.module.name, {}))
            fr.outer = outer
            fr.is_module = False
            if f.cls is not None and not isinstance(f.node, ast.Lambda):
                fr.cls = f.cls
            elif f.cls is not None:
                fr.cls = f.cls
            if self.has_nested(f):
                fr.cells = ('env', f.fid, ctx)
                if fr.cells not in self.heap:
                    self.heap[fr.cells] = Obj('env', self.owner, f.where())
            env = dict(bound)
            if self.collect:
                self.functions.add(f.where())
            a = f.node.args
            first = (a.posonlyargs + a.args)[:1]
            if first:
                fr.selfv = bound.get(first[0].arg)
            if fr.cells:
                for k, v in env.items():
                    self.put_attr(self.heap[fr.cells], k, v)
            if isinstance(f.node, ast.Lambda):
                r, env = self.ev(fr, f.node.body, env)
                fr.ret = r
            else:
                end = self.block(fr, f.node.body, env)
                if end is not None and not f.is_generator:
                    fr.ret = join(fr.ret, VNONE)
            nret, nys = join(ret, fr.ret), join(ys, fr.yields)
            if depth(nret) > 4:
                nret = VANY
            if depth(nys) > 4:
                nys = VANY
            if (nret, nys) != (ret, ys):
                self.changed = True
            self.memo[key] = (nret, nys) + tuple((m or ())[2:])
            ret, ys = nret, nys
            self.stack.pop()
            self.active.discard(ctx)
            self.done.add(ctx)
        if f.is_generator:
            site = ('gen', f.fid, ctx)
            o = self.heap.get(site)
            if o is None:
                o = self.heap[site] = Obj('iter', self.owner, f.where())
                self.changed = True
            self.put(o, 'elem', ys)
            return V(('obj', site))
        return ret

    def has_nested(self, f):
        r = getattr(f, '_nested', None)
        if r is None:
            r = any(isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef))
                    for n in f.own_nodes())
            f._nested = r
        return r

    # -- statements --------------------------------------------------------------
    def block(self, fr, body, env):
        for st in body:
            if env is None:
                return None
            try:
                env = self.stmt(fr, st, env)
            except (AttributeError, LookupError, TypeError, ValueError, AssertionError) as e:
                # The analysis does not understand the statement.
                self.note(fr, st, 'internal error: %s: %s' % (type(e).__name__, e))
                env = dict(env)
                for x in ast.walk(st):
                    if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                        env[x.id] = VANY
        return env

    def merge(self, *envs):
        envs = [e for e in envs if e is not None]
        if not envs:
            return None
        if len(envs) == 1:
            return dict(envs[0])
        out = {}
        for k in set().union(*envs):
            vs = [e[k] for e in envs if k in e]
            if len(vs) < len(envs):
                vs.append(V(('unbound',)))
            out[k] = join(*vs)
        return out

    def set_name(self, fr, name, v, env):
        env = dict(env)
        glob = getattr(fr, 'global_names', None)
        if glob is None and fr.f is not None:
            glob = fr.global_names = set()
            fr.nonlocal_names = set()
            for n in fr.f.own_nodes():
                if isinstance(n, ast.Global):
                    glob.update(n.names)
                elif isinstance(n, ast.Nonlocal):
                    fr.nonlocal_names.update(n.names)
        if glob and name in glob:
            g = fr.genv
            old = g.get(name)
            n = v if old is None else join(old, v)
            if n != old:
                g[name] = n
                self.changed = True
            if self.collect and self.owner == 'own':
                k = (fr.fid, name)
                self.writes.setdefault(k, (fr, fr.f.node, 'glob', 'global ' + name,
                                           'assignment'))
            return env
        if fr.f is not None and name in fr.nonlocal_names:
            site = fr.outer
            while site is not None:
                o = self.heap[site]
                if name in o.attrs:
                    self.put_attr(o, name, v)
                    if o.owner != 'own' and self.owner == 'own' and self.collect:
                        self.writes.setdefault((fr.fid, name), (
                            fr, fr.f.node, 'glob', 'variable ' + name + ' of ' + o.where,
                            'assignment'))
                    break
                site = o.attrs.get('~outer')
                site = next(iter(site))[1] if site else None
            return env
        env[name] = v
        if fr.cells:
            self.put_attr(self.heap[fr.cells], name, v)
        return env

    def stmt(self, fr, n, env):
        m = getattr(self, 's_' + type(n).__name__, None)
        for h in fr.raised:
            h.append(env)
        if m is None:
            self.note(fr, n, 'statement ' + type(n).__name__)
            return env
        return m(fr, n, env)

    def s_Expr(self, fr, n, env):
        _v, env = self.ev(fr, n.value, env)
        return env

    def s_Pass(self, fr, n, env):
        return env

    s_Global = s_Nonlocal = s_Pass

    def s_Assign(self, fr, n, env):
        v, env = self.ev(fr, n.value, env)
        if not v:
            return None if not self.maybe_recursing() else env
        if fr.is_module and self.generalize and isinstance(n.value, (ast.Constant, ast.Tuple,
                                                                     ast.UnaryOp)):
            if any(isinstance(t, ast.Name) and t.id.isupper() for t in n.targets):
                v = frozenset(self.option(a) for a in v)
        for t in n.targets:
            env = self.assign(fr, t, v, env)
        return env

    def maybe_recursing(self):
        return not self.collect

    def option(self, a):
        """An option can have any value of its kind."""
        if a[0] == 'c':
            return (a[1],)
        return a

    def s_AnnAssign(self, fr, n, env):
        if n.value is None:
            return env
        v, env = self.ev(fr, n.value, env)
        if fr.is_module and self.generalize and isinstance(n.target, ast.Name) \
                and n.target.id.isupper():
            v = frozenset(self.option(a) for a in v)
        return self.assign(fr, n.target, v, env)

    def s_AugAssign(self, fr, n, env):
        t = n.target
        load = {ast.Name: lambda: ast.Name(t.id, ast.Load()),
                ast.Attribute: lambda: ast.Attribute(t.value, t.attr, ast.Load()),
                ast.Subscript: lambda: ast.Subscript(t.value, t.slice, ast.Load())}[type(t)]()
        ast.copy_location(load, t)
        a, env = self.ev(fr, load, env)
        b, env = self.ev(fr, n.value, env)
        out = BOTTOM
        rest = BOTTOM
        for x in a:
            if x[0] == 'obj' and self.obj(x).kind in ('list', 'set', 'dict') and isinstance(
                    n.op, (ast.Add, ast.BitOr, ast.BitAnd, ast.Sub, ast.BitXor, ast.Mult)):
                self.mutate(fr, n, x, 'augmented assignment')
                o = self.obj(x)
                if isinstance(n.op, (ast.Add, ast.BitOr, ast.BitXor)):
                    if o.kind == 'dict':
                        for y in b:
                            if y[0] == 'obj':
                                self.put(o, 'elem', self.obj(y).elem)
                                self.put(o, 'key', self.obj(y).key)
                    else:
                        self.put(o, 'elem', self.iterate(fr, n.value, b, into=o))
                out |= V(x)
            else:
                rest |= V(x)
        if rest:
            out = join(out, self.binop(fr, n, n.op, rest, b))
        return self.assign(fr, t, out, env)

    def s_Return(self, fr, n, env):
        v = VNONE
        if n.value is not None:
            v, env = self.ev(fr, n.value, env)
        fr.ret = join(fr.ret, v)
        return None

    def s_Raise(self, fr, n, env):
        if n.exc is not None:
            _v, env = self.ev(fr, n.exc, env)
        if n.cause is not None:
            self.ev(fr, n.cause, env)
        for h in fr.raised:
            h.append(env)
        return None

    def s_Assert(self, fr, n, env):
        t, f = self.cond(fr, n.test, env)
        if n.msg is not None and f is not None:
            self.ev(fr, n.msg, f)
        return t

    def s_Delete(self, fr, n, env):
        for t in n.targets:
            if isinstance(t, ast.Name):
                env = dict(env)
                if t.id in env:
                    env[t.id] = V(('unbound',))
            elif isinstance(t, ast.Subscript):
                v, env = self.ev(fr, t.value, env)
                if not isinstance(t.slice, ast.Slice):
                    k, env = self.ev(fr, t.slice, env)
                else:
                    _k, env = self.ev_slice(fr, t.slice, env)
                    k = VINT
                for a in v:
                    self.mutate(fr, n, a, 'deletion of an item')
                    self.method_of_inst(fr, n, a, '__delitem__', [k])
            elif isinstance(t, ast.Attribute):
                v, env = self.ev(fr, t.value, env)
                for a in v:
                    self.mutate(fr, n, a, 'deletion of attribute ' + t.attr)
            elif isinstance(t, (ast.Tuple, ast.List)):
                env = self.s_Delete(fr, ast.copy_location(ast.Delete(t.elts), n), env)
        return env

    def s_If(self, fr, n, env):
        t, f = self.cond(fr, n.test, env)
        a = self.block(fr, n.body, t) if t is not None else None
        b = self.block(fr, n.orelse, f) if f is not None else None
        return self.merge(a, b)

    def loop(self, fr, head, body, orelse, env, test=None):
        """head(env) gives (env in the body, env after the loop)."""
        entry = env
        breaks = []
        for _i in range(12):
            # What is found in an iteration that is not the last one is found again
            # with more values, or was not an error.
            before = (set(self.events), set(self.guarded)) if self.collect else None
            fr.loops.append(([], []))
            inn, out = head(entry)
            end = self.block(fr, body, inn) if inn is not None else None
            brk, cont = fr.loops.pop()
            breaks = brk
            nxt = self.merge(env, end, *cont)
            if nxt == entry:
                break
            if _i > 6:
                nxt = {k: general(v) for k, v in nxt.items()}
                if nxt == entry:
                    break
            entry = nxt
            if before is not None and _i < 11:
                for d, old in zip((self.events, self.guarded), before):
                    for k in [k for k in d if k not in old and k[1] == fr.fid]:
                        del d[k]
        after = self.block(fr, orelse, out) if out is not None and orelse else out
        return self.merge(after, *breaks)

    def s_While(self, fr, n, env):
        return self.loop(fr, lambda e: self.cond(fr, n.test, e), n.body, n.orelse, env)

    def s_For(self, fr, n, env):
        it, env = self.ev(fr, n.iter, env)
        sens = self.sensitive(n.body)
        elem = self.iterate(fr, n.iter, it, ordered=sens)
        unord = self.is_unordered(it)
        if unord and not sens:
            pass

        def head(e):
            inn = self.assign(fr, n.target, elem, e) if elem else None
            return inn, dict(e)
        return self.loop(fr, head, n.body, n.orelse, env)

    def sensitive(self, body):
        """Whether the order in which a loop runs can show."""
        for s in body:
            for x in ast.walk(s):
                if isinstance(x, (ast.Yield, ast.YieldFrom, ast.Return, ast.Break)):
                    return True
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id not in (
                        'len', 'isinstance', 'str', 'int', 'max', 'min'):
                    return True
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) \
                        and x.func.attr in ('append', 'extend', 'insert', 'write'):
                    return True
        return False

    def s_Break(self, fr, n, env):
        if fr.loops:
            fr.loops[-1][0].append(env)
        return None

    def s_Continue(self, fr, n, env):
        if fr.loops:
            fr.loops[-1][1].append(env)
        return None

    def s_With(self, fr, n, env):
        for item in n.items:
            v, env = self.ev(fr, item.context_expr, env)
            out = BOTTOM
            for a in v:
                if a[0] == 'obj' and self.obj(a).kind == 'ctx':
                    out = join(out, self.obj(a).elem)
                elif a[0] == 'obj' and self.obj(a).kind == 'inst':
                    r = self.method_of_inst(fr, n, a, '__enter__', [])
                    self.method_of_inst(fr, n, a, '__exit__', [VANY, VANY, VANY])
                    out = join(out, r if r is not None else VANY)
                elif a[0] == 'x':
                    out = join(out, V(a))
                else:
                    out = join(out, VANY)
            if item.optional_vars is not None:
                env = self.assign(fr, item.optional_vars, out, env)
        # What is suppressed goes on behind it.
        fr.raised.append([])
        end = self.block(fr, n.body, env)
        states = fr.raised.pop()
        for h in fr.raised:
            h.extend(states)
        if any(self.suppresses(i.context_expr) for i in n.items):
            return self.merge(end, *states)
        return end

    def suppresses(self, e):
        return isinstance(e, ast.Call) and (
            getattr(e.func, 'attr', '') == 'suppress' or getattr(e.func, 'id', '') == 'suppress')

    def s_Try(self, fr, n, env):
        catches = []
        for h in n.handlers:
            catches += self.handler_names(h)
        old = self.guard
        if old[0] != 'explicit':
            if 'TypeError' in catches and 'AttributeError' in catches:
                self.guard = ('explicit', 'both', fr.fid)
            elif 'TypeError' in catches:
                self.guard = ('explicit', 'TypeError', fr.fid)
            elif 'AttributeError' in catches:
                self.guard = ('explicit', 'AttributeError', fr.fid)
            elif catches and ('Exception' in catches or 'BaseException' in catches):
                self.guard = ('broad', fr.fid)
        fr.raised.append([env])
        end = self.block(fr, n.body, env)
        states = fr.raised.pop()
        for h in fr.raised:
            h.extend(states)
        self.guard = old
        if end is not None and n.orelse:
            end = self.block(fr, n.orelse, end)
        outs = [end]
        start = self.merge(*states)
        fr.handlers += 1
        for h in n.handlers:
            e = dict(start)
            if h.type is not None:
                _v, e = self.ev(fr, h.type, e)
            if h.name:
                e = self.set_name(fr, h.name, V(('x', 'exc', 'own')), e)
            outs.append(self.block(fr, h.body, e))
        fr.handlers -= 1
        if n.finalbody:
            out = self.merge(*outs)
            f = self.block(fr, n.finalbody, self.merge(out, start))
            if out is None or f is None:
                return None
            return self.block(fr, n.finalbody, out)
        return self.merge(*outs)

    def handler_names(self, h):
        if h.type is None:
            return ['Exception']
        ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        return [t.id if isinstance(t, ast.Name) else getattr(t, 'attr', '') for t in ts]

    def s_Import(self, fr, n, env):
        for a in n.names:
            name = a.name
            t = self.import_term(fr, n, name)
            if t is None:
                return self.fails_import(fr, env)
            if a.asname:
                env = self.set_name(fr, a.asname, V(t), env)
            else:
                top = name.split('.')[0]
                env = self.set_name(fr, top, V(self.import_term(fr, n, top)), env)
        return env

    def fails_import(self, fr, env):
        for h in fr.raised:
            h.append(env)
        return None

    def import_term(self, fr, n, name):
        if name in self.p.modules:
            return ('mod', name)
        if name.split('.')[0] == 'sbclassifier':
            self.event('name', fr, n, 'there is no module ' + name)
            return None
        return ('ext', name)

    def s_ImportFrom(self, fr, n, env):
        base = self.p.abs_import(fr.module, n)
        for a in n.names:
            if a.name == '*':
                if base in self.p.modules:
                    g = self.globals.get(base, {})
                    for k, v in g.items():
                        if not k.startswith('_'):
                            env = self.set_name(fr, k, v, env)
                continue
            if base in self.p.modules:
                g = self.globals.get(base, {})
                if a.name in g:
                    v = g[a.name]
                elif base + '.' + a.name in self.p.modules:
                    v = V(('mod', base + '.' + a.name))
                else:
                    self.event('name', fr, n, 'module %s has no %s' % (base, a.name))
                    return self.fails_import(fr, env) if self.collect else env
            else:
                if base.split('.')[0] == 'sbclassifier':
                    self.event('name', fr, n, 'there is no module ' + base)
                    return None
                v = self.lib.ext_value(self, fr, n, base + '.' + a.name)
            env = self.set_name(fr, a.asname or a.name, v, env)
        return env

    def s_FunctionDef(self, fr, n, env):
        f = self.p.by_node[id(n)]
        v, env = self.function_value(fr, f, n, env)
        for d in reversed(n.decorator_list):
            dv, env = self.ev(fr, d, env)
            v = self.decorate(fr, d, dv, v)
        return self.set_name(fr, n.name, v, env)

    s_AsyncFunctionDef = s_FunctionDef

    def function_value(self, fr, f, n, env):
        ds = []
        for d in n.args.defaults:
            v, env = self.ev(fr, d, env)
            ds.append(v)
        for d in n.args.kw_defaults:
            if d is None:
                ds.append(BOTTOM)
            else:
                v, env = self.ev(fr, d, env)
                ds.append(v)
        if fr.cells and fr.outer and '~outer' not in self.heap[fr.cells].attrs:
            self.heap[fr.cells].attrs['~outer'] = V(('site', fr.outer))
        return V(('fn', f.fid, fr.cells or fr.outer, tuple(ds))), env

    def decorate(self, fr, d, dv, v):
        out = BOTTOM
        for a in dv:
            if a == ('ext', 'builtins.staticmethod') or a == ('ext', 'builtins.classmethod') \
                    or a == ('ext', 'builtins.property'):
                out |= frozenset((a[1].split('.')[1],) + (x,) for x in v)
            elif a == ('ext', 'contextlib.contextmanager'):
                out |= frozenset(('ctxm', x) for x in v)
            elif a[0] == 'ext' and a[1] in ('functools.lru_cache', 'functools.cache'):
                out |= frozenset(('cached', x) for x in v)
            elif a[0] == 'ext' and a[1] == 'functools.cached_property':
                out |= frozenset(('property', x) for x in v)
            elif a[0] == 'any' or a[0] == 'x':
                out |= VANY | v if a[0] == 'any' else v
            else:
                out = join(out, self.call(fr, d, V(a), [v], {}))
        return out

    def s_ClassDef(self, fr, n, env):
        ci = self.p.by_node[id(n)]
        site = ('class', ci.name)
        o = self.heap.get(site)
        if o is None:
            o = self.heap[site] = Obj('class', 'glob', ci.module.rel + ':' + ci.short, ci.name)
            self.changed = True
        for b in n.bases:
            _v, env = self.ev(fr, b, env)
        sub = Frame(self, fr.f, fr.fid + '.' + n.name, fr.module, fr.ctx, fr.genv)
        sub.is_module = False
        sub.cells = None
        sub.outer = fr.cells or fr.outer
        sub.in_class = True
        sub.cls = ci
        e = self.block(sub, n.body, dict(env)) or {}
        bound = {x.id for x in ast.walk(n) if isinstance(x, ast.Name)
                 and isinstance(x.ctx, ast.Store)}
        for k, v in e.items():
            if k not in env or env[k] is not v or k in bound:
                self.put_attr(o, k, v)
        return self.set_name(fr, n.name, V(('cls', ci.name)), env)

    # -- targets -----------------------------------------------------------------
    def assign(self, fr, t, v, env):
        if isinstance(t, ast.Name):
            return self.set_name(fr, t.id, v, env)
        if isinstance(t, ast.Starred):
            return self.assign(fr, t.value, V(self.new(fr, t, 'list', v)), env)
        if isinstance(t, (ast.Tuple, ast.List)):
            n = len(t.elts)
            star = any(isinstance(e, ast.Starred) for e in t.elts)
            parts = [BOTTOM] * n
            for a in v:
                if a[0] == 'tup' and not star:
                    if len(a[1]) != n:
                        if len(v) == 1:
                            self.event('type', fr, t, 'unpacks %d values into %d'
                                       % (len(a[1]), n))
                        continue
                    parts = [join(p, x) for p, x in zip(parts, a[1])]
                else:
                    e = self.iterate(fr, t, V(a), ordered=True, certain=len(v) == 1)
                    parts = [join(p, e) for p in parts]
            for e, p in zip(t.elts, parts):
                env = self.assign(fr, e, p, env)
            return env
        if isinstance(t, ast.Attribute):
            b, env = self.ev(fr, t.value, env)
            for a in b:
                self.set_attr(fr, t, a, t.attr, v)
            return env
        if isinstance(t, ast.Subscript):
            b, env = self.ev(fr, t.value, env)
            if isinstance(t.slice, ast.Slice):
                _s, env = self.ev_slice(fr, t.slice, env)
                k, isslice = VINT, True
            else:
                k, env = self.ev(fr, t.slice, env)
                isslice = False
            for a in b:
                self.mutate(fr, t, a, 'assignment of an item')
                if a[0] == 'obj':
                    o = self.obj(a)
                    if o.kind == 'inst':
                        self.method_of_inst(fr, t, a, '__setitem__', [k, v])
                        continue
                    if isslice:
                        self.put(o, 'elem', self.iterate(fr, t, v))
                    else:
                        self.put(o, 'elem', v)
                        if o.kind in ('dict', 'other'):
                            self.put(o, 'key', k)
                    if o.kind in ('tuple', 'iter', 'set'):
                        self.event('type', fr, t, 'assigns an item of a %s' % o.kind, len(b) == 1)
                elif kind(a) in ('str', 'bytes', 'int', 'float', 'none', 'tup', 'bool'):
                    self.event('type', fr, t, 'assigns an item of %s' % self.show(a),
                               len(b) == 1)
            return env
        self.note(fr, t, 'target ' + type(t).__name__)
        return env

    def set_attr(self, fr, node, a, name, v):
        if a[0] == 'obj':
            o = self.obj(a)
            if o.kind == 'inst':
                prop = self.class_attr(o.cls, name)
                if prop is not None:
                    for x in prop:
                        if x[0] == 'property':
                            return
            self.mutate(fr, node, a, 'assignment of attribute ' + name)
            self.put_attr(o, name, v)
        elif a[0] == 'cls':
            self.mutate(fr, node, a, 'assignment of attribute ' + name)
            o = self.heap.get(('class', a[1]))
            if o is not None:
                self.put_attr(o, name, v)
        elif a[0] == 'mod':
            self.mutate(fr, node, a, 'assignment of ' + name)
            g = self.globals.setdefault(a[1], {})
            n = join(g.get(name, BOTTOM), v)
            if n != g.get(name):
                g[name] = n
                self.changed = True
        elif a[0] == 'x':
            self.mutate(fr, node, a, 'assignment of attribute ' + name)
        elif kind(a) in ('str', 'bytes', 'int', 'float', 'none', 'bool', 'tup'):
            self.event('attr', fr, node, 'sets attribute %s of %s' % (name, self.show(a)), False,
                       on=a)

    # -- conditions ----------------------------------------------------------------
    def cond(self, fr, e, env):
        """(env if true or None, env if false or None)."""
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            t, f = self.cond(fr, e.operand, env)
            return f, t
        if isinstance(e, ast.BoolOp):
            if isinstance(e.op, ast.And):
                falses = []
                cur = env
                for v in e.values:
                    if cur is None:
                        break
                    cur, f = self.cond(fr, v, cur)
                    falses.append(f)
                return cur, self.merge(*falses)
            trues = []
            cur = env
            for v in e.values:
                if cur is None:
                    break
                t, cur = self.cond(fr, v, cur)
                trues.append(t)
            return self.merge(*trues), cur
        if isinstance(e, ast.Compare) and len(e.ops) == 1:
            op, l, r = e.ops[0], e.left, e.comparators[0]
            lv, env = self.ev(fr, l, env)
            rv, env = self.ev(fr, r, env)
            res = self.compare(fr, e, op, lv, rv)
            t = f = env
            if isinstance(op, (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)):
                yes = no = None
                if rv == VNONE and lv:
                    yes = self.narrow(fr, l, lv, lambda a: a[0] in ('none', 'any'), env)
                    no = self.narrow(fr, l, lv, lambda a: a[0] != 'none', env)
                elif len(rv) == 1 and next(iter(rv))[0] == 'c' and next(iter(rv))[1] == 'bool' \
                        and isinstance(op, (ast.Is, ast.IsNot)):
                    yes = no = env
                else:
                    # Equal values are of the same kind.
                    ks = {self.group(a) for a in rv}
                    if not (ks & {None}) and isinstance(op, (ast.Eq, ast.NotEq)) or \
                            isinstance(op, (ast.Is, ast.IsNot)) and None not in ks:
                        yes = self.narrow(fr, l, lv, lambda a: self.group(a) is None
                                          or self.group(a) in ks, env)
                    else:
                        yes = env
                    no = env
                    if len(rv) == 1 and next(iter(rv))[0] == 'c' and len(lv) > 1:
                        one = next(iter(rv))
                        no = self.narrow(fr, l, lv, lambda a: a != one, env)
                t, f = (yes, no) if isinstance(op, (ast.Is, ast.Eq)) else (no, yes)
            if isinstance(op, (ast.In, ast.NotIn)):
                elems = BOTTOM
                for a in rv:
                    if a[0] == 'tup':
                        elems = join(elems, *a[1])
                    elif a[0] == 'obj' and self.obj(a).kind in ('list', 'set', 'tuple', 'dict'):
                        elems = join(elems, self.obj(a).key if self.obj(a).kind == 'dict'
                                     else self.obj(a).elem)
                    else:
                        elems = VANY
                        break
                ks = {self.group(a) for a in elems}
                if elems and None not in ks:
                    yes = self.narrow(fr, l, lv, lambda a: self.group(a) is None
                                      or self.group(a) in ks, env)
                    t, f = (yes, env) if isinstance(op, ast.In) else (env, yes)
            can = self.truth(res)
            return (t if can[0] else None), (f if can[1] else None)
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) \
                and e.func.id == 'isinstance' and len(e.args) == 2 and 'isinstance' not in env:
            v, env = self.ev(fr, e.args[0], env)
            c, env = self.ev(fr, e.args[1], env)
            classes = self.class_list(c)
            if classes is None:
                return env, env
            yes = self.narrow(fr, e.args[0], v, lambda a: self.instance(a, classes) is not False,
                              env, classes)
            no = self.narrow(fr, e.args[0], v, lambda a: self.instance(a, classes) is not True,
                             env)
            return yes, no
        if isinstance(e, ast.NamedExpr):
            v, env = self.ev(fr, e.value, env)
            env = self.assign(fr, e.target, v, env)
            return self.cond_value(fr, e.target, v, env)
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == 'hasattr' \
                and len(e.args) == 2 and isinstance(e.args[1], ast.Constant):
            v, env = self.ev(fr, e.args[0], env)
            nm = e.args[1].value
            yes = self.narrow(fr, e.args[0], v, lambda a: self.has_attr(a, nm) is not False, env)
            no = self.narrow(fr, e.args[0], v, lambda a: self.has_attr(a, nm) is not True, env)
            return yes, no
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == 'callable' \
                and len(e.args) == 1:
            v, env = self.ev(fr, e.args[0], env)
            can = lambda a: a[0] in ('fn', 'bm', 'bext', 'ext', 'cls', 'any', 'obj', 'x', 'ctxm',
                                         'cached')
            return (self.narrow(fr, e.args[0], v, can, env),
                    self.narrow(fr, e.args[0], v, lambda a: not can(a) or a[0] in (
                        'any', 'obj', 'x'), env))
        v, env = self.ev(fr, e, env)
        return self.cond_value(fr, e, v, env)

    def cond_value(self, fr, e, v, env):
        t = self.narrow(fr, e, v, lambda a: self.atom_truth(a)[0], env)
        f = self.narrow(fr, e, v, lambda a: self.atom_truth(a)[1], env)
        return t, f

    def narrow(self, fr, e, v, keep, env, classes=None):
        k = frozenset(a for a in v if keep(a))
        if not k:
            return None if v or self.collect else env
        if classes is not None:
            k = frozenset(self.as_class(a, classes) for a in k)
        if k == v:
            return env
        if isinstance(e, ast.Name) and e.id in env and not self.is_global(fr, e.id):
            env = dict(env)
            env[e.id] = k
        elif isinstance(e, ast.NamedExpr):
            env = dict(env)
            env[e.target.id] = k
        elif isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name):
            env = dict(env)
            env['%s.%s' % (e.value.id, e.attr)] = k
        return env

    def is_global(self, fr, name):
        return False

    def as_class(self, a, classes):
        if a[0] == 'any' and len(classes) == 1:
            c = classes[0]
            return {'str': STR, 'bytes': BYTES, 'int': INT, 'float': FLOAT}.get(c, ANY)
        return a

    def group(self, a):
        """Values of different groups are never equal."""
        k = kind(a)
        if k in ('int', 'float', 'bool'):
            return 'num'
        if k in ('str', 'bytes', 'none', 'tup'):
            return k
        return None

    def truth(self, v):
        t = f = False
        for a in v:
            x, y = self.atom_truth(a)
            t, f = t or x, f or y
        if not v:
            return (not self.collect, not self.collect)
        return t, f

    def atom_truth(self, a):
        """(can be true, can be false)."""
        if a[0] == 'c':
            return bool(a[2]), not a[2]
        if a[0] == 'none':
            return False, True
        if a[0] == 'tup':
            return bool(a[1]), not a[1]
        if a[0] in ('fn', 'bm', 'cls', 'ext', 'mod', 'bext', 'ctxm', 'cached'):
            return True, False
        if a[0] == 'x' and a[1].split(':')[0] in ('Match', 'Pattern', 'exc'):
            return True, False
        if a[0] == 'obj':
            o = self.obj(a)
            if o.kind == 'iter':
                return True, False
            if o.kind == 'inst' and self.class_attr(o.cls, '__len__') is None \
                    and self.class_attr(o.cls, '__bool__') is None \
                    and not self.ext_bases(o.cls):
                return True, False
        return True, True

    def class_list(self, v):
        out = []
        for a in v:
            if a[0] == 'tup':
                for x in a[1]:
                    r = self.class_list(x)
                    if r is None:
                        return None
                    out += r
            elif a[0] == 'cls':
                out.append(a)
            elif a[0] == 'ext':
                out.append(a[1].split('builtins.')[-1] if a[1].startswith('builtins.') else a)
            else:
                return None
        return out

    def instance(self, a, classes):
        """True, False or None: whether the value is an instance of one of the classes."""
        rs = [self.instance1(a, c) for c in classes]
        if True in rs:
            return True
        return None if None in rs else False

    def instance1(self, a, c):
        k = kind(a)
        if k == 'any' or k == 'unbound':
            return None
        if k in ('str', 'bytes', 'int', 'float', 'bool', 'none', 'tup'):
            k = {'tup': 'tuple', 'none': 'NoneType'}.get(k, k)
            if isinstance(c, str):
                return k == c or (k == 'bool' and c == 'int') or c == 'object'
            if c[0] == 'cls':
                return False
            d = c[1].split('.')[-1]
            return {'Iterable': k in ('str', 'bytes', 'tuple'),
                    'Sequence': k in ('str', 'bytes', 'tuple'),
                    'Number': k in ('int', 'float', 'bool')}.get(d, False)
        if k == 'obj':
            o = self.obj(a)
            if o.kind in ('list', 'dict', 'set', 'tuple'):
                if isinstance(c, str):
                    return c == o.kind or c == 'object' or (
                        None if o.kind == 'set' and c == 'frozenset' else False)
                return None if c[0] == 'ext' else False
            if o.kind == 'inst':
                if isinstance(c, tuple) and c[0] == 'cls':
                    if c[1] in self.p.mro(o.cls):
                        return True
                    return None if o.cls in self.p.mro(c[1]) else False
                exts = self.ext_bases(o.cls)
                if isinstance(c, tuple):
                    return True if c[1] in exts else (None if exts else False)
                return True if c == 'object' else (None if exts else False)
            return None
        if k == 'x':
            cl = self.lib.X_CLASS.get(a[1].split(':')[0])
            if isinstance(c, str):
                return c == 'object' if cl else None
            if c[0] == 'ext':
                if cl == c[1]:
                    return True
                x, y = self.lib.load(cl), self.lib.load(c[1])
                if isinstance(x, type) and isinstance(y, type):
                    return issubclass(x, y) or (None if issubclass(y, x) else False)
                return None
            return None if cl and self.ext_bases(c[1]) else False
        if k in ('fn', 'bm', 'mod', 'ext', 'cls', 'bext'):
            return None
        return None

    # -- classes ---------------------------------------------------------------------
    def ext_bases(self, cid):
        return [c[1] for c in self.p.mro(cid) if isinstance(c, tuple)
                and c[1] not in ('builtins.object', 'abc.ABC')]

    def class_attr(self, cid, name, after=None):
        """The Value of an attribute of a class, or None."""
        seq = self.p.mro(cid)
        if after is not None and after in seq:
            seq = seq[seq.index(after) + 1:]
        for c in seq:
            if isinstance(c, tuple):
                if c[1] == 'builtins.object':
                    continue
                x = self.lib.load(c[1])
                if x is None:
                    return VANY
                if isinstance(x, type) and hasattr(x, name) and not hasattr(object, name):
                    return V(('extm', c[1], name))
                if isinstance(x, type) and name in x.__dict__:
                    return V(('extm', c[1], name))
                continue
            o = self.heap.get(('class', c))
            if o is not None and name in o.attrs:
                return o.attrs[name]
        return None

    def bind_self(self, fr, node, v, recv):
        """Attributes of a class, seen through an instance."""
        out = BOTTOM
        for a in v:
            if a[0] == 'fn' and a[1].endswith('.__new__'):
                out |= V(a)
            elif a[0] == 'fn':
                out |= V(('bm', a, recv))
            elif a[0] == 'staticmethod':
                out |= V(a[1])
            elif a[0] == 'classmethod':
                cid = self.obj(recv).cls if recv[0] == 'obj' else recv[1]
                out |= V(('bm', a[1], ('cls', cid)))
            elif a[0] == 'property':
                if a[1][0] == 'fn':
                    out = join(out, self.call(fr, node, V(('bm', a[1], recv)), [], {}))
                else:
                    out |= VANY
            elif a[0] == 'extm':
                out |= V(('bext', a[2], ('xinst', a[1], recv)))
            elif a[0] in ('ctxm', 'cached') and a[1][0] == 'fn':
                out |= V((a[0], ('bm', a[1], recv)))
            elif a[0] == 'obj' and self.obj(a).kind == 'inst' \
                    and self.class_attr(self.obj(a).cls, '__get__') is not None:
                out |= VANY
            else:
                out |= V(a)
        return out

    def method_of_inst(self, fr, node, a, name, args, kwargs=None):
        """Calls a special method, if the value is an instance that has it."""
        if a[0] != 'obj' or self.obj(a).kind != 'inst':
            return None
        v = self.class_attr(self.obj(a).cls, name)
        if v is None:
            return None
        return self.call(fr, node, self.bind_self(fr, node, v, a), args, kwargs or {})

    def has_attr(self, a, name):
        if a[0] == 'any':
            return None
        if a[0] == 'obj' and self.obj(a).kind == 'inst':
            o = self.obj(a)
            if name in o.attrs:
                return None
            v = self.class_attr(o.cls, name)
            return v is not None and True
        c = self.lib.python_class(self, a)
        if c is None:
            return None
        return hasattr(c, name)

    # -- expressions -------------------------------------------------------------
    def ev(self, fr, e, env):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            self.note(fr, e, 'expression ' + type(e).__name__)
            return VANY, env
        return m(fr, e, env)

    def evs(self, fr, es, env):
        out = []
        for e in es:
            v, env = self.ev(fr, e, env)
            out.append(v)
        return out, env

    def e_Constant(self, fr, e, env):
        return V(const(e.value)), env

    def e_Name(self, fr, e, env):
        self.op(fr, e, 'name')
        v = env.get(e.id)
        if v is not None:
            if ('unbound',) in v:
                w = v - V(('unbound',))
                if not w:
                    if fr.f is None and e.id in self.globals_of(fr):
                        return self.globals_of(fr)[e.id], env
                    self.event('name', fr, e, 'variable %s is not bound here' % e.id)
                    return BOTTOM, env
                return w, env
            return v, env
        site = fr.outer
        while site is not None:
            o = self.heap[site]
            if e.id in o.attrs:
                return o.attrs[e.id], env
            site = o.attrs.get('~outer')
            site = next(iter(site))[1] if site else None
        g = fr.genv
        if fr.f is not None and not getattr(fr, 'in_class', False) \
                and e.id in fr.f.local_names:
            self.event('name', fr, e, 'variable %s is not bound here' % e.id)
            return BOTTOM if self.collect else VANY, env
        if e.id in g:
            return g[e.id], env
        if hasattr(builtins, e.id) or e.id in ('__file__', '__name__', '__doc__', '__path__'):
            if e.id.startswith('__'):
                return VSTR, env
            return V(('ext', 'builtins.' + e.id)), env
        if fr.f is None and not self.collect:
            return VANY, env
        self.event('name', fr, e, 'there is no %s' % e.id)
        return BOTTOM if self.collect else VANY, env

    def globals_of(self, fr):
        return fr.genv

    def e_Tuple(self, fr, e, env):
        vs, star = [], False
        for x in e.elts:
            if isinstance(x, ast.Starred):
                star = True
                v, env = self.ev(fr, x.value, env)
                vs.append(self.iterate(fr, x, v, ordered=True))
            else:
                v, env = self.ev(fr, x, env)
                vs.append(v)
        if star or len(vs) > 12:
            return V(self.new(fr, e, 'tuple', join(*vs))), env
        return V(('tup', tuple(vs))), env

    def e_List(self, fr, e, env, kind_='list'):
        vs = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                v, env = self.ev(fr, x.value, env)
                vs.append(self.iterate(fr, x, v, ordered=kind_ == 'list'))
            else:
                v, env = self.ev(fr, x, env)
                vs.append(v)
        return V(self.new(fr, e, kind_, join(*vs) if vs else BOTTOM)), env

    def e_Set(self, fr, e, env):
        v, env = self.e_List(fr, e, env, 'set')
        return v, env

    def e_Dict(self, fr, e, env):
        ks, vs = BOTTOM, BOTTOM
        for k, x in zip(e.keys, e.values):
            v, env = self.ev(fr, x, env)
            if k is None:
                for a in v:
                    if a[0] == 'obj':
                        ks, vs = join(ks, self.obj(a).key), join(vs, self.obj(a).elem)
                    else:
                        ks, vs = join(ks, VANY), join(vs, VANY)
                continue
            kv, env = self.ev(fr, k, env)
            ks, vs = join(ks, kv), join(vs, v)
        return V(self.new(fr, e, 'dict', vs, key=ks)), env

    def comp(self, fr, e, env, elts):
        """The environments of a comprehension; returns values of elts and order."""
        inner = dict(env)
        unordered = False
        for g in e.generators:
            it, inner = self.ev(fr, g.iter, inner)
            if self.is_unordered(it):
                unordered = True
            el = self.iterate(fr, g.iter, it)
            if not el:
                return None, False
            inner = self.assign(fr, g.target, el, inner)
            for c in g.ifs:
                inner, _f = self.cond(fr, c, inner)
                if inner is None:
                    return None, False
        out = []
        for x in elts:
            v, inner = self.ev(fr, x, inner)
            out.append(v)
        return out, unordered

    def e_ListComp(self, fr, e, env, k='list'):
        vs, un = self.comp(fr, e, env, [e.elt])
        a = self.new(fr, e, k, vs[0] if vs else BOTTOM)
        if un:
            self.unorder(self.obj(a))
        return V(a), env

    def e_SetComp(self, fr, e, env):
        return self.e_ListComp(fr, e, env, 'set')

    def e_GeneratorExp(self, fr, e, env):
        return self.e_ListComp(fr, e, env, 'iter')

    def e_DictComp(self, fr, e, env):
        vs, un = self.comp(fr, e, env, [e.key, e.value])
        a = self.new(fr, e, 'dict', vs[1] if vs else BOTTOM, key=vs[0] if vs else BOTTOM)
        if un:
            self.unorder(self.obj(a))
        return V(a), env

    def e_IfExp(self, fr, e, env):
        t, f = self.cond(fr, e.test, env)
        out, envs = BOTTOM, []
        for x, b in ((t, e.body), (f, e.orelse)):
            if x is not None:
                v, x = self.ev(fr, b, x)
                out = join(out, v)
                envs.append(x)
        return out, env

    def e_BoolOp(self, fr, e, env):
        out = BOTTOM
        cur = env
        for i, x in enumerate(e.values):
            if cur is None:
                break
            v, _e = self.ev(fr, x, cur)
            last = i == len(e.values) - 1
            if last:
                out = join(out, v)
                break
            t, f = self.cond(fr, x, cur)
            if isinstance(e.op, ast.And):
                out = join(out, frozenset(a for a in v if self.atom_truth(a)[1]))
                cur = t
            else:
                out = join(out, frozenset(a for a in v if self.atom_truth(a)[0]))
                cur = f
        return out, env

    def e_UnaryOp(self, fr, e, env):
        v, env = self.ev(fr, e.operand, env)
        if isinstance(e.op, ast.Not):
            t, f = self.truth(v)
            if t and f:
                return VBOOL, env
            return V(('c', 'bool', f)), env
        out = BOTTOM
        for a in v:
            k = kind(a)
            if k in ('int', 'bool'):
                if a[0] == 'c' and isinstance(e.op, ast.USub):
                    out |= V(('c', 'int', -a[2]))
                else:
                    out |= VINT
            elif k == 'float':
                out |= VFLOAT
            elif k in ('str', 'bytes', 'none', 'tup'):
                self.event('type', fr, e, 'negates %s' % self.show(a), len(v) == 1)
            else:
                out |= VANY
        return out, env

    def e_BinOp(self, fr, e, env):
        a, env = self.ev(fr, e.left, env)
        b, env = self.ev(fr, e.right, env)
        return self.binop(fr, e, e.op, a, b), env

    def binop(self, fr, e, op, a, b):
        self.op(fr, e, 'operator')
        r = self.lib.binop(self, fr, e, op, a, b)
        if r:
            self.worked(fr, e)
        return r

    def e_Compare(self, fr, e, env):
        l, env = self.ev(fr, e.left, env)
        out = BOTTOM
        for op, r in zip(e.ops, e.comparators):
            rv, env = self.ev(fr, r, env)
            out = join(out, self.compare(fr, e, op, l, rv))
            l = rv
        return out if len(e.ops) == 1 else VBOOL, env

    def compare(self, fr, e, op, a, b):
        self.op(fr, e, 'comparison')
        return self.lib.compare(self, fr, e, op, a, b)

    def e_NamedExpr(self, fr, e, env):
        v, env = self.ev(fr, e.value, env)
        return v, self.assign(fr, e.target, v, env)

    def e_JoinedStr(self, fr, e, env):
        lits = []
        for x in e.values:
            v, env = self.ev(fr, x, env)
            lits.append(v)
        return VSTR, env

    def e_FormattedValue(self, fr, e, env):
        v, env = self.ev(fr, e.value, env)
        spec = None
        if e.format_spec is not None:
            if len(e.format_spec.values) == 1 and isinstance(e.format_spec.values[0],
                                                             ast.Constant):
                spec = e.format_spec.values[0].value
            else:
                _s, env = self.ev(fr, e.format_spec, env)
        if e.conversion in (-1, 115):
            self.lib.formatted(self, fr, e, v, spec)
        return VSTR, env

    def e_Starred(self, fr, e, env):
        v, env = self.ev(fr, e.value, env)
        return self.iterate(fr, e, v, ordered=True), env

    def e_Lambda(self, fr, e, env):
        f = self.p.by_node[id(e)]
        return self.function_value(fr, f, e, env)

    def e_Yield(self, fr, e, env):
        v = VNONE
        if e.value is not None:
            v, env = self.ev(fr, e.value, env)
        fr.yields = join(fr.yields, v)
        return VANY, env

    def e_YieldFrom(self, fr, e, env):
        v, env = self.ev(fr, e.value, env)
        fr.yields = join(fr.yields, self.iterate(fr, e, v, ordered=True))
        return VANY, env

    def e_Await(self, fr, e, env):
        v, env = self.ev(fr, e.value, env)
        return VANY, env

    def ev_slice(self, fr, s, env):
        for x in (s.lower, s.upper, s.step):
            if x is not None:
                v, env = self.ev(fr, x, env)
                for a in v:
                    if kind(a) in ('str', 'bytes', 'float', 'tup'):
                        self.event('type', fr, x, 'slices with %s' % self.show(a), len(v) == 1)
        return None, env

    def e_Slice(self, fr, e, env):
        _x, env = self.ev_slice(fr, e, env)
        return V(('x', 'slice', 'own')), env

    def e_Subscript(self, fr, e, env):
        b, env = self.ev(fr, e.value, env)
        if isinstance(e.slice, ast.Slice):
            _x, env = self.ev_slice(fr, e.slice, env)
            return self.lib.slice_(self, fr, e, b), env
        i, env = self.ev(fr, e.slice, env)
        self.op(fr, e, 'item')
        return self.lib.item(self, fr, e, b, i), env

    def e_Attribute(self, fr, e, env):
        b, env = self.ev(fr, e.value, env)
        if isinstance(e.value, ast.Name):
            k = '%s.%s' % (e.value.id, e.attr)
            if k in env:
                return env[k], env
        return self.attribute(fr, e, b, e.attr), env

    def attribute(self, fr, e, b, name):
        self.op(fr, e, 'attribute')
        out = BOTTOM
        lack = []
        for a in b:
            r = self.attr1(fr, e, a, name)
            if r is None:
                lack.append(a)
            else:
                out = join(out, r)
        if lack and self.asked_for(fr, e):
            return out or VANY
        for a in lack:
            self.event('attr', fr, e, '%s has no attribute %s' % (self.show(a), name),
                       len(lack) == len(b), on=a)
        if out:
            self.worked(fr, e)
        if len(out) > 40:
            return VANY
        return out

    def asked_for(self, fr, e):
        """Whether the function asks with hasattr for what it reads."""
        if not isinstance(e, ast.Attribute):
            return False
        tree = fr.f.node if fr.f is not None else getattr(fr.module, 'tree', None)
        if tree is None:
            return False
        known = self.asked.get(fr.fid)
        if known is None:
            known = self.asked[fr.fid] = {
                (ast.dump(c.args[0]), c.args[1].value) for c in ast.walk(tree)
                if isinstance(c, ast.Call) and isinstance(c.func, ast.Name)
                and c.func.id == 'hasattr' and len(c.args) == 2
                and isinstance(c.args[1], ast.Constant)}
        return bool(known) and (ast.dump(e.value), e.attr) in known

    def attr1(self, fr, e, a, name):
        """The Value of the attribute, or None if there is none."""
        if a[0] == 'any':
            # Only text is encoded, and only bytes are decoded.
            if name in ('encode', 'decode'):
                return V(('bext', name, STR if name == 'encode' else BYTES))
            return VANY
        if a[0] == 'mod':
            g = self.globals.get(a[1], {})
            if name in g:
                return g[name]
            if a[1] + '.' + name in self.p.modules:
                return V(('mod', a[1] + '.' + name))
            if name.startswith('__'):
                return VANY
            return None if self.collect else BOTTOM
        if a[0] == 'ext':
            return self.lib.ext_attr(self, fr, e, a[1], name)
        if a[0] == 'cls':
            v = self.class_attr(a[1], name)
            if v is not None and self.is_enum(a[1]) and not any(
                    x[0] in ('fn', 'classmethod', 'staticmethod', 'property', 'extm') for x in v):
                return VANY
            if v is not None:
                out = BOTTOM
                for x in v:
                    if x[0] == 'staticmethod':
                        out |= V(x[1])
                    elif x[0] == 'classmethod':
                        out |= V(('bm', x[1], a))
                    elif x[0] == 'extm':
                        out |= V(('ext', x[1] + '.' + x[2]))
                    else:
                        out |= V(x)
                return out
            if name.startswith('__') or hasattr(type, name) or self.dynamic(a[1]):
                return VANY
            return None if self.collect else BOTTOM
        if a[0] == 'super':
            v = self.class_attr(a[1], name, after=a[2])
            if v is not None:
                return self.bind_self(fr, e, v, a[3])
            if hasattr(object, name):
                return V(('ext', 'builtins.object.' + name))
            return None if self.collect else BOTTOM
        if a[0] == 'obj':
            o = self.obj(a)
            if o.kind == 'inst':
                out = o.attrs.get(name)
                v = self.class_attr(o.cls, name)
                if v is not None:
                    v = self.bind_self(fr, e, v, a)
                    out = v if out is None else join(out, v)
                if out is not None:
                    return out
                if name == '__class__':
                    return V(('cls', o.cls))
                if name == '__dict__':
                    return VANY
                if hasattr(object, name):
                    return VANY
                g = self.class_attr(o.cls, '__getattr__')
                if g is not None:
                    return VANY
                if self.dynamic(o.cls):
                    return VANY
                if self.stored_somewhere(o.cls, name) or self.below_has(o.cls, name):
                    return VANY
                if any(isinstance(c, tuple) and name in self.lib.instance_attributes(c[1])
                       for c in self.p.mro(o.cls)):
                    return VANY
                if not self.collect:
                    return BOTTOM
                return None
            if o.kind in ('other', 'ctx'):
                return VANY
        return self.lib.method_value(self, fr, e, a, name)

    def below_has(self, cid, name):
        """Whether a class derived from this one has the attribute: objects of this one
        alone may not be meant to be."""
        for c in self.p.subclasses(cid):
            if c != cid and (self.class_attr(c, name) is not None
                             or self.stored_somewhere(c, name)):
                return True
        return False

    def is_enum(self, cid):
        return any(isinstance(c, tuple) and c[1].startswith('enum.') for c in self.p.mro(cid))

    def dynamic(self, cid):
        """Attributes of the class are not all known from the source."""
        for c in self.p.mro(cid):
            if isinstance(c, str) and any(
                    k.arg == 'metaclass' and getattr(k.value, 'id', getattr(
                        k.value, 'attr', None)) != 'ABCMeta'
                    for k in self.p.classes[c].node.keywords):
                return True
        for c in self.p.mro(cid):
            if isinstance(c, tuple):
                if c[1] not in ('builtins.object', 'abc.ABC') and self.lib.load(c[1]) is None:
                    return True
                continue
            ci = self.p.classes[c]
            for x in ast.walk(ci.node):
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) \
                        and x.func.id in ('setattr', 'vars'):
                    return True
                if isinstance(x, ast.Attribute) and x.attr == '__dict__':
                    return True
        return False

    def stored_somewhere(self, cid, name):
        """Whether something assigns the attribute in a class related to this one."""
        if self.attr_stores is None:
            self.attr_stores = {}
            for c, ci in self.p.classes.items():
                s = self.attr_stores.setdefault(c, set())
                for x in ast.walk(ci.node):
                    if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) \
                            and isinstance(x.value, ast.Name):
                        s.add(x.attr)
                    elif isinstance(x, ast.AnnAssign) and isinstance(x.target, ast.Name):
                        s.add(x.target.id)
                    elif isinstance(x, ast.Constant) and isinstance(x.value, str) \
                            and x.value.isidentifier():
                        s.add(x.value) if '__slots__' in ci.attrs else None
        rel = [c for c in self.p.mro(cid) if isinstance(c, str)]
        return any(name in self.attr_stores.get(c, ()) for c in rel)

    # -- iteration ---------------------------------------------------------------
    def is_unordered(self, v):
        for a in v:
            if a[0] == 'obj':
                o = self.obj(a)
                if o.sorted:
                    continue
                if o.unordered:
                    return True
                if o.kind == 'set' and any(not self.stable(x) for x in o.elem):
                    return True
        return False

    def stable(self, a):
        """Whether the hash of the value is the same in every run."""
        k = kind(a)
        return k in ('int', 'bool', 'float', 'none') or (
            a[0] == 'tup' and all(self.stable(y) for x in a[1] for y in x))

    def iterate(self, fr, node, v, ordered=False, certain=None, into=None):
        """The Value of the elements of an iterable."""
        self.op(fr, node, 'iteration')
        out = BOTTOM
        for a in v:
            k = kind(a)
            sure = len(v) == 1 if certain is None else certain
            if k == 'str':
                out = join(out, VSTR)
            elif k == 'bytes':
                out = join(out, VINT)
            elif k == 'tup':
                out = join(out, *a[1]) if a[1] else out
            elif k == 'obj':
                o = self.obj(a)
                if o.kind == 'inst':
                    r = self.method_of_inst(fr, node, a, '__iter__', [])
                    if r is not None:
                        for x in r:
                            if x == a:
                                n = self.method_of_inst(fr, node, a, '__next__', [])
                                out = join(out, n if n is not None else VANY)
                            else:
                                out = join(out, self.iterate(fr, node, V(x), ordered))
                        continue
                    r = self.class_attr(o.cls, '__getitem__')
                    if r is not None:
                        out = join(out, self.method_of_inst(fr, node, a, '__getitem__', [VINT]))
                        continue
                    if self.ext_bases(o.cls):
                        out = join(out, VANY)
                        continue
                    self.event('type', fr, node, 'iterates over %s' % self.show(a), sure)
                    continue
                if o.kind in ('list', 'tuple', 'iter', 'set', 'view'):
                    out = join(out, o.elem)
                elif o.kind == 'dict':
                    out = join(out, o.key)
                else:
                    out = join(out, VANY)
                if o.kind == 'iter' and o.owner != 'own':
                    self.mutate(fr, node, a, 'iteration')
                if self.is_unordered(V(a)):
                    if ordered:
                        self.disorder(fr, node, a, 'iteration')
                    if into is not None:
                        self.unorder(into)
            elif k == 'x':
                out = join(out, self.lib.iter_x(self, fr, node, a, sure))
            elif k in ('int', 'float', 'bool', 'none', 'fn', 'bm', 'mod', 'cls'):
                self.event('type', fr, node, 'iterates over %s' % self.show(a), sure)
            else:
                out = join(out, VANY)
        return out

    # -- calls -------------------------------------------------------------------
    def e_Call(self, fr, e, env):
        fv, env = self.ev(fr, e.func, env)
        args, star = [], False
        for x in e.args:
            if isinstance(x, ast.Starred):
                v, env = self.ev(fr, x.value, env)
                if len(v) == 1 and next(iter(v))[0] == 'tup':
                    args += [(False, y) for y in next(iter(v))[1]]
                else:
                    star = True
                    args.append((True, self.iterate(fr, x, v, ordered=True)))
            else:
                v, env = self.ev(fr, x, env)
                args.append((False, v))
        kwargs = {}
        for k in e.keywords:
            v, env = self.ev(fr, k.value, env)
            if k.arg is None:
                named = self.passed_on(fr, k.value, v)
                if named is not None:
                    kwargs.update(named)
                    continue
                el = BOTTOM
                for a in v:
                    el = join(el, self.obj(a).elem if a[0] == 'obj' else VANY)
                kwargs['**'] = join(kwargs.get('**', BOTTOM), el or BOTTOM)
            else:
                kwargs[k.arg] = v
        if not star:
            args = [v for _s, v in args]
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and not args \
                and fr.cls is not None and fr.selfv:
            out = BOTTOM
            for a in fr.selfv:
                if a[0] == 'obj' and self.obj(a).kind == 'inst':
                    out |= V(('super', self.obj(a).cls, fr.cls.name, a))
                elif a[0] == 'cls':
                    out |= V(('super', a[1], fr.cls.name, a))
                else:
                    out |= VANY
            return out, env
        r = self.call(fr, e, fv, args, kwargs, star)
        for h in fr.raised:
            h.append(env)
        # An object may have changed: what is known of its attributes is void.
        drop = [k for k in env if '.' in k]
        if drop:
            env = {k: v for k, v in env.items() if '.' not in k}
        return r, env

    def passed_on(self, fr, e, v):
        """The named arguments in a function's own **arguments, passed on as they are."""
        if not isinstance(e, ast.Name) or fr.f is None or len(v) != 1:
            return None
        a = next(iter(v))
        kw = getattr(fr.f.node, 'args', None)
        if a[0] != 'obj' or a[1][4] != '**' + fr.f.fid or kw is None or not kw.kwarg \
                or kw.kwarg.arg != e.id:
            return None
        uses = [n for n in ast.walk(fr.f.node) if isinstance(n, ast.Name) and n.id == e.id]
        passed = [k.value for n in ast.walk(fr.f.node) if isinstance(n, ast.Call)
                  for k in n.keywords if k.arg is None]
        if any(n not in passed for n in uses):
            return None
        o = self.obj(a)
        if any(x[:2] != ('c', 'str') for x in o.key):
            return None
        return {x[2]: o.elem for x in o.key}

    def call(self, fr, node, fv, args, kwargs, star=False):
        self.op(fr, node, 'call')
        out = BOTTOM
        for f in fv:
            out = join(out, self.call1(fr, node, f, args, kwargs, star, len(fv) == 1))
        if out:
            self.worked(fr, node)
        return out

    def call1(self, fr, node, f, args, kwargs, star=False, certain=True):
        if f[0] == 'any':
            for a in args:
                self.escape(fr, node, a[1] if star else a)
            return VANY
        if f[0] == 'fn':
            return self.call_fn(fr, node, f, args, kwargs, star)
        if f[0] == 'bm':
            first = (False, V(f[2])) if star else V(f[2])
            return self.call1(fr, node, f[1], [first] + list(args), kwargs, star, certain)
        if f[0] == 'ctxm':
            r = self.call1(fr, node, f[1], args, kwargs, star, certain)
            e = self.iterate(fr, node, r)
            return V(self.new(fr, node, 'ctx', e))
        if f[0] == 'cached':
            # What it returns is returned again.
            r = self.call1(fr, node, f[1], args, kwargs, star, certain)
            for a in r:
                if a[0] == 'obj' and self.obj(a).owner != 'glob':
                    self.obj(a).owner = 'glob'
                    self.changed = True
            return r
        if f[0] == 'cls':
            return self.instantiate(fr, node, f[1], args, kwargs, star)
        if f[0] == 'ext':
            return self.lib.call_ext(self, fr, node, f[1], args, kwargs, star)
        if f[0] == 'bext':
            return self.lib.call_method(self, fr, node, f[1], f[2], args, kwargs, star)
        if f[0] == 'obj':
            o = self.obj(f)
            if o.kind == 'inst':
                r = self.method_of_inst_star(fr, node, f, '__call__', args, kwargs, star)
                if r is not None:
                    return r
                if self.ext_bases(o.cls):
                    return VANY
            if o.kind in ('other', 'ctx'):
                return VANY
            self.event('type', fr, node, 'calls %s' % self.show(f), certain)
            return BOTTOM
        if f[0] in ('staticmethod', 'classmethod'):
            return self.call1(fr, node, f[1], args, kwargs, star, certain)
        if kind(f) in ('str', 'bytes', 'int', 'float', 'bool', 'none', 'tup', 'mod'):
            self.event('type', fr, node, 'calls %s' % self.show(f), certain)
            return BOTTOM
        return VANY

    def method_of_inst_star(self, fr, node, a, name, args, kwargs, star):
        v = self.class_attr(self.obj(a).cls, name)
        if v is None:
            return None
        return self.call(fr, node, self.bind_self(fr, node, v, a), args, kwargs, star)

    def instantiate(self, fr, node, cid, args, kwargs, star):
        ci = self.p.classes[cid]
        if self.is_enum(cid):
            return V(('x', 'enum:' + cid, 'glob'))
        a = self.new(fr, node, 'inst', cls=cid)
        init = self.class_attr(cid, '__init__')
        if init is not None and any(x[0] == 'fn' for x in init):
            self.call(fr, node, self.bind_self(fr, node, init, a), args, kwargs, star)
        elif self.fields(cid):
            # A dataclass, or a named tuple.
            given = list(args) if not star else []
            for i, f in enumerate(self.fields(cid)):
                self.put_attr(self.obj(a), f, given[i] if i < len(given) else
                              kwargs.get(f, VANY))
            post = self.class_attr(cid, '__post_init__')
            if post is not None:
                self.call(fr, node, self.bind_self(fr, node, post, a), [VANY] * 0, {})
        elif init is None and not self.ext_bases(cid) and not star and not self.dynamic(cid):
            if (args or kwargs) and self.class_attr(cid, '__new__') is None:
                self.event('call', fr, node, '%s() takes no arguments' % ci.short)
        return V(a)

    def fields(self, cid):
        """The fields of a dataclass or named tuple."""
        out = []
        for c in reversed([c for c in self.p.mro(cid) if isinstance(c, str)]):
            if fields_of(self.p, c):
                out += [f for f in fields_of(self.p, c) if f not in out]
        return out

    def escape(self, fr, node, v):
        pass

    def show(self, a):
        k = kind(a)
        if k == 'obj':
            o = self.obj(a)
            return 'a %s' % (o.kind if o.kind != 'inst' else o.cls.split(':')[1])
        if k == 'x':
            return 'a ' + a[1].split(':')[0]
        if k == 'tup':
            return 'a tuple'
        if k == 'none':
            return 'None'
        if k in ('cls', 'mod', 'ext'):
            return a[1]
        return {'fn': 'a function', 'bm': 'a method', 'bext': 'a method'}.get(k, k)
