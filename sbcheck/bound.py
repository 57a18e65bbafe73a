"""Whether variables and attributes of self are there when they are read.

Two forward analyses over the statements of a function.

Variables: a variable is reported if it is read after an exception that came
before it was bound, with nothing in between that could tell the cases apart: in
a handler, in a finally clause, or after the try statement and before the next
branch. (Paths through branches are not reported, because conditions can be
related.)

Attributes: an attribute of self that neither the class nor its bases define, that
not every construction of the object assigns, and that is not assigned before on
every path of the method that reads it. What is set up lazily is left out. Tests with hasattr, and handlers for
AttributeError, count as knowing about it.
"""
import ast

from .flow import fields_of
from .flowlib import load, instance_attributes
from .program import Function

BRANCHES = (ast.If, ast.While, ast.For, ast.AsyncFor, ast.Try, ast.Match)
SCOPES = (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)
RAISING = (ast.Call, ast.Subscript, ast.BinOp, ast.Attribute, ast.Raise, ast.Assert, ast.Import,
           ast.ImportFrom, ast.Yield, ast.YieldFrom, ast.Compare, ast.With)


def walk_own(node):
    """The nodes that are evaluated with node, without nested scopes."""
    todo = [node]
    while todo:
        n = todo.pop(0)
        yield n
        if isinstance(n, SCOPES) and n is not node:
            continue
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            todo.insert(0, n.generators[0].iter)
            continue
        todo[:0] = list(ast.iter_child_nodes(n))


def broad(h):
    if h.type is None:
        return True
    ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
    return any(isinstance(t, ast.Name) and t.id in ('Exception', 'BaseException') for t in ts)


def may_raise(n, me=None):
    """The statement itself, or the head of a compound one."""
    heads = [n]
    if isinstance(n, (ast.If, ast.While)):
        heads = [n.test]
    elif isinstance(n, ast.For):
        heads = [n.iter]
    elif isinstance(n, ast.With):
        return True
    elif isinstance(n, ast.Try):
        return False
    elif isinstance(n, SCOPES):
        heads = n.decorator_list if hasattr(n, 'decorator_list') else []
    return any(isinstance(x, RAISING) and not (
        isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == me)
        for h in heads for x in walk_own(h))


class Variables:
    """States: variable -> subset of {b: bound, u: not bound, x: not bound because of an
    exception, without a branch since}."""

    def __init__(self, node):
        self.node = node
        self.found = {}
        self.reads = 0
        a = node.args
        params = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}
        params |= {x.arg for x in (a.vararg, a.kwarg) if x is not None}
        outside = set()
        local = set()
        for n in ast.walk(node):
            if isinstance(n, (ast.Global, ast.Nonlocal)):
                outside |= set(n.names)
        for n in walk_own(node):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                local.add(n.id)
            elif isinstance(n, ast.ExceptHandler) and n.name:
                local.add(n.name)
            elif isinstance(n, ast.alias):
                local.add((n.asname or n.name).split('.')[0])
            elif isinstance(n, SCOPES) and n is not node and hasattr(n, 'name'):
                local.add(n.name)
        self.local = local - outside - params
        # Attributes of the own object are there, unless a handler expects otherwise.
        first = (a.posonlyargs + a.args)[:1]
        self.me = first[0].arg if first and not any(
            isinstance(h, ast.ExceptHandler) and (broad(h) or 'AttributeError' in ast.dump(h.type))
            for h in ast.walk(node)) else None
        self.raised = []
        self.loops = []
        self.block(node.body, {v: frozenset('u') for v in self.local})

    def merge(self, *states):
        states = [s for s in states if s is not None]
        if not states:
            return None
        return {v: frozenset().union(*(s[v] for s in states)) for v in self.local}

    def branch(self, s):
        return {v: frozenset('u' if c == 'x' else c for c in k) for v, k in s.items()}

    def read(self, n, s):
        for x in walk_own(n):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and x.id in self.local:
                self.reads += 1
                if 'x' in s[x.id]:
                    self.found.setdefault((x.id, x.lineno), x)

    def bind(self, n, s):
        s = dict(s)
        for x in walk_own(n):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and x.id in self.local:
                s[x.id] = frozenset('b')
            elif isinstance(x, ast.Name) and isinstance(x.ctx, ast.Del) and x.id in self.local:
                s[x.id] = frozenset('u')
            elif isinstance(x, ast.alias):
                v = (x.asname or x.name).split('.')[0]
                if v in self.local:
                    s[v] = frozenset('b')
            elif isinstance(x, SCOPES) and getattr(x, 'name', None) in self.local:
                s[x.name] = frozenset('b')
        return s

    def block(self, body, s):
        for n in body:
            if s is None:
                return None
            s = self.stmt(n, s)
        return s

    def stmt(self, n, s):
        if may_raise(n, self.me):
            for r in self.raised:
                r.append(s)
        before = s
        if isinstance(n, BRANCHES):
            if isinstance(n, (ast.If, ast.While)):
                self.read(n.test, s)
                s = self.bind(n.test, s)
            elif isinstance(n, (ast.For, ast.AsyncFor)):
                self.read(n.iter, s)
            s = self.branch(s)
        if isinstance(n, ast.If):
            outs = [self.block(n.body, s), self.block(n.orelse, s)]
            return self.after(n, before, outs, self.merge(*outs))
        if isinstance(n, (ast.While, ast.For, ast.AsyncFor)):
            head = s
            ends = []
            for _i in range(4):
                self.loops.append(([], []))
                inn = head
                if not isinstance(n, ast.While):
                    inn = self.bind(n.target, head)
                end = self.block(n.body, inn)
                brk, cont = self.loops.pop()
                nxt = self.branch(self.merge(s, end, *cont))
                if end is not None:
                    ends.append(end)
                if nxt == head:
                    break
                head = nxt
            after = head
            if isinstance(n, ast.While) and isinstance(n.test, ast.Constant) and n.test.value:
                after = None
            elif n.orelse:
                after = self.block(n.orelse, head)
            return self.after(n, before, ends[-1:] or [head], self.merge(after, *brk))
        if isinstance(n, ast.Try):
            self.raised.append([])
            end = self.block(n.body, s)
            states = self.raised.pop()
            for r in self.raised:
                r.extend(states)
            outs = []
            if end is not None and n.orelse:
                end = self.block(n.orelse, end)
            outs.append(end)
            for h in n.handlers:
                start = self.caught(states, broad(h), s)
                if h.name and h.name in self.local:
                    start[h.name] = frozenset('b')
                if h.type is not None:
                    self.read(h.type, start)
                out = self.block(h.body, start)
                if out is not None and h.name and h.name in self.local:
                    out[h.name] = frozenset('u')
                outs.append(out)
            out = self.merge(*outs)
            if n.finalbody:
                if states and not n.handlers:
                    self.block(n.finalbody, self.caught(states, True, s))
                return None if out is None else self.block(n.finalbody, out)
            return out
        if isinstance(n, (ast.With, ast.AsyncWith)):
            for i in n.items:
                self.read(i.context_expr, s)
                if i.optional_vars is not None:
                    s = self.bind(i.optional_vars, s)
            return self.block(n.body, s)
        if isinstance(n, ast.Match):
            self.read(n.subject, s)
            outs = [s]
            for c in n.cases:
                b = dict(s)
                for x in ast.walk(c.pattern):
                    name = getattr(x, 'name', None) or getattr(x, 'rest', None)
                    if name in self.local:
                        b[name] = frozenset('b')
                outs.append(self.block(c.body, b))
            return self.merge(*outs)
        if isinstance(n, SCOPES):
            return self.bind(n, s)
        if isinstance(n, (ast.Break, ast.Continue)):
            if self.loops:
                self.loops[-1][isinstance(n, ast.Continue)].append(s)
            return None
        self.read(n, s)
        if isinstance(n, (ast.Return, ast.Raise)):
            return None
        return self.bind(n, s)

    def after(self, n, before, outs, out):
        """The state after a branch that every path through it leaves at its end: what it
        does not bind is as before."""
        if out is None or None in outs or any(
                isinstance(x, (ast.Return, ast.Raise, ast.Break, ast.Continue))
                for x in ast.walk(n)):
            return out
        return {v: k | {'x'} if 'x' in before[v] and all('u' in o[v] or 'x' in o[v]
                                                         for o in outs) else k
                for v, k in out.items()}

    def caught(self, states, is_broad, entry):
        """The state where an exception of one of the states is handled."""
        if not states:
            return dict(entry)
        m = self.merge(*states)
        for v in self.local:
            if 'b' not in entry[v] and 'u' in m[v]:
                if is_broad or m[v] == frozenset('u'):
                    m[v] = m[v] - {'u'} | {'x'}
        return m


def stored(n):
    return {x.attr for t in n.targets for x in ast.walk(t)
            if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store)}


class Attributes:
    """Attributes of the objects of one class."""

    def __init__(self, p, cid, foreign):
        self.p = p
        self.cid = cid
        self.foreign = foreign
        self.found = {}
        self.reads = 0
        self.memo = {}
        self.active = set()
        self.used = set()
        self.mro = [c for c in p.mro(cid) if isinstance(c, str)]
        self.methods = {n for c in self.mro for n in p.classes[c].methods}
        self.attrs = {n for c in self.mro for n in p.classes[c].attrs} | self.methods
        self.outside = [c[1] for c in p.mro(cid) if not isinstance(c, str)]

    def run(self):
        start = frozenset(f for c in self.mro for f in fields_of(self.p, c))
        if self.own('__init__') is not None:
            start = self.method(self.own('__init__'), start)
        if start is None:
            return
        for n in ('__post_init__', '__set_name__', 'setUp'):
            if self.own(n) is not None and start is not None:
                start = self.method(self.own(n), start)
        if start is None:
            return
        self.start = start
        self.lazy = self.lazily()
        # What some constructions assign may be read where a condition says that they did.
        self.some = self.stores(self.own('__init__'), set()) if self.own('__init__') else set()
        starts = [start]
        again = self.p.classes[self.cid].methods.get('__setstate__')
        if again is not None:
            # Objects of the class are also made by unpickling or copying.
            starts.append(self.method(again, frozenset()))
        lazy = self.lazy
        for n in sorted(self.methods):
            if n.startswith('_') and not n.endswith('__') or n in ('__init__', '__setstate__') \
                    or self.own(n) is None:
                continue
            for s in starts:
                # What is entered, or iterated over, comes before what is done then.
                self.lazy = lazy | self.before(n)
                for first in ('__enter__', '__aenter__', '__iter__', '__aiter__'):
                    if self.own(first) is not None and n != first and s is not None:
                        s = self.method(self.own(first), s)
                if s is not None:
                    self.method(self.own(n), s)

    lazy = some = frozenset()
    depth = 0

    def lazily(self):
        """Attributes that are assigned, or by a method that is called, only if something is
        not done yet: whether it was done cannot be told here."""
        out = set()
        for c in self.mro:
            for f in self.p.classes[c].methods.values():
                for n in f.own_nodes():
                    if not isinstance(n, (ast.If, ast.IfExp, ast.BoolOp)):
                        continue
                    for x in ast.walk(n):
                        if isinstance(x, ast.Assign) and f.name != '__init__':
                            out |= stored(x)
                        if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) \
                                and isinstance(x.func.value, ast.Name):
                            m = self.own(x.func.attr)
                            if m is not None and m.name != '__init__':
                                out |= self.stores(m, set())
        return out

    def before(self, name):
        """What the methods that use a method assign: it may be meant for them alone."""
        out = set()
        for m in self.methods:
            f = self.own(m)
            if f is None or m in (name, '__init__'):
                continue
            if any(isinstance(n, ast.Attribute) and n.attr == name
                   or isinstance(n, ast.Call) and isinstance(n.func, ast.Name)
                   and n.func.id == 'getattr' and len(n.args) > 1
                   and not isinstance(n.args[1], ast.Constant) for n in f.own_nodes()):
                out |= self.stores(f, set())
        return out

    def stores(self, f, seen):
        out = set()
        if f in seen:
            return out
        seen.add(f)
        for n in f.own_nodes():
            if isinstance(n, ast.Assign):
                out |= stored(n)
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
                m = self.own(n.func.attr)
                if m is not None:
                    out |= self.stores(m, seen)
        return out

    def own(self, name):
        f = self.p.find_method(self.cid, name)
        return f if isinstance(f, Function) else None

    def method(self, f, state):
        """The attributes that are there after the method."""
        first = (f.node.args.posonlyargs + f.node.args.args)[:1]
        decorators = {getattr(d, 'id', None) for d in f.node.decorator_list}
        if not first or decorators & {'staticmethod', 'classmethod'}:
            return state
        k = (f.fid, state, self.depth > 0)
        if k in self.memo:
            return self.memo[k]
        if k in self.active or len(self.active) > 40:
            return state
        self.active.add(k)
        self.used.add(f)
        old = getattr(self, 'cur', None)
        self.cur = (f, first[0].arg, [], [], [])
        end = self.block(f.node.body, state)
        rets = self.cur[2]
        self.cur = old
        self.active.discard(k)
        out = self.merge(end, *rets)
        self.memo[k] = out
        return out

    def merge(self, *states):
        states = [s for s in states if s is not None]
        if not states:
            return None
        out = states[0]
        for s in states[1:]:
            out &= s
        return out

    def block(self, body, s):
        for n in body:
            if s is None:
                return None
            s = self.stmt(n, s)
        return s

    def is_self(self, x):
        return isinstance(x, ast.Name) and x.id == self.cur[1]

    def expr(self, n, s):
        """Reads, calls of own methods, and assignments, in order of evaluation."""
        if n is None or s is None:
            return s
        if isinstance(n, (ast.Lambda, ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            return s
        if isinstance(n, ast.BoolOp):
            s = self.expr(n.values[0], s)
            e = self.tested(n.values[0], s, isinstance(n.op, ast.And))
            self.depth += 1
            for v in n.values[1:]:
                e = self.expr(v, e)
                e = self.tested(v, e, isinstance(n.op, ast.And))
            self.depth -= 1
            return s
        if isinstance(n, ast.IfExp):
            s = self.expr(n.test, s)
            self.depth += 1
            try:
                return self.merge(self.expr(n.body, self.tested(n.test, s, True)),
                                  self.expr(n.orelse, self.tested(n.test, s, False)))
            finally:
                self.depth -= 1
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for g in n.generators:
                e = s = self.expr(g.iter, s)
                for c in g.ifs:
                    e = self.expr(c, e)
            for x in (n.key, n.value) if isinstance(n, ast.DictComp) else (n.elt,):
                self.expr(x, s)
            return s
        if isinstance(n, ast.Call):
            f = n.func
            called = None
            if isinstance(f, ast.Attribute):
                if self.is_self(f.value):
                    called = self.own(f.attr)
                elif isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) \
                        and f.value.func.id == 'super':
                    called = self.above(f.attr)
                elif n.args and self.is_self(n.args[0]) and isinstance(f.value, ast.Name):
                    for c in self.mro:
                        if self.p.classes[c].short == f.value.id:
                            m = self.p.find_method(c, f.attr)
                            called = m if isinstance(m, Function) else None
            if called is None:
                s = self.expr(f, s)
            for a in n.args:
                s = self.expr(a, s)
            for k in n.keywords:
                s = self.expr(k.value, s)
            if called is not None and s is not None:
                r = self.method(called, s)
                if called.is_generator:
                    return s
                return r
            return s
        if isinstance(n, ast.Attribute) and self.is_self(n.value):
            f = self.own(n.attr)
            if isinstance(n.ctx, ast.Store) and f is None and n.attr in self.attrs \
                    and self.described(n.attr):
                return s | self.described(n.attr)
            if isinstance(n.ctx, ast.Store):
                # The setter of a property may do more.
                return s | {n.attr} | (self.stores(f, set()) if f is not None else set())
            if isinstance(n.ctx, ast.Del):
                return s - {n.attr}
            if f is not None:
                # A property, or a method that something else calls, maybe now.
                self.method(f, s)
                return s | self.stores(f, set())
            self.reads += 1
            if n.attr not in s and n.attr not in self.attrs and n.attr not in self.foreign \
                    and not self.inherited(n.attr) \
                    and not n.attr.startswith('__') and not self.cur[3] and n.attr not in self.lazy \
                    and not (self.depth and n.attr in self.some):
                self.found.setdefault((self.cur[0].fid, n.attr), n)
            return s
        if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Call) \
                and isinstance(n.value.func, ast.Name) and n.value.func.id == 'super':
            f = self.above(n.attr)
            return s | self.stores(f, set()) if f is not None else s
        if isinstance(n, ast.NamedExpr):
            return self.expr(n.value, s)
        for x in ast.iter_child_nodes(n):
            s = self.expr(x, s)
        return s

    def described(self, name):
        """What the functions of a property made by a call assign."""
        for c in self.mro:
            e = self.p.classes[c].attrs.get(name)
            if isinstance(e, ast.Call):
                out = set()
                for x in ast.walk(e):
                    if isinstance(x, ast.Name) and self.own(x.id) is not None:
                        out |= self.stores(self.own(x.id), set())
                return out
        return set()

    def inherited(self, name):
        for c in self.outside:
            x = load(c)
            if x is None or hasattr(x, name) or name in instance_attributes(c):
                return True
        return False

    def above(self, name):
        f = self.cur[0]
        here = [c for c in self.mro if f.cls is not None and
                name in self.p.classes[c].methods]
        seen = False
        for c in self.mro:
            if seen and name in self.p.classes[c].methods:
                return self.p.classes[c].methods[name]
            if f.cls is not None and self.p.classes[c] is f.cls:
                seen = True
        return None

    def tested(self, t, s, val):
        """The state where the condition is val."""
        if s is None:
            return None
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            return self.tested(t.operand, s, not val)
        if isinstance(t, ast.BoolOp) and isinstance(t.op, ast.And) == val:
            for v in t.values:
                s = self.tested(v, s, val)
            return s
        if val and isinstance(t, ast.Call) and isinstance(t.func, ast.Name) \
                and t.func.id == 'hasattr' and len(t.args) == 2 and self.is_self(t.args[0]) \
                and isinstance(t.args[1], ast.Constant):
            return s | {t.args[1].value}
        return s

    def stmt(self, n, s):
        if isinstance(n, ast.If):
            s = self.expr(n.test, s)
            self.depth += 1
            try:
                return self.merge(self.block(n.body, self.tested(n.test, s, True)),
                                  self.block(n.orelse, self.tested(n.test, s, False)))
            finally:
                self.depth -= 1
        if isinstance(n, ast.While):
            s = self.expr(n.test, s)
            self.cur[4].append([])
            self.block(n.body, self.tested(n.test, s, True))
            ends = self.cur[4].pop()
            if isinstance(n.test, ast.Constant) and n.test.value:
                return self.merge(*ends)
            return self.merge(self.block(n.orelse, s), *ends) if n.orelse else s
        if isinstance(n, (ast.For, ast.AsyncFor)):
            s = self.expr(n.iter, s)
            self.cur[4].append([])
            end = self.block(n.body, self.expr(n.target, s))
            ends = self.cur[4].pop()
            if isinstance(n.iter, (ast.Tuple, ast.List)) and n.iter.elts:
                # The body is run.
                return self.merge(end, *ends)
            return self.merge(self.block(n.orelse, s), *ends) if n.orelse else s
        if isinstance(n, ast.Try):
            knows = any(broad(h) or 'AttributeError' in ast.dump(h.type) for h in n.handlers)
            if knows:
                self.cur[3].append(n)
            end = self.block(n.body, s)
            if knows:
                self.cur[3].pop()
            end = self.block(n.orelse, end) if end is not None else None
            outs = [end] + [self.block(h.body, s) for h in n.handlers]
            out = self.merge(*outs)
            if n.finalbody:
                self.block(n.finalbody, s)
                return None if out is None else self.block(n.finalbody, out)
            return out
        if isinstance(n, (ast.With, ast.AsyncWith)):
            for i in n.items:
                s = self.expr(i.context_expr, s)
                s = self.expr(i.optional_vars, s)
            knows = any('suppress' in ast.dump(i.context_expr) for i in n.items)
            if knows:
                # It may end before its end.
                self.cur[3].append(n)
                self.block(n.body, s)
                self.cur[3].pop()
                return s
            return self.block(n.body, s)
        if isinstance(n, ast.Return):
            s = self.expr(n.value, s)
            self.cur[2].append(s)
            return None
        if isinstance(n, ast.Raise):
            self.expr(n.exc, s)
            return None
        if isinstance(n, (ast.Break, ast.Continue)):
            if self.cur[4]:
                self.cur[4][-1].append(s)
            return None
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            return s
        if isinstance(n, ast.Assign):
            s = self.expr(n.value, s)
            for t in n.targets:
                s = self.expr(t, s)
            return s
        if isinstance(n, ast.AugAssign):
            t = n.target
            if isinstance(t, ast.Attribute) and self.is_self(t.value):
                s = self.expr(ast.copy_location(ast.Attribute(t.value, t.attr, ast.Load()), t), s)
            s = self.expr(n.value, s)
            return self.expr(t, s)
        if isinstance(n, ast.AnnAssign):
            return self.expr(n.target, self.expr(n.value, s)) if n.value is not None else s
        for x in ast.iter_child_nodes(n):
            s = self.expr(x, s)
        return s


def foreign_attributes(p):
    """Attributes that something assigns to another name than the own object."""
    out = set()
    for f in p.functions.values():
        first = (f.node.args.posonlyargs + f.node.args.args)[:1]
        me = first[0].arg if first and f.cls is not None else None
        for n in f.own_nodes():
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and not (
                    isinstance(n.value, ast.Name) and n.value.id == me):
                out.add(n.attr)
    return out
