#!/usr/bin/env python3
"""Rewrites every module under a directory in a way that keeps its behaviour.

metamorph.py DIRECTORY TRANSFORMATION: used (on copies) to find out whether the checks judge what
the code does or how it is written."""
import ast
import os
import sys

N = 0


def fresh(p='tmp'):
    global N
    N += 1
    return '_%s_%d' % (p, N)


def name(n, ctx=None):
    return ast.Name(n, ctx or ast.Load())


def assign(n, e):
    return ast.Assign([name(n, ast.Store())], e)


class Base(ast.NodeTransformer):
    """Statement transformer: visit_X may give a list of statements."""


class SwapIf(Base):
    """if c: A else: B -> if not c: B else: A"""

    def visit_If(self, n):
        self.generic_visit(n)
        if n.orelse:
            return ast.If(ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body)
        return n

    def visit_IfExp(self, n):
        self.generic_visit(n)
        return ast.IfExp(ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body)


class NestElse(Base):
    """if c: return/raise/continue ...; rest -> if c: ... else: rest"""

    def block(self, body):
        for i, s in enumerate(body):
            if isinstance(s, ast.If) and not s.orelse and i + 1 < len(body) and isinstance(
                    s.body[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break)):
                s.orelse = self.block(body[i + 1:])
                return body[:i + 1]
        return body

    def generic_visit(self, n):
        super().generic_visit(n)
        for f in ('body', 'orelse', 'finalbody'):
            if isinstance(getattr(n, f, None), list) and not isinstance(n, (ast.Module,
                                                                           ast.ClassDef)):
                setattr(n, f, self.block(getattr(n, f)))
        return n


class FlattenElse(Base):
    """if c: ... return else: rest -> if c: ... return; rest"""

    def visit_If(self, n):
        self.generic_visit(n)
        if n.orelse and isinstance(n.body[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break)):
            rest = n.orelse
            n.orelse = []
            return [n] + rest
        return n


class ReturnTemp(Base):
    """return e -> x = e; return x"""

    def visit_Return(self, n):
        if n.value is None or isinstance(n.value, (ast.Name, ast.Constant)):
            return n
        t = fresh('result')
        return [assign(t, n.value), ast.Return(name(t))]


class CallTemps(Base):
    """f(a, b) as a statement or an assignment's value -> arguments in variables first"""

    def pull(self, c):
        out = []
        if not isinstance(c, ast.Call) or not isinstance(c.func, (ast.Name, ast.Attribute)):
            return out
        if isinstance(c.func, ast.Attribute):
            # The receiver is evaluated first.
            if not isinstance(c.func.value, (ast.Name, ast.Constant)) and not (
                    isinstance(c.func.value, ast.Call)
                    and getattr(c.func.value.func, 'id', '') == 'super'):
                t = fresh('receiver')
                out.append(assign(t, c.func.value))
                c.func.value = name(t)
        for i, a in enumerate(c.args):
            if isinstance(a, ast.Starred):
                break
            if not isinstance(a, (ast.Name, ast.Constant)):
                t = fresh('argument')
                out.append(assign(t, a))
                c.args[i] = name(t)
        return out

    def visit_Expr(self, n):
        return self.pull(n.value) + [n]

    visit_Assign = visit_Expr

    def visit_Return(self, n):
        return (self.pull(n.value) if n.value is not None else []) + [n]

    def visit_ClassDef(self, n):
        n.body = [self.visit(s) if isinstance(s, ast.FunctionDef) else s for s in n.body]
        return n

    def visit_Module(self, n):
        n.body = [self.visit(s) if isinstance(s, (ast.FunctionDef, ast.ClassDef)) else s
                  for s in n.body]
        return n


class IsNone(Base):
    """x is None -> None is x; a == b -> b == a for constants"""

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.Is, ast.IsNot)):
            n.left, n.comparators = n.comparators[0], [n.left]
        elif len(n.ops) == 1 and isinstance(n.comparators[0], ast.Constant):
            flip = {ast.Eq: ast.Eq, ast.NotEq: ast.NotEq, ast.Lt: ast.Gt, ast.Gt: ast.Lt,
                    ast.LtE: ast.GtE, ast.GtE: ast.LtE}.get(type(n.ops[0]))
            if flip:
                n.left, n.comparators, n.ops = n.comparators[0], [n.left], [flip()]
        return n


class NotCompare(Base):
    """a < b -> not a >= b is not the same for NaN; a in b -> not a not in b, a is b likewise"""

    def visit_Compare(self, n):
        self.generic_visit(n)
        flip = {ast.In: ast.NotIn, ast.NotIn: ast.In, ast.Is: ast.IsNot, ast.IsNot: ast.Is}
        if len(n.ops) == 1 and type(n.ops[0]) in flip:
            n.ops = [flip[type(n.ops[0])]()]
            return ast.UnaryOp(ast.Not(), n)
        return n


class ForIter(Base):
    """for x in e: B -> a while loop over iter(e)"""

    def visit_For(self, n):
        self.generic_visit(n)
        if n.orelse:
            return n
        it = fresh('iterator')
        return [assign(it, ast.Call(name('iter'), [n.iter], [])),
                ast.While(ast.Constant(True), [
                    ast.Try([ast.Assign([n.target], ast.Call(name('next'), [name(it)], []))],
                            [ast.ExceptHandler(name('StopIteration'), None, [ast.Break()])],
                            [], [])] + n.body, [])]


class WhileTrue(Base):
    """while c: B -> while True: if not c: break; B"""

    def visit_While(self, n):
        self.generic_visit(n)
        if n.orelse or isinstance(n.test, ast.Constant):
            return n
        return ast.While(ast.Constant(True), [
            ast.If(ast.UnaryOp(ast.Not(), n.test), [ast.Break()], [])] + n.body, [])


class AugAssign(Base):
    """x += e -> x = x + e for names and attributes of names"""

    def visit_AugAssign(self, n):
        t = n.target
        if isinstance(t, ast.Name):
            return ast.Assign([t], ast.BinOp(name(t.id), n.op, n.value))
        if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name):
            return ast.Assign([t], ast.BinOp(
                ast.Attribute(name(t.value.id), t.attr, ast.Load()), n.op, n.value))
        return n


class Delegate(Base):
    """Every function calls a function that does what it did."""

    def functions(self, body, in_class):
        out = []
        for s in body:
            if isinstance(s, ast.ClassDef):
                s.body = self.functions(s.body, s.name)
            if not isinstance(s, ast.FunctionDef) or s.decorator_list or \
                    s.name.startswith('__') or any(
                        isinstance(x, ast.Call) and getattr(x.func, 'id', '') == 'super'
                        for x in ast.walk(s)) or s.args.kwonlyargs:
                out.append(s)
                continue
            inner = '_do_%s_%s' % (in_class or 'f', s.name.lstrip('_'))
            a = s.args
            names = [x.arg for x in a.posonlyargs + a.args]
            args = [name(x) for x in (names[1:] if in_class else names)]
            if a.vararg:
                args.append(ast.Starred(name(a.vararg.arg), ast.Load()))
            kws = [ast.keyword(None, name(a.kwarg.arg))] if a.kwarg else []
            f = ast.Attribute(name(names[0]), inner, ast.Load()) if in_class else name(inner)
            outer = ast.FunctionDef(s.name, a, [ast.Return(ast.Call(f, args, kws))], [], None)
            import copy
            b = copy.deepcopy(a)
            b.defaults = []
            out.append(ast.FunctionDef(inner, b, s.body, [], None))
            out.append(outer)
        return out

    def visit_Module(self, n):
        n.body = self.functions(n.body, False)
        return n


class ExpandComp(Base):
    """[e for x in y if c] as the value of an assignment or return -> a loop with append"""

    def expand(self, n):
        v = n.value
        if not isinstance(v, ast.ListComp) or len(v.generators) != 1:
            return None
        g = v.generators[0]
        t = fresh('list')
        # The loop variable must not clash.
        names = {x.id for x in ast.walk(g.target) if isinstance(x, ast.Name)}

        class Ren(ast.NodeTransformer):
            def visit_Name(self, m):
                return ast.Name('_v_' + m.id, m.ctx) if m.id in names else m
        r = Ren()
        if any(isinstance(x, (ast.Lambda, ast.ListComp, ast.GeneratorExp))
               for x in ast.walk(v.elt)):
            return None
        body = ast.Expr(ast.Call(ast.Attribute(name(t), 'append', ast.Load()),
                                 [r.visit(v.elt)], []))
        for c in reversed(g.ifs):
            body = ast.If(r.visit(c), [body], [])
        out = [assign(t, ast.List([], ast.Load())),
               ast.For(r.visit(g.target), g.iter, [body], [])]
        n.value = name(t)
        return out + [n]

    def visit_Assign(self, n):
        return self.expand(n) or n

    visit_Return = visit_Assign

    def visit_ClassDef(self, n):
        n.body = [self.visit(s) if isinstance(s, ast.FunctionDef) else s for s in n.body]
        return n

    def visit_Module(self, n):
        n.body = [self.visit(s) if isinstance(s, (ast.FunctionDef, ast.ClassDef)) else s
                  for s in n.body]
        return n


class IfBlocks(Base):
    """A function's body in `if True:`; an unused variable."""

    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        n.body = [assign(fresh('unused'), ast.Constant(None)),
                  ast.If(ast.Constant(True), n.body, [])]
        return n


class TryFinally(Base):
    """A function's body in try/finally: pass, generators excepted."""

    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        n.body = [ast.Try(n.body, [], [], [ast.Pass()])]
        return n


class AndNest(Base):
    """if a and b: X -> if a: if b: X"""

    def visit_If(self, n):
        self.generic_visit(n)
        if not n.orelse and isinstance(n.test, ast.BoolOp) and isinstance(n.test.op, ast.And):
            body = n.body
            for t in reversed(n.test.values):
                body = [ast.If(t, body, [])]
            return body[0]
        return n


class DeMorgan(Base):
    """a and b -> not (not a or not b), in conditions"""

    def flip(self, t):
        if isinstance(t, ast.BoolOp):
            op = ast.Or() if isinstance(t.op, ast.And) else ast.And()
            return ast.UnaryOp(ast.Not(), ast.BoolOp(op, [
                ast.UnaryOp(ast.Not(), self.flip(v)) for v in t.values]))
        return t

    def visit_If(self, n):
        self.generic_visit(n)
        n.test = self.flip(n.test)
        return n

    visit_While = visit_If


class Rename(Base):
    """Local variables renamed."""

    def visit_FunctionDef(self, n):
        inner = [x for x in ast.walk(n) if isinstance(x, (ast.FunctionDef, ast.Lambda))
                 and x is not n]
        if inner or any(isinstance(x, (ast.Global, ast.Nonlocal)) for x in ast.walk(n)):
            return n
        a = n.args
        params = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}
        params |= {x.arg for x in (a.vararg, a.kwarg) if x}
        stored = {x.id for x in ast.walk(n) if isinstance(x, ast.Name)
                  and isinstance(x.ctx, ast.Store)} - params
        for x in ast.walk(n):
            if isinstance(x, ast.Name) and x.id in stored:
                x.id = 'local_' + x.id
            elif isinstance(x, ast.ExceptHandler) and x.name in stored:
                x.name = 'local_' + x.name
        return n


class ParamCopy(Base):
    """Parameters copied to local variables first."""

    def visit_FunctionDef(self, n):
        if any(isinstance(x, ast.Call) and getattr(x.func, 'id', '') == 'super'
               for x in ast.walk(n)):
            return n
        a = n.args
        params = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        params += [x.arg for x in (a.vararg, a.kwarg) if x]
        for s in n.body:
            for x in ast.walk(s):
                if isinstance(x, (ast.FunctionDef, ast.Lambda)):
                    return n
        for s in n.body:
            for x in ast.walk(s):
                if isinstance(x, ast.Name) and x.id in params:
                    x.id = 'the_' + x.id
        n.body = [assign('the_' + x, name(x)) for x in params] + n.body
        return n


class TupleAssign(Base):
    """x = a; y = b (constants) -> x, y = a, b"""

    def generic_visit(self, n):
        super().generic_visit(n)
        for f in ('body', 'orelse', 'finalbody'):
            b = getattr(n, f, None)
            if isinstance(b, list) and not isinstance(n, ast.Module):
                out = []
                for s in b:
                    p = out[-1] if out else None
                    if isinstance(s, ast.Assign) and isinstance(p, ast.Assign) and all(
                            len(x.targets) == 1 and isinstance(x.value, ast.Constant)
                            and isinstance(x.targets[0], (ast.Name, ast.Attribute))
                            for x in (s, p)):
                        out[-1] = ast.Assign([ast.Tuple([p.targets[0], s.targets[0]],
                                                        ast.Store())],
                                             ast.Tuple([p.value, s.value], ast.Load()))
                    else:
                        out.append(s)
                setattr(n, f, out)
        return n


class Walrus(Base):
    """x = e; if x ...: -> if (x := e) ...:"""

    def generic_visit(self, n):
        super().generic_visit(n)
        for f in ('body', 'orelse', 'finalbody'):
            b = getattr(n, f, None)
            if isinstance(b, list) and not isinstance(n, (ast.Module, ast.ClassDef)):
                out = []
                for s in b:
                    p = out[-1] if out else None
                    if isinstance(s, ast.If) and isinstance(p, ast.Assign) \
                            and len(p.targets) == 1 and isinstance(p.targets[0], ast.Name):
                        v = p.targets[0].id
                        w = ast.NamedExpr(name(v, ast.Store()), p.value)
                        t = s.test
                        if isinstance(t, ast.Name) and t.id == v:
                            s.test = w
                            out[-1] = s
                            continue
                        if isinstance(t, ast.Compare) and isinstance(t.left, ast.Name) \
                                and t.left.id == v:
                            t.left = w
                            out[-1] = s
                            continue
                    out.append(s)
                setattr(n, f, out)
        return n


class ElseOfTry(Base):
    """try: a; b except KeyError/IndexError...: c  with a last simple return -> else"""

    def visit_Try(self, n):
        self.generic_visit(n)
        if n.handlers and not n.orelse and len(n.body) > 1 and isinstance(n.body[-1], ast.Return) \
                and isinstance(n.body[-1].value, (ast.Name, ast.Constant, type(None))):
            n.orelse = [n.body.pop()]
        return n


class BodyHelper(Base):
    """The body of each method's `for` loops goes to a nested function, when it only reads."""

    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        out = []
        for s in n.body:
            if isinstance(s, ast.For) and not any(isinstance(
                    x, (ast.Break, ast.Continue, ast.Return, ast.Yield, ast.YieldFrom, ast.Global,
                        ast.FunctionDef))
                    for b in s.body for x in ast.walk(b)) and not s.orelse:
                stored = {x.id for b in s.body for x in ast.walk(b) if isinstance(x, ast.Name)
                          and isinstance(x.ctx, (ast.Store, ast.Del))}
                targets = {x.id for x in ast.walk(s.target) if isinstance(x, ast.Name)}
                rest = {x.id for o in n.body if o is not s for x in ast.walk(o)
                        if isinstance(x, ast.Name)}
                aug = {x.target.id for b in s.body for x in ast.walk(b)
                       if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name)}
                if not (stored & rest) and not (aug & stored) and not (stored & targets):
                    h = fresh('each')
                    ts = sorted(targets)
                    out.append(ast.FunctionDef(h, ast.arguments(
                        [], [ast.arg(t) for t in ts], None, [], [], None, []), s.body, [], None))
                    s.body = [ast.Expr(ast.Call(name(h), [name(t) for t in ts], []))]
            out.append(s)
        n.body = out
        return n


class Lambdas(Base):
    """lambda -> a named function just before the statement; % and format kept"""

    def visit_FunctionDef(self, n):
        out = []
        for s in n.body:
            pre = []
            if not isinstance(s, (ast.For, ast.While, ast.FunctionDef, ast.If, ast.Try, ast.With)):
                class L(ast.NodeTransformer):
                    def visit_Lambda(self, m):
                        h = fresh('function')
                        pre.append(ast.FunctionDef(h, m.args, [ast.Return(m.body)], [], None))
                        return name(h)

                    def visit_ListComp(self, m):
                        return m
                    visit_GeneratorExp = visit_SetComp = visit_DictComp = visit_ListComp
                s = L().visit(s)
            out += pre + [s]
        n.body = out
        return n


TRANSFORMS = {c.__name__: c for c in Base.__subclasses__()}


def main(argv):
    top = os.path.join(argv[1], 'sbclassifier')
    for d, _dirs, files in os.walk(top):
        for f in sorted(files):
            if f.endswith('.py'):
                p = os.path.join(d, f)
                with open(p) as fp:
                    tree = ast.parse(fp.read())
                for t in argv[2].split('+'):
                    tree = ast.fix_missing_locations(TRANSFORMS[t]().visit(tree))
                    tree = ast.parse(ast.unparse(tree))
                with open(p, 'w') as fp:
                    fp.write(ast.unparse(tree) + '\n')


if __name__ == '__main__':
    if len(sys.argv) < 3:
        print(*TRANSFORMS)
    else:
        main(sys.argv)
