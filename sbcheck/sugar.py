"""What can be written in several ways, rewritten to one of them when a module is read: `match`,
comparisons with a constant on the left, `if True`, loops around next()."""
import ast
import copy


class Unsupported(Exception):
    pass


def rewrite(tree):
    for n in ast.walk(tree):
        # Handlers of groups are treated like others.
        if isinstance(n, ast.TryStar):
            n.__class__ = ast.Try
    if any(isinstance(n, ast.Match) for n in ast.walk(tree)):
        tree = ast.fix_missing_locations(Matches().visit(tree))
    return ast.fix_missing_locations(Plain().visit(tree))


FLIP = {ast.Eq: ast.Eq, ast.NotEq: ast.NotEq, ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE,
        ast.GtE: ast.LtE, ast.Is: ast.Is, ast.IsNot: ast.IsNot}
YIELDS = (ast.Yield, ast.YieldFrom, ast.Await)


class Plain(ast.NodeTransformer):
    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and isinstance(n.left, ast.Constant) and type(n.ops[0]) in FLIP \
                and not isinstance(n.comparators[0], ast.Constant):
            n.left, n.comparators = n.comparators[0], [n.left]
            n.ops = [FLIP[type(n.ops[0])]()]
        return n

    def visit_If(self, n):
        self.generic_visit(n)
        if isinstance(n.test, ast.Constant) and n.test.value and not any(
                isinstance(x, YIELDS) for b in n.orelse for x in ast.walk(b)):
            return n.body
        return n

    def visit_While(self, n):
        self.generic_visit(n)
        if not isinstance(n.test, ast.Constant) or not n.test.value or n.orelse \
                or not isinstance(n.body[0], ast.Try):
            return n
        t = n.body[0]
        # try: x = next(it) except StopIteration: break
        if len(t.body) != 1 or t.finalbody or len(t.handlers) != 1:
            return n
        a, h = t.body[0], t.handlers[0]
        if not (isinstance(a, ast.Assign) and len(a.targets) == 1
                and isinstance(a.value, ast.Call) and isinstance(a.value.func, ast.Name)
                and a.value.func.id == 'next' and len(a.value.args) == 1
                and isinstance(a.value.args[0], ast.Name) and not a.value.keywords
                and isinstance(h.type, ast.Name) and h.type.id == 'StopIteration'
                and h.name is None and isinstance(h.body[-1], ast.Break)):
            return n
        it = a.value.args[0].id
        body = t.orelse + n.body[1:]
        if any(isinstance(x, ast.Name) and x.id == it and not isinstance(x.ctx, ast.Load)
               for b in [a.targets[0]] + body for x in ast.walk(b)):
            return n
        # A loop's else clause is what is done when nothing is left.
        return ast.copy_location(ast.For(a.targets[0], a.value.args[0], body or [
            ast.copy_location(ast.Pass(), n)], h.body[:-1]), n)


class Replace(ast.NodeTransformer):
    def __init__(self, names):
        self.names = names

    def visit_Name(self, n):
        e = self.names.get(n.id)
        if e is None or not isinstance(n.ctx, ast.Load):
            return n
        return ast.copy_location(copy.deepcopy(e), n)


class Matches(ast.NodeTransformer):
    def __init__(self):
        self.n = 0

    def visit_Match(self, node):
        self.generic_visit(node)
        self.n += 1
        name = '_match_%d' % self.n
        try:
            cases = [(c,) + self.pattern(c.pattern, ast.Name(name, ast.Load()))
                     for c in node.cases]
        except Unsupported:
            return node

        def at(x, where):
            for n in ast.walk(x):
                if not hasattr(n, 'lineno') and isinstance(n, (ast.expr, ast.stmt)):
                    ast.copy_location(n, where)
            return x
        rest = []
        for c, tests, names in reversed(cases):
            body = [at(ast.Assign([ast.Name(n, ast.Store())], copy.deepcopy(e)), c.pattern)
                    for n, e in names.items()] + c.body
            if c.guard is not None:
                tests = tests + [Replace(names).visit(copy.deepcopy(c.guard))]
            if not tests:
                rest = body
                continue
            test = tests[0] if len(tests) == 1 else ast.BoolOp(ast.And(), tests)
            rest = [at(ast.If(test, body, rest), c.pattern)]
        first = at(ast.Assign([ast.Name(name, ast.Store())], node.subject), node)
        return [first] + rest

    def pattern(self, p, e):
        """The tests of a pattern and the names it binds."""
        def me():
            return copy.deepcopy(e)
        if isinstance(p, ast.MatchValue):
            return [ast.Compare(me(), [ast.Eq()], [p.value])], {}
        if isinstance(p, ast.MatchSingleton):
            return [ast.Compare(me(), [ast.Is()], [ast.Constant(p.value)])], {}
        if isinstance(p, ast.MatchAs):
            tests, names = self.pattern(p.pattern, e) if p.pattern is not None else ([], {})
            if p.name is not None:
                names = dict(names, **{p.name: e})
            return tests, names
        if isinstance(p, ast.MatchOr):
            alts = []
            for x in p.patterns:
                tests, names = self.pattern(x, e)
                if names:
                    raise Unsupported
                if not tests:
                    return [], {}
                alts.append(tests[0] if len(tests) == 1 else ast.BoolOp(ast.And(), tests))
            return [ast.BoolOp(ast.Or(), alts)], {}
        if isinstance(p, ast.MatchClass):
            tests = [ast.Call(ast.Name('isinstance', ast.Load()), [me(), p.cls], [])]
            names = {}
            builtin = isinstance(p.cls, ast.Name) and p.cls.id in (
                'str', 'bytes', 'int', 'float', 'bool', 'list', 'tuple', 'dict', 'set',
                'frozenset', 'bytearray')
            if p.patterns and not (builtin and len(p.patterns) == 1):
                raise Unsupported
            for x in p.patterns:
                t, n = self.pattern(x, e)
                tests += t
                names.update(n)
            for a, x in zip(p.kwd_attrs, p.kwd_patterns):
                t, n = self.pattern(x, ast.Attribute(me(), a, ast.Load()))
                tests += t
                names.update(n)
            return tests, names
        if isinstance(p, ast.MatchSequence):
            if any(isinstance(x, ast.MatchStar) for x in p.patterns):
                raise Unsupported
            tests = [ast.Call(ast.Name('isinstance', ast.Load()), [me(), ast.Tuple(
                [ast.Name('list', ast.Load()), ast.Name('tuple', ast.Load())], ast.Load())], []),
                ast.Compare(ast.Call(ast.Name('len', ast.Load()), [me()], []), [ast.Eq()],
                            [ast.Constant(len(p.patterns))])]
            names = {}
            for i, x in enumerate(p.patterns):
                t, n = self.pattern(x, ast.Subscript(me(), ast.Constant(i), ast.Load()))
                tests += t
                names.update(n)
            return tests, names
        raise Unsupported
