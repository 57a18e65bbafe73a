"""Which local variables are live at the head and after the end of each loop.

A backward analysis over the syntax tree of one function. Variables that
nested functions use are live everywhere.
"""
import ast

NESTED = (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)


def captured(fnode):
    out = set()
    def nested(n):
        for x in ast.walk(n):
            if isinstance(x, ast.Name):
                out.add(x.id)
    def go(n):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, NESTED) or isinstance(c, ast.GeneratorExp):
                nested(c)
            else:
                go(c)
    go(fnode)
    return out


def uses_defs(node):
    """(used before defined, certainly defined) for an expression/target."""
    used, defd = set(), set()
    for n in ast.walk(node):
        if isinstance(n, ast.Name):
            if isinstance(n.ctx, ast.Load):
                used.add(n.id)
            elif isinstance(n.ctx, ast.Del):
                used.add(n.id)
    return used


def targets(node):
    """Names bound by plain assignment to the target."""
    if isinstance(node, ast.Name):
        return {node.id}
    if isinstance(node, (ast.Tuple, ast.List)):
        s = set()
        for e in node.elts:
            s |= targets(e)
        return s
    if isinstance(node, ast.Starred):
        return targets(node.value)
    return set()


class Live:
    def __init__(self, fnode):
        self.head = {}
        self.exit = {}
        self.captured = captured(fnode)
        body = fnode.body if isinstance(fnode.body, list) else []
        self.block(body, set(), set(), None, None)

    def block(self, stmts, out, exc, brk, cont):
        live = set(out)
        for s in reversed(stmts):
            live = self.stmt(s, live, exc, brk, cont)
        return live

    def stmt(self, s, out, exc, brk, cont):
        """Live before the statement; `exc`: live at the handlers around."""
        if isinstance(s, ast.Return):
            r = uses_defs(s.value) if s.value else set()
            return r | exc
        if isinstance(s, ast.Raise):
            return uses_defs(s) | exc
        if isinstance(s, ast.Break):
            return set(brk or out) | exc
        if isinstance(s, ast.Continue):
            return set(cont or out) | exc
        if isinstance(s, ast.If):
            a = self.block(s.body, out, exc, brk, cont)
            b = self.block(s.orelse, out, exc, brk, cont)
            return a | b | uses_defs(s.test) | exc
        if isinstance(s, (ast.For, ast.AsyncFor)):
            after = self.block(s.orelse, out, exc, brk, cont)
            head = set(after)
            t = targets(s.target)
            extra = uses_defs(s.target)
            for _ in range(3):
                body = self.block(s.body, head, exc, set(out), head)
                head = head | (body - t) | extra | after
            # the iterator may run generator code that uses captured names
            self.head[id(s)] = head | exc
            self.exit[id(s)] = after | set(out) | exc
            return head | uses_defs(s.iter) | exc
        if isinstance(s, ast.While):
            after = self.block(s.orelse, out, exc, brk, cont)
            head = after | uses_defs(s.test)
            for _ in range(3):
                body = self.block(s.body, head, exc, set(out), head)
                head = head | body
            self.head[id(s)] = head | exc
            self.exit[id(s)] = after | set(out) | exc
            return head | exc
        if isinstance(s, ast.Try):
            fin_out = set(out)
            fin = self.block(s.finalbody, fin_out | exc, exc, brk, cont) if s.finalbody else fin_out
            hs = set(exc)
            if s.finalbody:
                hs |= fin
            h_in = set(hs)
            for h in s.handlers:
                hb = self.block(h.body, fin, hs, brk, cont)
                if h.name:
                    hb = hb - {h.name}
                if h.type is not None:
                    hb |= uses_defs(h.type)
                h_in |= hb
            brk2 = (set(brk) | fin) if brk is not None else None
            cont2 = (set(cont) | fin) if cont is not None else None
            els = self.block(s.orelse, fin, hs, brk2, cont2)
            return self.block(s.body, els, h_in, brk2, cont2) | h_in
        if isinstance(s, (ast.With, ast.AsyncWith)):
            live = self.block(s.body, out, exc | set(out), brk, cont)
            for it in reversed(s.items):
                if it.optional_vars is not None:
                    live = live - targets(it.optional_vars) | uses_defs(it.optional_vars)
                live |= uses_defs(it.context_expr)
            return live | exc
        if isinstance(s, NESTED):
            d = set()
            for x in ast.walk(s):
                if isinstance(x, ast.Name):
                    d.add(x.id)
            return (set(out) - {s.name}) | d | exc
        if isinstance(s, (ast.Assign, ast.AnnAssign)):
            ts = s.targets if isinstance(s, ast.Assign) else [s.target]
            live = set(out)
            if isinstance(s, ast.Assign) or s.value is not None:
                for t in ts:
                    live -= targets(t)
            for t in ts:
                live |= uses_defs(t)
            if s.value is not None:
                live |= uses_defs(s.value)
            return live | exc
        if isinstance(s, ast.AugAssign):
            live = set(out) | uses_defs(s.value) | uses_defs(s.target)
            if isinstance(s.target, ast.Name):
                live.add(s.target.id)
            return live | exc
        if isinstance(s, (ast.Import, ast.ImportFrom)):
            return set(out) | exc
        return set(out) | uses_defs(s) | exc
