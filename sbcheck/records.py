"""Named tuples and dataclasses, for the abstract interpreter.

A named tuple is a plain tuple term; its fields are found by the tuple's length."""
import ast

from . import terms as T
from .program import Function


def last(e):
    e = e.func if isinstance(e, ast.Call) else e
    return getattr(e, 'id', getattr(e, 'attr', None))


def declared(n):
    """[(field, default expression or None)] of a class body."""
    return [(x.target.id, x.value) for x in n.body
            if isinstance(x, ast.AnnAssign) and isinstance(x.target, ast.Name)
            and 'ClassVar' not in ast.dump(x.annotation)]


def functional(call):
    """The fields of namedtuple('X', 'a b') or NamedTuple('X', [('a', int)]), or None."""
    if not isinstance(call, ast.Call) or last(call) not in ('namedtuple', 'NamedTuple') \
            or len(call.args) < 2:
        return None
    try:
        v = ast.literal_eval(call.args[1])
    except ValueError:
        if not isinstance(call.args[1], (ast.List, ast.Tuple)):
            return None
        try:
            v = [ast.literal_eval(x.elts[0]) for x in call.args[1].elts]
        except (ValueError, AttributeError, IndexError):
            return None
    if isinstance(v, str):
        v = v.replace(',', ' ').split()
    try:
        names = [x if isinstance(x, str) else x[0] for x in v]
    except (TypeError, IndexError):
        return None
    defaults = [None] * len(names)
    for k in call.keywords:
        if k.arg == 'defaults' and isinstance(k.value, (ast.Tuple, ast.List)):
            d = k.value.elts
            defaults[len(names) - len(d):] = d
    return list(zip(names, defaults))


class Records:
    def __init__(self, p):
        self.p = p
        self.tuples = {}       # class -> [(field, default, module)]
        self.data = {}         # class -> (fields, compared, module)
        self.calls = {}        # call node -> fields
        for m in p.modules.values():
            for n in ast.walk(m.tree):
                f = functional(n)
                if f is not None:
                    self.calls[n] = [(a, d, m) for a, d in f]
        for name, c in p.classes.items():
            bases = [last(b) for b in c.node.bases]
            if 'NamedTuple' in bases:
                self.tuples[name] = [(a, d, c.module) for a, d in declared(c.node)]
            for b in c.node.bases:
                f = functional(b)
                if f is not None:
                    self.tuples[name] = [(a, d, c.module) for a, d in f]
        for name, c in p.classes.items():
            for d in c.node.decorator_list:
                if last(d) == 'dataclass':
                    eq = not (isinstance(d, ast.Call) and any(
                        k.arg == 'eq' and getattr(k.value, 'value', True) is False
                        for k in d.keywords))
                    self.data[name] = eq
        # subclasses of named tuples
        for name in p.classes:
            if name not in self.tuples:
                for b in p.mro(name):
                    if b in self.tuples:
                        self.tuples[name] = self.tuples[b]
                        break

    def fields(self, cls):
        """The fields of a dataclass, of its bases first."""
        out = {}
        for b in reversed(self.p.mro(cls)):
            if not isinstance(b, tuple) and b in self.data:
                c = self.p.classes[b]
                for a, d in declared(c.node):
                    out[a] = (a, d, c.module)
        return list(out.values())

    def all_tuples(self):
        for c, f in self.tuples.items():
            yield c, f
        for f in self.calls.values():
            yield None, f

    def index(self, v, name):
        """The position of a field in a tuple term: (known, index or None)."""
        found = set()
        n = 0
        for _c, f in self.all_tuples():
            if len(f) == len(v) - 1:
                n += 1
                for i, x in enumerate(f):
                    if x[0] == name:
                        found.add(i)
        if len(found) == 1:
            return True, found.pop()
        return not found, None

    def method(self, v, name):
        """The class attribute that a tuple term may have."""
        found = []
        for c, f in self.tuples.items():
            if len(f) == len(v) - 1:
                m = self.p.find_method(c, name)
                if isinstance(m, Function) and m not in found:
                    found.append(m)
        return found[0] if len(found) == 1 else None

    def default(self, ip, st, d, m):
        if isinstance(d, ast.Call) and last(d) == 'field':
            for k in d.keywords:
                if k.arg == 'default':
                    return ip.thaw(st, ip.const_expr(m, k.value))
                if k.arg == 'default_factory':
                    e = ast.copy_location(ast.Call(k.value, [], []), d)
                    return ip.thaw(st, ip.const_expr(m, ast.fix_missing_locations(e)))
            return None
        return ip.thaw(st, ip.const_expr(m, d))

    def bind(self, ip, st, fields, args, kwargs):
        """The values of the fields, or None if the arguments do not fit."""
        if len(args) > len(fields) or set(kwargs) - {f[0] for f in fields}:
            return None
        out = list(args)
        for a, d, m in fields[len(args):]:
            if a in kwargs:
                out.append(kwargs[a])
                continue
            v = self.default(ip, st, d, m) if d is not None else None
            if v is None:
                return None
            out.append(v)
        if any(f[0] in kwargs for f in fields[:len(args)]):
            return None
        return out
