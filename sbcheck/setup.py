"""Helpers shared by checks that run functions in the abstract interpreter."""
import ast

from . import terms as T
from .interp import Interp
from .program import AnchorMissing, Function
from .state import St, Exc


def numeric_globals(program, modules):
    """(module, name) of module variables bound once to a number literal."""
    out = {}
    for name in modules:
        m = program.modules[name]
        for var, bs in m.bindings.items():
            if len(bs) == 1 and bs[0][0] == 'assign':
                v = bs[0][1]
                try:
                    x = ast.literal_eval(v) if isinstance(v, ast.AST) else None
                except ValueError:
                    continue
                if type(x) in (int, float) and var.isupper():
                    out[(name, var)] = x
    return out


def symbolic_numbers(ip, program, modules):
    """Makes the numeric module constants symbols; returns {symbol: value}."""
    vals = {}
    consts = numeric_globals(program, modules)
    for (m, var), x in consts.items():
        if 'VERSION' in var:
            continue
        sym = T.S('global:%s.%s' % (m, var))
        ip.symbolic_globals.add((m, var))
        ip.sorts[sym[1]] = type(x).__name__
        vals[sym] = x
    # Names imported from there are the same symbols.
    for m in program.modules.values():
        for var, bs in m.bindings.items():
            if len(bs) == 1 and bs[0][0] == 'from':
                base, n = bs[0][1]
                if (base, n) in ip.symbolic_globals:
                    ip.const_override[(m.name, var)] = T.S('global:%s.%s' % (base, n))
    return vals


def classifier_classes(program):
    """The concrete classifier classes, by name."""
    out = []
    for n in ('Classifier', 'PickleClassifier', 'ShelveClassifier', 'CDBClassifier',
              'SlurpingClassifier'):
        out.append(program.cls(n).name)
    return out


def instance(st, cls, **attrs):
    return st.new('inst', cls=cls, sym=None, attrs=dict(attrs))


def where(program, cls, method):
    f = program.find_method(cls, method)
    if isinstance(f, Function):
        return '%s:%s' % (f.module.rel, f.qual)
    return '%s.%s' % (cls, method)


def at(exc):
    return '%s:%s' % (exc.site[1], exc.site[2]) if exc.site else '?'


__all__ = ['numeric_globals', 'symbolic_numbers', 'classifier_classes', 'instance', 'where',
           'at', 'Interp', 'AnchorMissing', 'Function', 'St', 'Exc', 'T']
