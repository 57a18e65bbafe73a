"""Client code to be interpreted together with the library.

A check writes down, as Python source, how the library is used and what is
looked at afterwards; the interpreter follows it on all paths like any other
module. The driver is analysed, never run.
"""
from .interp import Interp, Stop
from .state import St, Exc

NAME = 'sbdriver'


class Driver:
    def __init__(self, program, source, ip=None):
        self.p = program
        if NAME in program.modules:
            if program.driver_source != source:
                raise ValueError('one driver for each program')
        else:
            program.driver_source = source
            m = program.add_module(NAME, NAME + '.py', NAME + '.py', source.encode())
            for ci in program.classes.values():
                if ci.module is m:
                    ci.base_terms = [program.static_name(m, b) for b in ci.node.bases]
        self.ip = ip or Interp(program)

    def run(self, st, name, *args):
        """Yields (state, value or Exc) for a call of a function of the driver."""
        f = [f for f in self.p.functions.values()
             if f.cls is None and f.qual == name and f.module.name == NAME][0]
        self.ip.steps = 0
        done = False
        dropped = self.ip.dropped
        for out in self.ip.call(st, ('fn', f.fid, None), list(args), {}, None):
            done = True
            if self.ip.dropped > dropped:
                out[0].note('too many states of a loop')
            yield out
        if not done:
            raise Stop('no path through %s comes to an end' % name)

    def outcomes(self, name, *args):
        return list(self.run(St(), name, *args))

    def functions(self):
        return {f for f in self.ip.visited['functions'] if not f.startswith(NAME)}


def canon(st, *roots):
    """The part of the heap that can be reached from the terms, in a form that
    is the same for states that differ only in the numbers of objects."""
    names = {}
    out = []

    def term(t):
        if isinstance(t, tuple):
            if len(t) == 2 and t[0] == 'ref':
                return obj(t)
            return tuple(term(x) for x in t)
        if isinstance(t, dict):
            return tuple((k, term(t[k])) for k in sorted(t, key=repr))
        if isinstance(t, frozenset):
            return tuple(sorted((term(x) for x in t), key=repr))
        return t

    def obj(r):
        if r not in names:
            names[r] = ('#', len(names))
            o = st.heap.get(r)
            i = len(out)
            out.append(None)
            out[i] = None if o is None else (o.kind, term(o.d))
        return names[r]
    head = tuple(term(t) for t in roots)
    return head, tuple(out)
