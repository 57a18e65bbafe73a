"""Abstract states: heap, facts, linear constraints, events."""
import ast

from . import terms as T
from . import lin


#: Some number (see Interp.opaque).
NUM = ('app', 'num')

#: Some integer kept for another element than the witness.
SOME = ('s', 'n_o~')


SHAPES = {}

#: What may be in a collection besides what is known to be.
MAYBE = {'list': 'others', 'dict': 'ovals'}


def skeleton(t, refs, abstract):
    if isinstance(t, tuple):
        if len(t) == 2 and t[0] == 'ref':
            refs.append(t)
            return '@'
        if abstract and t and (t[0] in ('rat', 'app', 'cat')
                               or t[0] == 'c' and t[1] in ('int', 'float', 'frac')):
            return '#'
        return tuple([skeleton(x, refs, abstract) for x in t])
    if isinstance(t, str):
        return t
    if isinstance(t, dict):
        return tuple([(skeleton(k, refs, abstract), skeleton(t[k], refs, abstract))
                      for k in sorted(t, key=repr)])
    if isinstance(t, frozenset):
        return ('fs',) + tuple([skeleton(x, refs, abstract) for x in sorted(t, key=repr)])
    if callable(t) or isinstance(t, ast.AST):
        return id(t)
    return t


def elem_in(t):
    """2: elements of this round other than the witness occur, 1: only those
    of earlier rounds, 0: none."""
    if isinstance(t, tuple):
        if len(t) == 2 and t[0] == 's':
            if not isinstance(t[1], str):
                return 0
            return 2 if 'o:' in t[1] else 1 if 'o~' in t[1] else 0
        r = 0
        for x in t:
            if not isinstance(x, str):
                n = elem_in(x)
                if n > r:
                    if n == 2:
                        return 2
                    r = n
        return r
    if isinstance(t, dict):
        return max([0] + [max(elem_in(k), elem_in(v)) for k, v in t.items()])
    if isinstance(t, frozenset):
        return max([0] + [elem_in(x) for x in t])
    return 0


def unpickle(kind, d):
    return Obj(kind, **d)


class Obj:
    """A heap object. Treated as immutable: changes make a new Obj.

    kinds and their data:
      env    vars {name: term}, parent, fid
      inst   cls, attrs {name: term}, sym (name, if unknown attributes exist)
      dict   items ((key, value|None), ...), base (symbol name or None),
             others (bool: may have further keys that are loop elements),
             flavor ('dict', 'shelf', ...)
      set    items ((elem, bool), ...), base, others
      list   items (...), exact;  or summary: wit ((term, count), ...),
             others (frozenset of templates), order, exact=False
      stream name, oneshot, rem, done
      iter   pending ((term, count), ...), others, src
      gen    fid, env | comp node, env
      ext    type, data {}
    """
    __slots__ = ('kind', 'd', 'shape', 'ashape', 'jshape', 'elems')

    def __init__(self, kind, **d):
        self.kind = kind
        self.d = d
        self.shape = self.ashape = self.jshape = self.elems = None

    def __reduce__(self):
        return (unpickle, (self.kind, self.d))

    def with_(self, **kw):
        d = dict(self.d)
        d.update(kw)
        o = Obj.__new__(Obj)
        o.kind = self.kind
        o.d = d
        o.shape = o.ashape = o.jshape = o.elems = None
        return o

    def skeleton(self):
        """(number of the structure, the references in it in order)"""
        if self.shape is None:
            refs = []
            d = self.d
            if self.kind in ('dict', 'set') and len(d['items']) > 1:
                d = dict(d)
                d['items'] = tuple(sorted(d['items'], key=lambda x: repr(x[0])))
            sk = (self.kind, skeleton(d, refs, False))
            self.shape = (SHAPES.setdefault(sk, len(SHAPES)), tuple(refs))
        return self.shape

    def askeleton(self):
        """The same without the numbers."""
        if self.ashape is None:
            refs = []
            sk = ('a', self.kind, skeleton(self.d, refs, True))
            self.ashape = (SHAPES.setdefault(sk, len(SHAPES)), tuple(refs))
        return self.ashape

    def jskeleton(self):
        """The same without what may be in a list besides the witness."""
        fld = MAYBE.get(self.kind)
        if fld is None or not self.d.get(fld):
            return self.skeleton()
        if self.jshape is None:
            refs = []
            d = dict(self.d)
            if self.kind == 'list':
                d[fld] = frozenset()
            else:
                del d[fld]
            sk = (self.kind, skeleton(d, refs, False))
            self.jshape = (SHAPES.setdefault(sk, len(SHAPES)), tuple(refs))
        return self.jshape

    def has_elems(self):
        """Whether other elements than the witness occur in it (see elem_in)."""
        if self.elems is None:
            self.elems = elem_in(self.d)
        return self.elems

    def __getattr__(self, name):
        try:
            return self.d[name]
        except KeyError:
            raise AttributeError(name)

    def __repr__(self):
        return 'Obj(%s, %r)' % (self.kind, self.d)


class Exc:
    __slots__ = ('name', 'payload', 'site')

    def __init__(self, name, payload=None, site=None):
        self.name = name
        self.payload = payload
        self.site = site

    def __repr__(self):
        return 'Exc(%s)' % self.name

    def __eq__(self, other):
        return isinstance(other, Exc) and (self.name, self.payload, self.site) == \
            (other.name, other.payload, other.site)

    def __hash__(self):
        return hash((self.name, self.payload, self.site))


class St:
    __slots__ = ('heap', 'facts', 'lins', 'events', 'notes', 'stack', 'glob')
    counter = 0

    def __init__(self):
        self.heap = {}
        self.facts = {}
        self.lins = ()
        self.events = ()
        self.notes = ()
        self.stack = ()
        self.glob = {}

    def copy(self):
        s = St.__new__(St)
        s.heap = dict(self.heap)
        s.facts = dict(self.facts)
        s.lins = self.lins
        s.events = self.events
        s.notes = self.notes
        s.stack = self.stack
        s.glob = dict(self.glob)
        return s

    def new(self, kind, **d):
        St.counter += 1
        r = ('ref', St.counter)
        self.heap[r] = Obj(kind, **d)
        return r

    def obj(self, ref):
        return self.heap[ref]

    def upd(self, ref, **kw):
        self.heap[ref] = self.heap[ref].with_(**kw)

    def note(self, why):
        if why not in self.notes:
            self.notes = self.notes + (why,)

    #: The kinds of events to record; None for all.
    only = None

    def event(self, *e):
        if St.only is not None and e[0] not in St.only:
            return
        self.events = self.events + (e,)

    def setattr(self, ref, name, val):
        o = self.heap[ref]
        a = dict(o.attrs)
        a[name] = val
        self.heap[ref] = o.with_(attrs=a)

    def setvar(self, env, name, val):
        o = self.heap[env]
        v = dict(o.vars)
        v[name] = val
        self.heap[env] = o.with_(vars=v)


STR_OPS = {'lower', 'upper', 'strip', 'lstrip', 'rstrip', 'replace', 'decode',
           'join', 'title', 'capitalize', 'translate', 'format', 'str',
           'basename', 'pathjoin', 'dirname', 'abspath', 'repr', 'expanduser',
           'realpath', 'normpath'}


class Logic:
    """Deciding and assuming atoms in a state."""

    def __init__(self):
        self.sorts = {}      # symbol name -> sort
        self.forgetful = False   # do not remember conditions on numbers

    def sort(self, t, st=None):
        k = t[0]
        if k == 'c':
            return {'NoneType': 'none', 'frac': 'float'}.get(t[1], t[1])
        if k == 's':
            s = self.sorts.get(t[1])
            if s:
                return s
            if '@' in t[1]:
                return t[1].rsplit('@', 1)[1]
        elif k == 'rat':
            at = T.atoms(t)
            if t[2] == T.ONE and all(c.denominator == 1 for _m, c in t[1]) \
                    and all(self.sort(a, st) in ('int', 'bool') for a in at):
                return 'int'
            return 'float'
        elif k == 'cat':
            for p in t[1:]:
                if p[0] == 'c':
                    return p[1]
            p = t[1]
            if p[0] == 'fmt':
                s = self.sort(p[2], st)
                if s in ('str', 'bytes') and len(t) > 2:
                    return s
                if len(t) == 2:
                    return 'str'
            return None
        elif k == 'tup':
            return 'tuple'
        elif k == 'enum':
            return 'enum'
        elif k == 'app':
            op = t[1]
            if op in ('len', 'int', 'count', 'ord', 'round', 'index', 'find', 'id'):
                return 'int'
            if op in ('encode', 'pack', 'memory', 'overwritten'):
                return 'bytes'
            if op == 'matched':
                return t[2][2]
            if op == 'text of':
                return 'str'
            if op in ('unpack', 'start', 'end'):
                return 'int'
            if op in ('lower', 'upper', 'strip', 'lstrip', 'rstrip', 'replace',
                      'translate', 'slice', 'repeat', 'before', 'after') and len(t) > 2:
                s = self.sort(t[2], st)
                if s in ('str', 'bytes'):
                    return s
            if op in STR_OPS:
                return 'str' if op in ('decode', 'format', 'str', 'repr') else None
            if op in ('log', 'exp', 'float', 'log10', 'log2', 'sqrt', 'time',
                      'chi2Q', 'num', 'frexp_m', 'abs'):
                return 'float'
            if op in ('cmp', 'not', 'contains', 'startswith', 'endswith',
                      'exists', 'isfile', 'isdir', 'fnmatch'):
                return 'bool'
            if op == 'attrsort':
                return t[2]
            if op == 'Header':
                return 'header'
            if op in ('Header.encode', 'rendered', 'reescape'):
                return 'str'
            if op == 'resub' and len(t) > 4:
                return self.sort(t[4], st)
        elif k in ('fn', 'cls', 'ext', 'bm', 'bbm', 'mod', 'bext'):
            return k
        elif k == 'ref' and st is not None and t in st.heap:
            o = st.heap[t]
            if o.kind == 'inst':
                return ('inst', o.cls)
            return o.kind
        if st is not None:
            for typ in ('str', 'bytes', 'int', 'float', 'tuple', 'list'):
                if st.facts.get(('isinst', t, typ)):
                    return typ
        return None

    # -- comparison ----------------------------------------------------------
    def eq(self, a, b, st):
        """True, False or None: whether a == b."""
        if a == b:
            return None if T.has_unk(a) else True
        if a[0] == 'c' and b[0] == 'c':
            return a[2] == b[2]
        if a[0] == 'enum' and b[0] == 'enum':
            return False
        if a[0] == 'tup' and b[0] == 'tup':
            if len(a) != len(b):
                return False
            rs = [self.eq(x, y, st) for x, y in zip(a[1:], b[1:])]
            if False in rs:
                return False
            return True if all(rs) else None
        if T.is_unk(a) or T.is_unk(b):
            return None
        f = st.facts.get(('eq',) + tuple(sorted((a, b), key=repr)))
        if f is not None:
            return f
        for x, y in ((a, b), (b, a)):
            if x[0] == 'c' and x[1] == 'str' and y[0] in ('s', 'app'):
                for k, v in st.facts.items():
                    if v is True and k[0] == 'eq' and y in k:
                        z = k[2] if k[1] == y else k[1]
                        if z[0] == 'c' and z != x or st.facts.get(
                                ('eq',) + tuple(sorted((z, x), key=repr))) is False:
                            return False
        sa, sb = self.sort(a, st), self.sort(b, st)
        num = ('int', 'float', 'bool')
        if sa and sb and sa != sb and not (sa in num and sb in num) and \
                'header' not in (sa, sb):
            return False
        if sa in num and sb in num:
            d = T.rsub(a, b)
            if d[0] == 'c':
                return d[2] == 0
            r1 = self.le(a, b, st)
            r2 = self.le(b, a, st)
            if r1 is False or r2 is False:
                return False
            if r1 and r2:
                return True
            return None
        if a[0] == 'ref' and b[0] == 'ref':
            oa, ob = st.heap.get(a), st.heap.get(b)
            if oa is not None and ob is not None and oa.kind == 'inst' and ob.kind == 'inst':
                return False
            return None
        if self.is_elem(a) and self.is_elem(b):
            # the witness differs from the other elements of the loops
            if (a == ('s', 'w')) != (b == ('s', 'w')):
                return False
            return None
        if a[0] == 'app' and b[0] == 'app' and a[1] == b[1] and \
                a[1] in ('decode', 'encode') and a[3:] == b[3:]:
            return self.eq(a[2], b[2], st)
        for x, y in ((a, b), (b, a)):
            if x[0] == 'app' and x[1] in ('decode', 'encode') and y[0] == 'c' \
                    and len(x) > 3 and x[3][0] == 'c':
                try:
                    z = (y[2].decode if x[1] == 'encode' else y[2].encode)(x[3][2])
                except (UnicodeError, AttributeError, LookupError):
                    break
                return self.eq(x[2], T.C(z), st)
        if a[0] in ('cat', 'c') and b[0] in ('cat', 'c'):
            pa, pb = T.const_prefix(a), T.const_prefix(b)
            if type(pa) is type(pb):
                n = min(len(pa), len(pb))
                if pa[:n] != pb[:n]:
                    return False
                if a[0] == 'c' and len(pa) < len(pb) or b[0] == 'c' and len(pb) < len(pa):
                    return False
            if a[0] == 'cat' and b[0] == 'cat' and len(a) == len(b) == 3 \
                    and a[1] == b[1] and a[2][0] == 'fmt' == b[2][0] and a[2][1] == b[2][1]:
                return self.eq(a[2][2], b[2][2], st)
        for x, y in ((a, b), (b, a)):
            if x[0] == 'c' and isinstance(x[2], (str, bytes)):
                for k, v in st.facts.items():
                    if v is True and k[0] == 'bool' and k[1][0] == 'app' \
                            and k[1][1] == 'startswith' and k[1][2] == y \
                            and k[1][3][0] == 'c' and type(k[1][3][2]) is type(x[2]) \
                            and not x[2].startswith(k[1][3][2]):
                        return False
        # A string with a known prefix against a term known not to have it.
        for x, y in ((a, b), (b, a)):
            p = T.const_prefix(x)
            if p:
                for k, v in st.facts.items():
                    if v is False and k[0] == 'bool' and k[1][0] == 'app' \
                            and k[1][1] == 'startswith' and k[1][2] == y \
                            and k[1][3][0] == 'c' and p.startswith(k[1][3][2]):
                        return False
        return None

    def is_elem(self, t):
        return t[0] == 's' and (t[1] == 'w' or t[1].startswith('o:')
                                or t[1].startswith('o~'))

    def integral(self, t, st):
        return self.sort(t, st) in ('int', 'bool')

    def constraint(self, a, b, st, strict=False):
        """The constraint a <= b (a < b)."""
        d = T.rsub(a, b)
        n, den = T.to_rat(d)
        if den != T.ONE:
            return None
        at = T.atoms(d)
        integral = all(self.sort(x, st) in ('int', 'bool') for x in at)
        p, s = lin.tighten(n, strict, integral)
        return p, s, integral

    def le(self, a, b, st, strict=False):
        """True/False/None: a <= b (or a < b)."""
        if T.has_unk(a) or T.has_unk(b):
            return None
        c = self.constraint(a, b, st, strict)
        if c is None:
            return None
        p, s, integral = c
        base = lin.relevant(st.lins, p)
        if lin.infeasible(base + [(p, s)]):
            return False
        if lin.infeasible(base + [lin.neg(p, s, integral)]):
            return True
        return None

    def positive(self, t, st):
        """Whether the number is certainly greater than zero."""
        if self.le(t, T.C(0), st) is False:
            return True
        n, d = T.to_rat(t)
        return self.pos_poly(n, st.copy(), 3) and self.pos_poly(d, st.copy(), 3)

    def pos_poly(self, p, st, depth):
        if not p or any(c < 0 for _m, c in p):
            return False
        ats = []
        for m, _c in p:
            for a, _e in m:
                if a not in ats:
                    ats.append(a)
        if any(self.le(T.C(0), a, st) is not True for a in ats):
            return False
        for m, _c in p:
            if all(self.le(a, T.C(0), st) is False for a, _e in m):
                return True
        if depth == 0:
            return False
        for a in ats:
            if self.le(a, T.C(0), st) is None:
                zero = self.assume_le(a, T.C(0), True, st.copy())
                if zero is not None:
                    q = tuple((m, c) for m, c in p if all(x != a for x, _e in m))
                    if not self.pos_poly(q, zero, depth - 1):
                        return False
                more = self.assume_le(a, T.C(0), False, st.copy())
                return more is None or self.pos_poly(p, more, depth - 1)
        return False

    def assume_le(self, a, b, val, st, strict=False):
        """Adds a <= b (or its negation); None if contradictory."""
        r = self.le(a, b, st, strict)
        if r is not None:
            return st if r == val else None
        if T.has_unk(a) or T.has_unk(b):
            st.note('comparison of an unknown value')
            return st
        c = self.constraint(a, b, st, strict)
        if c is None:
            st.facts[('le', strict, a, b)] = val
            return st
        p, s, integral = c
        st.lins = st.lins + (((p, s) if val else lin.neg(p, s, integral)),)
        return st

    def some(self, atom):
        return any(SOME == x or isinstance(x, tuple) and x and x[0] == 'rat'
                   and SOME in T.atoms(x) for x in atom)

    # -- atoms ----------------------------------------------------------------
    def decide(self, atom, st):
        k = atom[0]
        if k in ('eq', 'le') and (NUM in atom or self.some(atom)):
            return None
        if k == 'eq':
            return self.eq(atom[1], atom[2], st)
        if k == 'le':
            return self.le(atom[2], atom[3], st, atom[1])
        if k == 'is':
            a, b = atom[1], atom[2]
            if a == b:
                return True
            if b == T.NONE or a == T.NONE:
                x = a if b == T.NONE else b
                if x[0] in ('c', 'tup', 'ref', 'cat', 'rat', 'fn', 'cls', 'bm', 'ext', 'mod',
                            'enum', 'exc', 'excinst', 'ntcls', 'partial', 'bbm') or \
                        x[0] == 'app' and x[1] in ('match', 'exctype', 'traceback'):
                    return False
                if self.sort(x, st) is not None:
                    return False
            elif a[0] == 'c' and b[0] == 'c' or a[0] == 'enum' and b[0] == 'enum':
                return False
            elif all(x[0] == 'cls' or x[0] == 'ext' and (
                    x[1].startswith('builtins.') or x[1] == 'email.header.Header')
                     for x in (a, b)):
                return False
            elif a[0] == 'ref' and b[0] == 'ref':
                return False
            elif (a[0] == 'c') != (b[0] == 'c') and (a[0] == 'ref' or b[0] == 'ref'):
                return False
            if 'tup' in (a[0], b[0]) and self.eq(a, b, st) is False:
                return False
            return st.facts.get(('is',) + tuple(sorted((a, b), key=repr)))
        if k == 'isinst':
            return self.isinst(atom[1], atom[2], st)
        if k == 'bool':
            t = atom[1]
            if t in (T.TRUE, T.FALSE):
                return t == T.TRUE
            if t[0] == 'app' and t[1] == 'match':
                return True
            return st.facts.get(atom)
        return st.facts.get(atom)

    def isinst(self, t, typ, st):
        s = self.sort(t, st)
        if s is not None:
            if isinstance(s, tuple) and s[0] == 'inst':
                return None if typ[0] == 'cls' else False
            if isinstance(typ, str):
                if typ == 'int' and s == 'bool':
                    return True
                return s == typ
            return False
        if typ in ('str', 'bytes', 'int', 'float', 'list', 'tuple', 'dict', 'set'):
            for u in ('str', 'bytes', 'int', 'float', 'list', 'tuple', 'dict', 'set'):
                if u != typ and st.facts.get(('isinst', t, u)):
                    return False
        if st.facts.get(('is',) + tuple(sorted((t, T.NONE), key=repr))):
            return False
        return st.facts.get(('isinst', t, typ))

    def assume(self, atom, val, st):
        """The state with the atom assumed (changed in place), or None."""
        r = self.decide(atom, st)
        if r is not None:
            return st if r == val else None
        k = atom[0]
        if k in ('eq', 'le') and (NUM in atom or self.some(atom) or self.forgetful and (
                k == 'le' or self.sort(atom[1], st) in ('int', 'float', 'bool'))):
            return st
        if k == 'eq':
            a, b = atom[1], atom[2]
            if T.has_unk(a) or T.has_unk(b):
                st.note('comparison of an unknown value')
                return st
            num = ('int', 'float', 'bool')
            if self.sort(a, st) in num and self.sort(b, st) in num:
                if val:
                    st2 = self.assume_le(a, b, True, st)
                    st2 = st2 and self.assume_le(b, a, True, st2)
                    if st2 is not None:
                        st2.facts[('eq',) + tuple(sorted((a, b), key=repr))] = True
                    return st2
                if self.le(a, b, st):
                    st = self.assume_le(a, b, True, st, True)
                elif self.le(b, a, st):
                    st = self.assume_le(b, a, True, st, True)
                if st is not None:
                    st.facts[('eq',) + tuple(sorted((a, b), key=repr))] = False
                return st
            st.facts[('eq',) + tuple(sorted((a, b), key=repr))] = val
            return st
        if k == 'le':
            return self.assume_le(atom[2], atom[3], val, st, atom[1])
        if k == 'is':
            if T.has_unk(atom[1]) or T.has_unk(atom[2]):
                st.note('identity of an unknown value')
                return st
            st.facts[('is',) + tuple(sorted(atom[1:], key=repr))] = val
            return st
        if T.has_unk(atom):
            st.note('condition on an unknown value: %s' % self.why(atom))
            return st
        st.facts[atom] = val
        return st

    def why(self, t):
        if isinstance(t, tuple):
            if t and t[0] == 'unk':
                return t[1]
            for x in t:
                r = self.why(x)
                if r:
                    return r
        return None
