"""Abstract values ("terms") of the abstract interpreter.

A term is a hashable tuple. The first item is its tag:

  ('c', typename, value)        a Python constant
  ('s', name)                   a symbol: an unknown value, the same wherever
                                the symbol occurs
  ('app', op, arg, ...)         a pure operation on terms, not interpreted
  ('rat', num, den)             a rational function: polynomials over terms
  ('cat', part, ...)            a string put together from parts; each part is
                                a constant string or ('fmt', spec, term)
  ('tup', item, ...)            a tuple
  ('ref', n)                    the object number n of the heap
  ('fn', ...), ('cls', name), ('mod', name), ('ext', dotted) ...  callables etc.
  ('unk', why)                  a value about which nothing is known because
                                the code is beyond the interpreter

Equality of terms is structural, so equal values computed in different ways
(x + 1 and 1 + x, an f-string and a format call) have the same term as far as
the normal forms below go.
"""
from fractions import Fraction


def C(v):
    return ('c', type(v).__name__, v)


NONE = C(None)
TRUE = C(True)
FALSE = C(False)


def is_const(t):
    return t[0] == 'c'


def S(name):
    return ('s', name)


def app(op, *args):
    return ('app', op) + args


def unk(why):
    return ('unk', why)


def is_unk(t):
    return t[0] == 'unk'


def has_unk(t):
    return mentions(t, is_unk)


def mentions(t, pred):
    """Whether `pred` holds for `t` or a term inside it."""
    if not isinstance(t, tuple):
        return False
    if t and isinstance(t[0], str) and pred(t):
        return True
    for x in t:
        if isinstance(x, tuple) and mentions(x, pred):
            return True
    return False


def subst(t, old, new):
    if t == old:
        return new
    if not isinstance(t, tuple):
        return t
    if t and t[0] == 'rat':
        return rat_subst(t, old, new)
    return tuple(subst(x, old, new) if isinstance(x, tuple) else x for x in t)


# --- numbers: rational functions over terms --------------------------------
#
# A polynomial is a tuple of (monomial, coefficient), sorted; a monomial is a
# sorted tuple of (term, exponent). The empty monomial is the constant.

def _key(x):
    return repr(x)


def poly(d):
    return tuple(sorted(((m, c) for m, c in d.items() if c != 0), key=_key))


def poly_const(c):
    return poly({(): Fraction(c)})


def poly_var(t):
    return poly({((t, 1),): Fraction(1)})


def padd(p, q, k=1):
    d = dict(p)
    for m, c in q:
        d[m] = d.get(m, 0) + k * c
    return poly(d)


def mono_mul(a, b):
    d = dict(a)
    for t, e in b:
        d[t] = d.get(t, 0) + e
    return tuple(sorted(((t, e) for t, e in d.items() if e), key=_key))


def pmul(p, q):
    d = {}
    for m, c in p:
        for n, e in q:
            k = mono_mul(m, n)
            d[k] = d.get(k, 0) + c * e
    return poly(d)


ONE = poly_const(1)
ZERO = poly({})


def mkrat(n, d=ONE):
    """The normal form of n/d (as far as common monomials and contents go)."""
    if n == ZERO:
        return C(0)
    if d == ZERO:
        return unk('division by zero')
    # Cancel the common monomial.
    common = None
    for m, c in n + d:
        mm = dict(m)
        if common is None:
            common = mm
        else:
            common = {t: min(e, mm[t]) for t, e in common.items() if t in mm}
    if common:
        inv = tuple((t, -e) for t, e in common.items())
        n = poly({mono_mul(m, inv): c for m, c in n})
        d = poly({mono_mul(m, inv): c for m, c in d})
    # Make the first coefficient of the denominator one.
    k = d[0][1]
    n = poly({m: c / k for m, c in n})
    d = poly({m: c / k for m, c in d})
    if d == n:
        return C(1)
    if d == ONE:
        if len(n) == 1:
            m, c = n[0]
            if m == ():
                if c.denominator == 1:
                    return C(int(c))
                return ('c', 'frac', c)
            if c == 1 and len(m) == 1 and m[0][1] == 1:
                return m[0][0]
    return ('rat', n, d)


def is_number_const(t):
    return t[0] == 'c' and t[1] in ('int', 'float', 'bool', 'frac')


def const_fraction(t):
    v = t[2]
    if isinstance(v, float):
        if v != v or v in (float('inf'), float('-inf')):
            return None
        return Fraction(repr(v))
    return Fraction(v)


def to_rat(t):
    """(num, den) of a term."""
    if t[0] == 'rat':
        return t[1], t[2]
    if is_number_const(t):
        f = const_fraction(t)
        if f is None:
            return poly_var(t), ONE
        return poly_const(f), ONE
    return poly_var(t), ONE


def radd(a, b, k=1):
    (n, d), (m, e) = to_rat(a), to_rat(b)
    if d == e:
        return mkrat(padd(n, m, k), d)
    return mkrat(padd(pmul(n, e), pmul(m, d), k), pmul(d, e))


def rsub(a, b):
    return radd(a, b, -1)


def rmul(a, b):
    (n, d), (m, e) = to_rat(a), to_rat(b)
    return mkrat(pmul(n, m), pmul(d, e))


def rdiv(a, b):
    (n, d), (m, e) = to_rat(a), to_rat(b)
    if m == ZERO:
        return unk('division by zero')
    return mkrat(pmul(n, e), pmul(d, m))


def rneg(a):
    return rsub(C(0), a)


def req(a, b):
    """Whether a and b are equal as rational functions."""
    if a == b:
        return True
    (n, d), (m, e) = to_rat(a), to_rat(b)
    return padd(pmul(n, e), pmul(m, d), -1) == ZERO


def rat_subst(t, old, new):
    """Replaces the atom `old` by the term `new` in a rational function."""
    def sub_poly(p):
        r = C(0)
        for m, c in p:
            x = ('c', 'frac', c) if c.denominator != 1 else C(int(c))
            for a, e in m:
                a2 = subst(a, old, new)
                for _ in range(abs(e)):
                    x = rmul(x, a2) if e > 0 else rdiv(x, a2)
            r = radd(r, x)
        return r
    return rdiv(sub_poly(t[1]), sub_poly(t[2]))


def atoms(t):
    """The terms a rational function is made from."""
    n, d = to_rat(t)
    s = set()
    for m, _c in n + d:
        for a, _e in m:
            s.add(a)
    return s


# --- strings ------------------------------------------------------------------

def cat(parts):
    """The concatenation of parts; a part is a term or ('fmt', spec, term)."""
    out = []
    kind = None
    for p in parts:
        if p[0] == 'cat':
            sub = p[1:]
        else:
            sub = (p,)
        for q in sub:
            if q[0] == 'fmt' and q[1] == '' and q[2][0] == 'c':
                q = C(format(q[2][2]))
            elif q[0] == 'fmt' and q[1] == '' and q[2][0] == 'cat':
                for r in q[2][1:]:
                    out.append(r)
                continue
            if q[0] == 'c' and q[1] in ('str', 'bytes'):
                if len(q[2]) == 0:
                    kind = kind or q[1]
                    continue
                if out and out[-1][0] == 'c' and out[-1][1] == q[1]:
                    out[-1] = C(out[-1][2] + q[2])
                    continue
            out.append(q)
    if not out:
        return C(b'' if kind == 'bytes' else '')
    if len(out) == 1:
        if out[0][0] == 'c':
            return out[0]
        if out[0][0] != 'fmt':
            return out[0]
    return ('cat',) + tuple(out)


def const_prefix(t):
    """The constant string a string term starts with."""
    if t[0] == 'c' and t[1] in ('str', 'bytes'):
        return t[2]
    if t[0] == 'cat' and t[1][0] == 'c':
        return t[1][2]
    return ''


def show(t):
    """A readable form of a term, for reports."""
    if not isinstance(t, tuple) or not t:
        return repr(t)
    k = t[0]
    if k == 'c':
        return str(t[2]) if t[1] == 'frac' else repr(t[2])
    if k == 's':
        return t[1]
    if k == 'app':
        return '%s(%s)' % (t[1], ', '.join(show(x) if isinstance(x, tuple)
                                           else str(x) for x in t[2:]))
    if k == 'tup':
        return '(%s)' % ', '.join(show(x) for x in t[1:])
    if k == 'enum':
        return '%s.%s' % (t[1].split(':')[-1], t[2])
    if k == 'cat':
        return ' ++ '.join(show(x) for x in t[1:])
    if k == 'fmt':
        return 'format(%s%s)' % (show(t[2]), ', %r' % t[1] if t[1] else '')
    if k == 'rat':
        def sp(p):
            out = []
            for m, c in p:
                f = ['%s%s' % (show(a), '' if e == 1 else '**%d' % e)
                     for a, e in m]
                if c != 1 or not f:
                    f.insert(0, str(c))
                out.append('*'.join(f))
            return ' + '.join(out)
        return sp(t[1]) if t[2] == ONE else '(%s)/(%s)' % (sp(t[1]), sp(t[2]))
    if k == 'ref':
        return '<object %s>' % t[1]
    if k in ('cls', 'ext', 'mod'):
        return str(t[1])
    if k == 'unk':
        return '<unknown: %s>' % (t[1],)
    return '<%s>' % ' '.join(str(x) for x in t[:2])
