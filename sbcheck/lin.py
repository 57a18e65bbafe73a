"""A small domain of linear constraints (polyhedra, by Fourier-Motzkin).

A constraint is (poly, strict): the polynomial is <= 0, or < 0 if strict.
Non-linear monomials count as variables of their own.
"""
from fractions import Fraction
from . import terms as T


def normal(p, strict):
    """Scaled so that equal constraints are equal."""
    m = max((abs(c) for _m, c in p), default=None)
    if not m:
        return p, strict
    k = None
    for mm, c in p:
        if mm != ():
            k = abs(c)
            break
    k = k or m
    return tuple((mm, c / k) for mm, c in p), strict


MEMO = {}


def relevant(cs, p):
    """The constraints that share monomials with p, directly or by others."""
    seen = {m for m, _c in p if m != ()}
    rest = [(q, t, {m for m, _c in q if m != ()}) for q, t in cs]
    out = []
    while True:
        more = [x for x in rest if x[2] & seen]
        if not more:
            return out
        rest = [x for x in rest if not x[2] & seen]
        for q, t, ms in more:
            out.append((q, t))
            seen |= ms


def infeasible(cs, limit=60):
    key = frozenset(cs), limit
    r = MEMO.get(key)
    if r is None:
        if len(MEMO) > 20000:
            MEMO.clear()
        r = MEMO[key] = infeasible1(cs, limit)
    return r


def infeasible1(cs, limit=60):
    """Whether the constraints have no common solution (in the rationals).

    False may mean "not known".
    """
    cs = set(normal(p, s) for p, s in cs)
    # Two constraints that bound the same expression.
    least = {}
    for p, s in cs:
        q = tuple((m, c) for m, c in p if m != ())
        c = sum((c for m, c in p if m == ()), Fraction(0))
        if q:
            least.setdefault(q, []).append((c, s))
    for q, bounds in least.items():
        other = least.get(tuple((m, -c) for m, c in q))
        if other:
            for c, s in bounds:
                for d, t in other:
                    if c + d > 0 or (c + d == 0 and (s or t)):
                        return True
    # Equations are used to replace a variable.
    while True:
        eq = None
        for p, s in cs:
            if not s and any(m != () for m, _c in p) and \
                    (normal(tuple((m, -c) for m, c in p), s) in cs):
                eq = p
                break
        if eq is None:
            break
        m, c = min(((m, c) for m, c in eq if m != ()), key=repr)
        nxt = set()
        for p, s in cs:
            d = dict(p).get(m, 0)
            if d:
                p = T.padd(T.poly(dict(p)), T.poly({k: -v * d / c for k, v in eq}))
                if not p:
                    if s:
                        return True
                    continue
            nxt.add(normal(p, s))
        cs = nxt
    while True:
        todo = set()
        for p, s in cs:
            if all(m == () for m, _c in p):
                c = sum((c for _m, c in p), Fraction(0))
                if c > 0 or (c == 0 and s):
                    return True
            else:
                todo.add((p, s))
        if not todo:
            return False
        counts = {}
        for p, _s in todo:
            for m, c in p:
                if m != ():
                    pos, neg = counts.get(m, (0, 0))
                    counts[m] = (pos + (c > 0), neg + (c < 0))
        m = min(counts, key=lambda k: (counts[k][0] * counts[k][1], repr(k)))
        pos, neg, rest = [], [], set()
        for p, s in todo:
            c = dict(p).get(m, 0)
            if c > 0:
                pos.append((p, s, c))
            elif c < 0:
                neg.append((p, s, c))
            else:
                rest.add((p, s))
        for p, s, c in pos:
            for q, s2, d in neg:
                r = T.padd(T.poly({k: v / c for k, v in p}),
                           T.poly({k: v / -d for k, v in q}))
                rest.add(normal(r, s or s2))
        if len(rest) > limit:
            return False
        cs = rest


def neg(p, strict, integral):
    """The constraint that `p` <= 0 (or < 0) does not hold."""
    q = T.poly({m: -c for m, c in p})
    return tighten(q, not strict, integral)


def tighten(p, strict, integral):
    if strict and integral and all(c.denominator == 1 for _m, c in p):
        return T.padd(p, T.ONE), False
    return p, strict
