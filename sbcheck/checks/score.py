"""C06: how the clues of a message are combined to its score."""
import itertools
import math
from fractions import Fraction

from .. import terms as T
from ..setup import classifier_classes, where, at
from ..state import St, Exc
from .probability import World

# numbers of clues, beyond the default maximum of 150
DEGREES = list(range(1, 161)) + [200, 300]
TINY = T.C(1e-290)


def collect(t):
    """The number as (constant part, {atom: coefficient}) if it is linear."""
    n, d = T.to_rat(t)
    if d != T.ONE:
        return None
    out = {}
    const = Fraction(0)
    for m, c in n:
        if not m:
            const += c
        elif len(m) == 1 and m[0][1] == 1:
            out[m[0][0]] = out.get(m[0][0], 0) + c
        else:
            return None
    return const, out


def split_frexp(a):
    """(arguments of frexp whose mantissas divide the number, the rest)"""
    ys = []
    while True:
        n, d = T.to_rat(a)
        found = None
        if n:
            for x, _e in n[0][0]:
                if x[0] == 'app' and x[1] == 'frexp_m' and all(
                        any(y == x for y, _e2 in m) for m, _c in n):
                    found = x
                    break
        if found is None:
            return ys, a
        ys.append(found[2])
        a = T.rdiv(a, found)


def log_sum(t):
    """The number as (coefficient, product) such that it is
    coefficient * ln(product); None if it cannot be written so."""
    lin = collect(t)
    if lin is None or abs(lin[0]) > 1e-12:
        return None
    logs = []            # (coefficient, argument)
    exps = {}            # argument of frexp -> coefficient of its exponent * ln 2
    todo = []
    for a, c in lin[1].items():
        if a[0] == 'app' and a[1] == 'log':
            todo.append((c, a[2]))
        elif a[0] == 'app' and a[1] == 'frexp_e':
            r = Fraction(c / Fraction(math.log(2))).limit_denominator(1000)
            if abs(float(c) - float(r) * math.log(2)) > 1e-9:
                return None
            exps[a[2]] = exps.get(a[2], 0) + r
        else:
            return None
    while todo:
        c, a = todo.pop()
        ys, rest = split_frexp(a)
        for y in ys:
            # ln(m) = ln(y) - e * ln 2
            exps[y] = exps.get(y, 0) - c
            todo.append((c, y))
        if rest != T.C(1) and T.rsub(rest, T.C(1)) != T.C(0):
            logs.append((c, rest))
    if any(exps.values()):
        return None
    if not logs:
        return Fraction(0), T.C(1)
    c0 = logs[0][0]
    prod = T.C(1)
    for c, a in logs:
        q = c / c0
        if q.denominator != 1 or q < 0:
            return None
        for _ in range(int(q)):
            prod = T.rmul(prod, a)
    return c0, prod


def tails(t):
    """The number as 1/2 + sum of coefficient * tail probability:
    {(sign): (x2, v)}; None if it has another form."""
    lin = collect(t)
    if lin is None:
        return None
    const, atoms = lin
    out = {}
    for a, c in atoms.items():
        if a[0] != 'app' or a[1] != 'chi2Q' or c in out or len(a) != 4:
            return None
        out[c] = (a[2], a[3])
    return const, out


def arguments(t):
    """All arguments of logarithms in the term."""
    out = []

    def go(x):
        if isinstance(x, tuple):
            if len(x) == 3 and x[0] == 'app' and x[1] == 'log':
                out.append(x[2])
            for y in x:
                go(y)
    go(t)
    return out


def factors(a):
    n, _d = T.to_rat(a)
    return max((sum(e for _x, e in m) for m, _c in n), default=0)


def check_C06(ctx):
    ctx.explanation = (
        'Abstract interpretation of spamprob() of every classifier class on messages of 0 to 3 '
        'tokens (4 in the thorough tier) whose probabilities are symbols, over all branches for '
        'all tokens; the returned term is brought into a normal form in which ln of products, '
        'mantissas and exponents of frexp are sums, and compared with the documented formula. '
        'chi2Q is interpreted for up to 600 degrees of freedom with a symbolic argument and '
        'compared with its series. Nothing is run.')
    ctx.assumptions += [
        'arithmetic on floats is taken as arithmetic on reals',
        'the loop over the clues does the same for each clue: the states before the last of the '
        'clues examined are arbitrary products and exponents']
    ctx.rule('score', 'the score is (S - H + 1)/2 of the clues used, on every path')
    ctx.rule('no-clue', 'without clues the score is 0.5')
    ctx.rule('underflow', 'a product of probabilities is scaled before it can underflow')
    ctx.rule('tail', 'chi2Q(x, 2n) is min(1, exp(-x/2) * sum of (x/2)^i/i! for i < n)')
    ctx.rule('odd', 'an odd number of degrees of freedom is refused')
    most = 4 if ctx.thorough else 3
    classes = classifier_classes(ctx.p)
    base = classes[0]
    tasks = [('tail', None, n) for n in DEGREES]
    for cls in classes:
        same = ctx.p.find_method(cls, 'spamprob') is ctx.p.find_method(base, 'spamprob')
        for n in range((most if cls == base or not same else 1), -1, -1):
            for ev in (False, True):
                if n == most and (ev or cls != base) and not ctx.thorough:
                    continue
                tasks.append((cls, ev, n))
    tasks.sort(key=lambda t: -t[2])
    ctx.parallel(tasks, one)


def one(ctx, task):
    if task[0] == 'tail':
        tail(ctx, task[2])
    else:
        score(ctx, *task)
    St.only = None


def tail(ctx, n):
    w = World(ctx, ctx.p.cls('Classifier').name)
    ip = w.ip
    f = ctx.p.func('chi2Q')
    loc = f.where()
    del ip.call_override[f.fid]
    x = T.S('x')
    ip.sorts['x'] = 'float'
    st = ip.assume_le(T.C(0), x, True, St())
    m = T.rdiv(x, T.C(2))
    expected = T.C(0)
    term = T.app('exp', T.rsub(T.C(0), m))
    for i in range(n):
        expected = T.radd(expected, term)
        term = T.rdiv(T.rmul(term, m), T.C(i + 1))
    for s, v in ip.call(st.copy(), ('fn', f.fid, None), [x, T.C(2 * n)], {}, None):
        ctx.count('paths')
        if isinstance(v, Exc):
            if s.notes:
                ctx.undecided('tail', loc, s.notes)
            else:
                ctx.violation('tail', loc, '%s is raised' % v.name)
            continue
        d = T.rsub(v, expected)
        if d == T.C(0):
            if ip.le(expected, T.C(1), s) is True:
                ctx.holds('tail')
            elif not s.notes:
                ctx.violation('tail', loc, 'the result may be above 1')
        elif T.rsub(v, T.C(1)) == T.C(0) and ip.le(T.C(1), expected, s) is True:
            ctx.holds('tail')
        elif s.notes or T.has_unk(v):
            ctx.undecided('tail', loc, s.notes or T.show(v)[:200])
        elif all(a == x or a[0] == 'app' and a[1] in ('exp', 'min') for a in T.atoms(v)):
            ctx.violation('tail', loc, 'for %d degrees of freedom the result is %s' % (
                2 * n, T.show(v)[:200]))
        else:
            ctx.undecided('tail', loc, T.show(v)[:200])
    for s, v in ip.call(st.copy(), ('fn', f.fid, None), [x, T.C(2 * n + 1)], {}, None):
        if isinstance(v, Exc):
            ctx.holds('odd')
        elif s.notes:
            ctx.undecided('odd', loc, s.notes)
        else:
            ctx.violation('odd', loc, 'a value is returned')
    ctx.functions |= ip.visited['functions']


def score(ctx, cls, ev, n):
    w = World(ctx, cls)
    ip = w.ip
    short = ctx.p.classes[cls].short
    loc = where(ctx.p, cls, 'spamprob') + ' (%s)' % short
    # Only what happens to strong clues; which tokens are clues is C07.
    ps = [T.S('p%d' % i) for i in range(n)]
    toks = [T.C(b'tok%d' % i) for i in range(n)]
    for p in ps:
        ip.sorts[p[1]] = 'float'
    m = ctx.p.method(cls, 'probability')

    def prob(ip, st, a, kw, node):
        r = a[1] if len(a) > 1 else kw['record']
        yield st, ps[st.heap[r].attrs['spamcount'][2] - 2]
    ip.call_override[m.fid] = prob
    paths = 0
    for st in w.fresh():
        recs = tuple((t, w.record(st, T.C(i + 2), T.C(0))) for i, t in enumerate(toks))
        st.setattr(w.r.obj(st), 'wordinfo',
                   st.new('dict', items=recs, base=None, others=False, flavor='dict'))
        for p in ps:
            st = ip.assume_le(p, T.C(0), False, st)
            st = ip.assume_le(p, T.C(1), True, st, True)
        msg = st.new('list', items=tuple(toks), exact=True, wit=(), others=frozenset(),
                     order=None)
        for s, v in w.run(st, 'spamprob', [msg], {'evidence': T.C(ev)}):
            paths += 1
            ctx.count('paths')
            if isinstance(v, Exc):
                if s.notes:
                    ctx.undecided('score', loc, s.notes)
                else:
                    ctx.violation('score', loc, '%s is raised at %s with %d tokens' % (
                        v.name, at(v), n))
                continue
            if ev:
                if v[0] != 'tup' or len(v) != 3:
                    ctx.undecided('score', loc, 'form of the result with evidence')
                    continue
                v = v[1]
            judge(ctx, w, s, v, ps, loc)
    if not paths:
        ctx.undecided('score', loc, 'no outcome with %d tokens' % n)
    ctx.functions |= ip.visited['functions']


def judge(ctx, w, s, v, ps, loc):
    ip = w.ip
    if v[0] == 'c':
        if v[2] == 0.5:
            ctx.holds('no-clue')
        elif s.notes:
            ctx.undecided('no-clue', loc, s.notes)
        else:
            ctx.violation('no-clue', loc, 'the score without clues is %s' % T.show(v))
        return
    if s.notes or T.has_unk(v):
        ctx.undecided('score', loc, s.notes or T.show(v)[:200])
        return
    form = tails(v)
    ok = False
    why = T.show(v)[:300]
    foreign = False
    if form is not None:
        const, q = form
        half = Fraction(1, 2)
        if const == half and set(q) == {half, -half}:
            (xh, vh), (xs, vs) = q[half], q[-half]
            # 1/2 * Q(of p) - 1/2 * Q(of 1 - p)
            ls, lh = log_sum(xs), log_sum(xh)
            if vh == vs and vs[0] == 'c' and ls and lh and ls[0] == lh[0] == -2:
                k = vs[2] // 2
                for sub in itertools.combinations(ps, k):
                    a = b = T.C(1)
                    for p in sub:
                        a = T.rmul(a, T.rsub(T.C(1), p))
                        b = T.rmul(b, p)
                    if T.rsub(ls[1], a) == T.C(0) and T.rsub(lh[1], b) == T.C(0) and vs[2] == 2 * k:
                        ok = True
    else:
        # A value made of parts unknown here cannot be judged.
        def odd(x):
            return x[0] == 'app' and x[1] not in ('chi2Q', 'log', 'frexp_m', 'frexp_e', 'exp',
                                                  'abs', 'min', 'max')
        foreign = T.mentions(v, odd)
    if ok:
        ctx.holds('score')
        ctx.sample({'score': T.show(v)[:300], 'path': w.r.describe(s)}, 3)
    elif foreign:
        ctx.undecided('score', loc, why)
    else:
        ctx.violation('score', loc, 'the score is %s' % why, known=w.r.describe(s))
        return
    for a in arguments(v):
        if a[0] == 'app' and a[1] == 'frexp_m' or factors(a) < 2:
            ctx.holds('underflow')
        elif ip.le(TINY, a, s) is True:
            ctx.holds('underflow')
        else:
            ctx.violation('underflow', loc, 'nothing keeps the product %s from underflow' %
                          T.show(a)[:100], known=w.r.describe(s))
