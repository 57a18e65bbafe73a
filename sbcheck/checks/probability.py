"""C04, C05: the probability of a token."""
from .. import terms as T
from ..reach import Reach, ROOT, W
from ..setup import classifier_classes, symbolic_numbers, where, at
from ..program import AnchorMissing
from ..state import St, Exc
from ..interp import Stop

s_, h_, a_, b_, NS, NH = (T.S(x) for x in ('s', 'h', 'a', 'b', 'N', 'M'))
NUMS = (s_, h_, a_, b_, NS, NH)


class World:
    """A classifier class with constructor-made objects in an abstract world."""

    def __init__(self, ctx, cls):
        self.ctx = ctx
        self.cls = cls
        p = ctx.p
        self.r = Reach(p, cls, slurp='none' if p.classes[cls].short == 'SlurpingClassifier'
                       else False)
        self.ip = ip = self.r.ip
        mods = [m for m in p.modules if m.startswith('sbclassifier.classifiers')]
        self.values = symbolic_numbers(ip, p, mods)
        for k in [k for k in ip.symbolic_globals if type(self.values.get(
                T.S('global:%s.%s' % k))) is int]:
            ip.symbolic_globals.discard(k)
        for n in NUMS:
            ip.sorts[n[1]] = 'int'
        f = p.func('chi2Q')
        ip.call_override[f.fid] = lambda ip, st, a, kw, n: iter([(st, T.app('chi2Q', *a))])
        St.only = ()

    def fresh(self):
        """New objects with the totals NS and NH."""
        r = self.r
        for st in list(r.start()):
            o = r.obj(st)
            st.setattr(o, 'nspam', NS)
            st.setattr(o, 'nham', NH)
            for x in NUMS:
                st = self.ip.assume_le(T.C(0), x, True, st)
            for x, y in ((s_, h_), (a_, b_)):
                st = self.ip.assume_le(T.radd(x, y), T.C(0), False, st)
            for x, v in self.values.items():
                if v > 0:
                    st = self.ip.assume_le(x, T.C(0), False, st)
            yield st

    def record(self, st, s, h):
        return st.new('inst', cls=self.ctx.p.cls('WordInfo').name, sym=None,
                      attrs={'spamcount': s, 'hamcount': h})

    def run(self, st, name, args, kwargs=None):
        self.ip.steps = 0
        yield from self.ip.run_method(st, self.r.obj(st), name, args, kwargs)

    def stream(self, st, rem):
        return st.new('stream', name='words', oneshot=True, rem=rem, done=False, alone=True)

    def decided(self, st, t):
        """The term with symbols that have one value replaced by it."""
        for x in NUMS:
            for c in (0, 1, 2, 3):
                if T.mentions(t, lambda y: y == x) and self.ip.le(x, T.C(c), st) is True and \
                        self.ip.le(T.C(c), x, st) is True:
                    t = T.subst(t, x, T.C(c))
                    break
        for x, y in ((a_, s_), (b_, h_)):
            if T.mentions(t, lambda z: z == x) and self.ip.eq(x, y, st) is True:
                t = T.subst(t, x, y)
        return t

    def total(self, st, t):
        if self.ip.le(t, T.C(0), st) is True:
            return T.C(1)
        if self.ip.le(T.C(1), t, st) is True:
            return t
        return None

    def formula(self, st, s, h, ns, nh, k, x):
        """The documented probability, or None where the state leaves open
        whether a total is zero."""
        ns, nh = self.total(st, ns), self.total(st, nh)
        if ns is None or nh is None:
            return None
        sr, hr = T.rdiv(s, ns), T.rdiv(h, nh)
        p = T.rdiv(sr, T.radd(sr, hr))
        n = T.radd(s, h)
        return T.rdiv(T.radd(T.rmul(k, x), T.rmul(n, p)), T.radd(k, n))

    def formulas(self, st, *args):
        """(state, formula) with the open questions decided both ways."""
        ns, nh = args[2], args[3]
        outs = [st]
        for t in (ns, nh):
            nxt = []
            for s in outs:
                nxt += [s2 for s2, _z in self.ip.fork(('le', False, t, T.C(0)), s)]
            outs = nxt
        for s in outs:
            yield s, self.formula(s, *args)

    def same(self, st, v, w):
        """True, False or None: whether two numbers are equal."""
        if T.has_unk(v):
            return None
        v, w = self.decided(st, v), self.decided(st, w)
        if v == w or T.rsub(v, w) == T.C(0):
            return True
        d = T.rsub(v, w)
        if d[0] == 'c':
            # Configured numbers are decimal fractions rounded to binary.
            return abs(d[2]) < 1e-12
        known = set(NUMS) | set(self.values)
        if all(x in known for x in T.atoms(d)):
            return self.ip.eq(d, T.C(0), st) or False
        return None


def constants(w):
    """(weight of the prior, probability of an unknown word) as terms."""
    return list(w.values) + []


def unknown_prob(w, st):
    """The values used for a token that was never trained: (state, clues)."""
    for s, v in w.run(st, 'spamprob', [w.stream(st, 1)], {'evidence': T.TRUE}):
        yield s, v


def clue_probs(w, st, v):
    """The probabilities of the token w in what spamprob returned, or None."""
    if isinstance(v, Exc) or v[0] != 'tup' or len(v) != 3:
        return None
    xs = w.ip.exact_items(st, v[2])
    if xs is None:
        return None
    out = []
    for x in xs:
        y = w.ip.exact_items(st, x)
        if y is None or len(y) != 2:
            return None
        if y[0] == W:
            out.append(y[1])
    return out


def prior(ctx, w, rule):
    """The terms (k, x) of the prior, found from the formula itself."""
    x = None
    for st in w.fresh():
        for s, v in unknown_prob(w, st):
            ps = clue_probs(w, s, v)
            if ps:
                if len(ps) == 1 and ps[0] in w.values:
                    x = ps[0]
                elif len(ps) == 1 and ps[0][0] == 'c':
                    x = ps[0]
    return x


def check_C04(ctx):
    ctx.explanation = (
        'Abstract interpretation of probability() and spamprob() of every classifier class with '
        'symbolic counts s, h and totals; the returned term, a rational function in normal form, '
        'is compared with the documented formula on every path. The conditions of the paths are '
        'linear inequalities decided by elimination. Nothing is run.')
    ctx.assumptions += ['arithmetic on floats is taken as arithmetic on reals',
                        'the configured weight of the prior is positive']
    ctx.rule('formula', 'every value returned for a record is (k*x + n*p)/(k + n)')
    ctx.rule('refused', 'no value is returned for counts larger than the totals')
    ctx.rule('accepted', 'a value is returned, and no error raised, for counts within the totals')
    ctx.rule('unknown', 'the probability of a token never trained is x')
    ctx.rule('configured', 'the configured numbers are a positive weight and a probability')
    ctx.rule('used', 'the probability of a trained token used in scoring is the one of its record')
    ctx.parallel(classifier_classes(ctx.p), formula_of)
    St.only = None


def formula_of(ctx, cls):
    for cls in [cls]:
        short = ctx.p.classes[cls].short
        w = World(ctx, cls)
        ip = w.ip
        loc = where(ctx.p, cls, 'probability') + ' (%s)' % short
        # The candidates for the weight k and the prior x are the configured
        # numbers; the pair is the one that fits most paths.
        paths = []
        for st in w.fresh():
            rec = w.record(st, s_, h_)
            for s, v in w.run(st, 'probability', [rec]):
                paths.append((s, v))
        ctx.count('paths', len(paths))
        cands = [t for t, v in sorted(w.values.items(), key=repr) if type(v) is float]
        best = None
        for k in cands:
            for x in cands:
                n = 0
                for s, v in paths:
                    if isinstance(v, Exc):
                        continue
                    f = w.formula(s, s_, h_, NS, NH, k, x)
                    n += f is not None and w.same(s, v, f) is True
                if best is None or n > best[0]:
                    best = (n, k, x)
        if not best or best[0] == 0:
            # A literal weight or prior, perhaps: nothing to compare with.
            best = (0, None, None)
        _n, k, x = best
        if k is not None:
            good = w.values[k] > 0 and 0 <= w.values[x] <= 1
            if good:
                ctx.holds('configured')
            else:
                ctx.violation('configured', loc, '%s is %s and %s is %s' % (
                    T.show(k), w.values[k], T.show(x), w.values[x]))
        returned = 0
        for s, v in paths:
            out = [ip.le(w.total(s, NS) or NS, s_, s, True), ip.le(w.total(s, NH) or NH, h_, s,
                                                                True)]
            if isinstance(v, Exc):
                if True in out:
                    ctx.holds('refused')
                elif False in out and out[0] is out[1] and not s.notes:
                    ctx.violation('accepted', loc, '%s is raised at %s for counts within the '
                                  'totals' % (v.name, at(v)), known=w.r.describe(s))
                elif s.notes:
                    ctx.undecided('accepted', loc, s.notes)
                continue
            returned += 1
            if out != [False, False]:
                if s.notes:
                    ctx.undecided('refused', loc, s.notes)
                else:
                    ctx.violation('refused', loc, 'a value is returned though the counts may be '
                                  'larger than the totals', known=w.r.describe(s))
                continue
            ctx.holds('refused')
            if k is None:
                best_k = T.S('k')
                f = w.formula(s, s_, h_, NS, NH, best_k, T.S('x'))
            else:
                f = w.formula(s, s_, h_, NS, NH, k, x)
            r = None if f is None else w.same(s, v, f)
            if r:
                ctx.holds('formula')
                ctx.sample({'class': short, 'path': w.r.describe(s), 'value': T.show(v)[:300]}, 4)
            elif r is False and not s.notes:
                ctx.violation('formula', loc, 'the value is %s' % T.show(v)[:300],
                              known=w.r.describe(s))
            else:
                ctx.undecided('formula', loc, '%s %s' % (T.show(v)[:200], s.notes))
        if not returned:
            ctx.undecided('formula', loc, 'no value is returned on any path')
        # A token never trained.
        loc = where(ctx.p, cls, 'spamprob') + ' (%s)' % short
        for st in w.fresh():
            for s, v in unknown_prob(w, st):
                ps = clue_probs(w, s, v)
                if ps is None:
                    if isinstance(v, Exc) and not s.notes:
                        ctx.violation('unknown', loc, '%s is raised at %s for a token never '
                                      'trained' % (v.name, at(v)))
                    else:
                        ctx.undecided('unknown', loc, s.notes or 'form of the evidence')
                elif not ps:
                    ctx.holds('unknown')
                elif x is not None and all(w.same(s, q, x) for q in ps):
                    ctx.holds('unknown')
                elif s.notes or x is None:
                    ctx.undecided('unknown', loc, s.notes)
                else:
                    ctx.violation('unknown', loc, 'the probability used is %s' % [
                        T.show(q) for q in ps])
        # A token trained once.
        for label in (True, False):
            for st in list(w.fresh()):
                st.setattr(w.r.obj(st), 'nspam', T.C(2))
                st.setattr(w.r.obj(st), 'nham', T.C(5))
                for s, v in list(w.run(st, 'learn', [w.stream(st, 1), T.C(label)])):
                    if isinstance(v, Exc):
                        continue
                    cnt = (1, 0) if label else (0, 1)
                    tot = (3, 5) if label else (2, 6)
                    for s2, v2 in w.run(s, 'spamprob', [w.stream(s, 1)], {'evidence': T.TRUE}):
                        ps = clue_probs(w, s2, v2)
                        if ps is None:
                            if isinstance(v2, Exc) and not s2.notes:
                                ctx.violation('used', loc, '%s is raised at %s' % (
                                    v2.name, at(v2)))
                            else:
                                ctx.undecided('used', loc, s2.notes or 'form of the evidence')
                        elif k is not None:
                            f = w.formula(s2, *[T.C(n) for n in cnt + tot], k, x)
                            for q in ps:
                                if w.same(s2, q, f):
                                    ctx.holds('used')
                                elif s2.notes:
                                    ctx.undecided('used', loc, s2.notes)
                                else:
                                    ctx.violation('used', loc, 'the probability used is %s' %
                                                  T.show(q)[:200])
        ctx.functions |= ip.visited['functions']


def check_C05(ctx):
    ctx.explanation = (
        'Abstract interpretation of sequences "compute a probability for arbitrary counts (a, b); '
        'an operation; compute a probability for arbitrary counts (s, h)" with symbolic counts '
        'and totals. The second value has to be the term a fresh classifier with the same totals '
        'computes for (s, h) under the same conditions; a value cached for other totals or other '
        'counts is a different term. The operation is each of those that change totals or '
        'counts. By induction over histories no stale value is ever used. Nothing is run.')
    ctx.assumptions += ['arithmetic on floats is taken as arithmetic on reals']
    ctx.rule('key', 'without a change in between, the value for (s, h) does not depend on (a, b)')
    ctx.rule('stale', 'after an operation the value is the one for the current totals')
    ctx.rule('token', 'the probability of a trained token follows its counts')
    worlds = {cls: World(ctx, cls) for cls in classifier_classes(ctx.p)}
    tasks = []
    for cls, w in worlds.items():
        for name, op in operations(w):
            tasks.append((cls, name))
        tasks.append((cls, None))

    def one(ctx, task):
        cls, name = task
        w = worlds[cls]
        w.ctx = ctx
        short = ctx.p.classes[cls].short
        if name is None:
            trained(ctx, w, short)
        else:
            op = dict(operations(w))[name]
            loc = '%s (%s, %s)' % (where(ctx.p, cls, name[0]), short, ' '.join(name))
            sequence(ctx, w, op, 'key' if name[0] == 'probability' else 'stale', loc)
        ctx.functions |= w.ip.visited['functions']
    ctx.parallel(tasks, one)
    St.only = None


def operations(w):
    """(name, function of a state giving states after the operation)"""
    def nothing(st):
        yield st

    def train(name, label):
        def op(st):
            for s, v in w.run(st, name, [w.stream(st, 0), T.C(label)]):
                yield s                  # also if it was refused
        return op

    def load(st):
        for s, v in w.run(st, 'load', []):
            if not isinstance(v, Exc):
                yield s

    def setstate(st):
        # The state of another classifier with other totals.
        ip = w.ip
        for s, r in w.r.ip.instantiate(st, w.cls, w.r.ctor_args(), {}, None):
            if isinstance(r, Exc):
                continue
            for x in ('N2', 'M2'):
                ip.sorts[x] = 'int'
                s = ip.assume_le(T.C(0), T.S(x), True, s)
            s.setattr(r, 'nspam', T.S('N2'))
            s.setattr(r, 'nham', T.S('M2'))
            for s2, v in ip.run_method(s, r, '__getstate__', []):
                if isinstance(v, Exc):
                    continue
                for s3, v3 in w.run(s2, '__setstate__', [v]):
                    if not isinstance(v3, Exc):
                        yield s3
    out = [(('probability',), nothing)]
    for n in ('learn', 'unlearn'):
        for label in (True, False):
            out.append(((n, 'spam' if label else 'ham'), train(n, label)))
    if w.r.has('__setstate__'):
        out.append((('__setstate__',), setstate))
    if w.r.has('load') and w.r.has('store'):
        out.append((('load', 'after training'), load))
    return out


def sequence(ctx, w, op, rule, loc):
    ip, r = w.ip, w.r
    isload = 'load' in loc.rsplit('(', 1)[1]
    starts = []
    for st in w.fresh():
        if isload:
            for s, v in w.run(st, 'store', []):
                if isinstance(v, Exc):
                    continue
                for s2, v2 in w.run(s, 'learn', [w.stream(s, 0), T.TRUE]):
                    if not isinstance(v2, Exc):
                        starts.append(s2)
        else:
            starts.append(st)
    for st in starts:
        for s, v1 in w.run(st, 'probability', [w.record(st, a_, b_)]):
            if isinstance(v1, Exc):
                continue
            for s2 in op(s):
                o = s2.heap[r.obj(s2)].attrs
                ns, nh = o.get('nspam'), o.get('nham')
                if ns is None or nh is None:
                    ctx.undecided(rule, loc, 'totals')
                    continue
                for s3, v2 in w.run(s2, 'probability', [w.record(s2, s_, h_)]):
                    if isinstance(v2, Exc):
                        continue
                    compare(ctx, w, s3, v2, ns, nh, rule, loc)


def compare(ctx, w, st, v, ns, nh, rule, loc):
    """Compares v with what a classifier without cached values computes."""
    r = w.r
    ctx.count('paths')
    for s, o in r.ip.instantiate(st.copy(), w.cls, r.ctor_args(), {}, None):
        if isinstance(o, Exc):
            continue
        s.setattr(o, 'nspam', ns)
        s.setattr(o, 'nham', nh)
        w.ip.steps = 0
        for s2, v2 in r.ip.run_method(s, o, 'probability', [w.record(s, s_, h_)]):
            if isinstance(v2, Exc):
                # An error is due, but a value was returned (from the cache).
                if not s2.notes:
                    ctx.violation(rule, loc, 'a value is returned where %s is due' % v2.name,
                                  known=r.describe(s2))
                continue
            x = w.same(s2, v, v2)
            if x is True:
                ctx.holds(rule)
            elif x is False and not s2.notes:
                ctx.violation(rule, loc, 'the value is %s instead of %s' % (
                    T.show(w.decided(s2, v))[:200], T.show(w.decided(s2, v2))[:200]),
                    known=r.describe(s2))
            else:
                ctx.undecided(rule, loc, s2.notes or T.show(v)[:200])


def trained(ctx, w, short):
    """Histories of training one token, scoring it after each step."""
    loc = where(ctx.p, w.cls, 'spamprob') + ' (%s)' % short
    hist = [[('learn', True), ('learn', True), ('learn', False), ('unlearn', True)],
            [('learn', False), ('learn', True), ('unlearn', False), ('learn', True)]]
    if ctx.thorough:
        hist += [[('learn', True), ('learn', False), ('learn', False), ('unlearn', False),
                  ('unlearn', True), ('learn', True), ('learn', True)]]
    for steps in hist:
        for st in list(w.fresh()):
            o = w.r.obj(st)
            n = {True: 4, False: 3}
            st.setattr(o, 'nspam', T.C(4))
            st.setattr(o, 'nham', T.C(3))
            c = {True: 0, False: 0}
            states = [st]
            for name, label in steps:
                d = 1 if name == 'learn' else -1
                n[label] += d
                c[label] += d
                nxt = []
                for s in states:
                    for s2, v in w.run(s, name, [w.stream(s, 1), T.C(label)]):
                        if isinstance(v, Exc):
                            continue
                        for s3, v3 in w.run(s2, 'spamprob', [w.stream(s2, 1)],
                                            {'evidence': T.TRUE}):
                            ps = clue_probs(w, s3, v3)
                            if ps is None:
                                continue
                            nxt.append(s3)
                            for q in ps:
                                expected_after(ctx, w, s3, q, c, n, loc)
                states = nxt[:2]
                if not states:
                    ctx.undecided('token', loc, 'no outcome')


def expected_after(ctx, w, st, q, c, n, loc):
    r = w.r
    for s, o in r.ip.instantiate(st.copy(), w.cls, r.ctor_args(), {}, None):
        if isinstance(o, Exc):
            continue
        s.setattr(o, 'nspam', T.C(n[True]))
        s.setattr(o, 'nham', T.C(n[False]))
        for s2, v2 in r.ip.run_method(s, o, 'probability',
                                      [w.record(s, T.C(c[True]), T.C(c[False]))]):
            if isinstance(v2, Exc):
                continue
            x = w.same(s2, q, v2)
            if x is True:
                ctx.holds('token')
            elif x is False and not s2.notes:
                ctx.violation('token', loc, 'with counts (%d, %d) the probability used is %s '
                              'instead of %s' % (c[True], c[False], T.show(q)[:100],
                                                 T.show(v2)[:100]))
            else:
                ctx.undecided('token', loc, s2.notes or T.show(q)[:200])
