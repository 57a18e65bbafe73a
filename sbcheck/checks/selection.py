"""C07, C08: which tokens of a message are learned and which are used to score it."""
import itertools

from .. import terms as T
from ..setup import classifier_classes, where, at
from ..state import St, Exc
from .probability import World

HALF = T.C(0.5)


def text(t):
    """The constant as text, or None."""
    if t[0] != 'c' or not isinstance(t[2], (str, bytes)):
        return None
    return t[2].decode('latin-1') if isinstance(t[2], bytes) else t[2]


class Words(World):
    """A world in which the records of a learned message have the
    probabilities p0, p1, ... in the order of first learning."""

    def __init__(self, ctx, cls, bigrams):
        World.__init__(self, ctx, cls)
        self.r.bigrams = bigrams
        self.bigrams = bigrams
        self.probs = [T.S('p%d' % i) for i in range(12)]
        ip = self.ip
        for p in self.probs:
            ip.sorts[p[1]] = 'float'
        self.lookups = None
        get = ip.dict_get

        def dict_get(st, ref, key):
            if self.lookups is not None and ref == self.table:
                self.lookups.append(key)
            yield from get(st, ref, key)
        ip.dict_get = dict_get
        self.table = None
        ip.exact_sort = True
        le = ip.le

        def compare(a, b, st, strict=False):
            # Products of a few probabilities are not that small (see C06).
            for x, y, r in ((a, b, True), (b, a, False)):
                if x[0] == 'c' and type(x[2]) is float and 0 < x[2] < 1e-100 and \
                        y[0] in ('s', 'rat'):
                    return r
            return le(a, b, st, strict)
        ip.le = compare
        m = ctx.p.method(cls, 'probability')

        def prob(ip, st, a, kw, node):
            r = a[1] if len(a) > 1 else kw['record']
            c = st.heap[r].attrs['spamcount'] if r[0] == 'ref' else None
            if c is not None and c[0] == 'c' and c[2] >= 2:
                yield st, self.probs[c[2] - 2]
            else:
                yield st, T.unk('probability of another record')
        ip.call_override[m.fid] = prob

    def learn(self, msg, name='learn', spam=True):
        """(state, outcome) after learning the message."""
        for st in self.fresh():
            st.setattr(self.r.obj(st), 'nspam', T.C(3))
            st.setattr(self.r.obj(st), 'nham', T.C(3))
            yield from self.run(st, name, [msg(st), T.C(spam)])

    def words(self, st):
        """{key: record} of what the classifier holds, or None."""
        o = st.heap[self.r.obj(st)]
        t = o.attrs.get('wordinfo')
        if t is None or t[0] != 'ref' or st.heap[t].kind != 'dict' or st.heap[t].others:
            return None
        self.table = t
        return {k: v for k, v in st.heap[t].items if v is not None}

    def mark(self, st):
        """Gives the records known their probabilities: {key: term}."""
        out = {}
        for i, (k, r) in enumerate(self.words(st).items()):
            o = st.heap[r]
            st.heap[r] = o.with_(attrs=dict(o.attrs, spamcount=T.C(i + 2), hamcount=T.C(0)))
            out[k] = self.probs[i]
        return out

    def side(self, st, p, above):
        """The state with p above (or not above) 1/2; None if impossible."""
        ip = self.ip
        st = ip.assume_le(HALF, p, above, st.copy())
        if st is None:
            return None
        d = T.rsub(p, HALF) if above else T.rsub(HALF, p)
        for a in (T.rsub(p, HALF), T.rsub(HALF, p)):
            a = T.app('abs', a)
            st = ip.assume_le(a, d, True, st)
            if st is not None:
                st = ip.assume_le(d, a, True, st)
            if st is None:
                return None
        return st

    def config(self, name):
        for t in self.values:
            if t[1].endswith('.' + name):
                return t
        return None

    def override(self, name, value):
        """Sets the configured number to a constant; False if there is none."""
        done = False
        for m, var in list(self.ip.const_override):
            if var == name:
                self.ip.const_override[(m, var)] = value
        for m in self.ctx.p.modules.values():
            if name in m.bindings:
                self.ip.const_override[(m.name, name)] = value
                self.ip.symbolic_globals.discard((m.name, name))
                done = True
        return done


def message(toks, how):
    """Makes the message: a list, or an iterator that can be used once."""
    def make(st):
        r = st.new('list', items=tuple(toks), exact=True, wit=(), others=frozenset(), order=None)
        return r if how == 'list' else st.new('chain', parts=(r,), oneshot=True)
    return make


def tokens(pattern):
    return [T.C(b'tok%d' % i) for i in pattern]


def pairs(pattern):
    return [(i, j) for i, j in zip(pattern, pattern[1:])]


def spelled(key, names):
    """Whether the key is made of the token, or of the two tokens in order."""
    t = text(key)
    if t is None:
        return False
    at = [t.find('tok%d' % i) for i in names]
    if len(names) == 1:
        return t == 'tok%d' % names[0]
    if names[0] == names[1]:
        return t.count('tok%d' % names[0]) == 2
    return t.count('tok') == 2 and 0 <= at[0] < at[1]


def meaning(key, pattern):
    """The positions in the message at which the word or pair is, as a list of
    tuples, or None."""
    for i in pattern:
        if spelled(key, (i,)):
            return [(n,) for n, j in enumerate(pattern) if j == i]
    for ij in pairs(pattern):
        if spelled(key, ij):
            return [(n, n + 1) for n, x in enumerate(pairs(pattern)) if x == ij]
    return None


# -- C08 --------------------------------------------------------------------------------

WORDS8 = [(), (0,), (0, 1), (0, 1, 2), (0, 0), (0, 1, 0), (0, 1, 0, 1), (0, 0, 0), (0, 1, 2, 3),
          (0, 1, 2, 0, 1)]


def check_C08(ctx):
    ctx.explanation = (
        'Abstract interpretation of learn(), unlearn() and spamprob() with bigrams, for every '
        'classifier class that defines one of them, on messages with every pattern of repetition of up to five tokens, '
        'given as a list and as an iterator that can be consumed once. The keys of the records '
        'created are compared with the words and pairs of the message, and with the keys that '
        'scoring looks up. Nothing is run.')
    ctx.assumptions += ['messages longer than the patterns are treated like them',
                        'tokens are bytes; their text is not looked at by the code']
    ctx.rule('trained', 'learning creates a record for each distinct word and each distinct pair '
             'of adjacent words, and no other')
    ctx.rule('untrained', 'unlearning the message removes all of them again')
    ctx.rule('looked-up', 'scoring looks up the keys that learning creates, and no other')
    classes = classifier_classes(ctx.p)
    tasks = []
    for cls in classes:
        for pat in WORDS8:
            for how in ('list', 'once'):
                if cls != classes[0] and all(
                        ctx.p.find_method(cls, m) is ctx.p.find_method(classes[0], m)
                        for m in ('learn', 'unlearn', 'spamprob')):
                    # How records are kept elsewhere is the subject of C09.
                    continue
                tasks += [(cls, pat, how, True), (cls, pat, how, False)]
    ctx.parallel(tasks, words)


def words(ctx, task):
    cls, pat, how, spam = task
    w = Words(ctx, cls, True)
    ip = w.ip
    short = ctx.p.classes[cls].short
    want = [(i,) for i in sorted(set(pat))] + sorted(set(pairs(pat)))
    msg = message(tokens(pat), how)
    n = 0

    def loc(m):
        return where(ctx.p, cls, m) + ' (%s)' % short

    def fail(rule, m, s, why):
        if s.notes:
            ctx.undecided(rule, loc(m), s.notes)
        else:
            ctx.violation(rule, loc(m), why + ' for the words %s as %s' % (
                ' '.join('tok%d' % i for i in pat), how))
    for s, v in w.learn(msg, spam=spam):
        n += 1
        ctx.count('paths')
        if isinstance(v, Exc):
            fail('trained', 'learn', s, '%s is raised at %s' % (v.name, at(v)))
            continue
        ks = w.words(s)
        if ks is None:
            ctx.undecided('trained', loc('learn'), 'the table of words is not known')
            continue
        missing = [x for x in want if not any(spelled(k, x) for k in ks)]
        extra = [k for k in ks if not any(spelled(k, x) for x in want)]
        if missing or extra or len(ks) != len(want):
            fail('trained', 'learn', s, 'learned: %s' % ', '.join(
                T.show(k)[:40] for k in ks))
            continue
        ctx.holds('trained')
        ctx.sample({'class': short, 'words': list(pat), 'learned': [T.show(k) for k in ks]}, 3)
        u = s.copy()
        for s2, v2 in w.run(u, 'unlearn', [msg(u), T.C(spam)]):
            if isinstance(v2, Exc):
                fail('untrained', 'unlearn', s2, '%s is raised at %s' % (v2.name, at(v2)))
                continue
            left = w.words(s2)
            if left is None:
                ctx.undecided('untrained', loc('unlearn'), 'the table of words is not known')
            elif left:
                fail('untrained', 'unlearn', s2, 'left: %s' % ', '.join(
                    T.show(k)[:40] for k in left))
            else:
                ctx.holds('untrained')
        w.mark(s)
        s = s.copy()
        # All are certain, so that no branch depends on the probabilities.
        w.probs = [T.C(0.9 + i / 256) for i in range(20)]
        # The generators are followed to the end before the next is started,
        # so the lookups of one path follow each other.
        w.lookups = []
        for s2, v2 in w.run(s, 'spamprob', [msg(s)]):
            if isinstance(v2, Exc):
                fail('looked-up', 'spamprob', s2, '%s is raised at %s' % (v2.name, at(v2)))
                break
        else:
            seen = set(w.lookups)
            if any(k[0] != 'c' for k in seen):
                ctx.undecided('looked-up', loc('spamprob'), 'a key is not known')
            elif seen != set(ks):
                fail('looked-up', 'spamprob', s, 'looked up: %s; learned: %s' % (
                    ', '.join(sorted(T.show(k)[:40] for k in seen)),
                    ', '.join(sorted(T.show(k)[:40] for k in ks))))
            else:
                ctx.holds('looked-up')
        w.lookups = None
    if not n:
        ctx.undecided('trained', loc('learn'), 'no outcome')
    ctx.functions |= ip.visited['functions']
    St.only = None


# -- C07 --------------------------------------------------------------------------------

def check_C07(ctx):
    ctx.explanation = (
        'Abstract interpretation of spamprob() with evidence on short messages whose words and '
        'pairs have symbolic probabilities and a symbolic minimum strength: every order of their '
        'strengths, every combination of sides of 0.5, with and without words never trained, '
        'with repeated words, and with every limit on the number of clues. The clues on each path '
        'are compared with the selection the property describes. Nothing is run.')
    ctx.assumptions += ['a limit of 1 to 3 clues stands for any limit',
                        'messages of up to 4 words stand for longer ones']
    ctx.rule('unigrams', 'the clues are the distinct strong tokens, each once')
    ctx.rule('strongest', 'if there are too many, those left out are the weakest')
    ctx.rule('bigrams', 'the words and pairs used do not overlap, and each one left out overlaps '
             'with a stronger one')
    classes = classifier_classes(ctx.p)
    tasks = []
    unis = [(0,), (0, 0), (0, 1), (0, 1, 0), ('u',), ('u', 'u', 0), (0, 1, 2), (0, 'u', 1)]
    for cls in classes:
        first = cls == classes[0]
        same = all(ctx.p.find_method(cls, m) is ctx.p.find_method(classes[0], m)
                   for m in ('spamprob',))
        if not first and same:
            continue
        for pat in unis:
            n = len(set(pat))
            for cap in range(1, n + 1):
                for how in ('list', 'once'):
                    if (not first or how == 'once') and n > 2 and not ctx.thorough:
                        continue
                    tasks.append((cls, False, pat, how, cap, None))
        for pat in ((0,), (0, 1), (0, 0), (0, 1, 0)):
            n = len(set(pat)) + len(set(pairs(pat)))
            for cap in ((1, 2, n) if n > 2 else (1, n)):
                if n <= 3:
                    tasks.append((cls, True, pat, 'once', cap, None))
                else:
                    for perm in some(itertools.permutations(range(n)), 24):
                        tasks.append((cls, True, pat, 'once', cap, perm))
        for pat, many in (((0, 1, 2), 120), ((0, 1, 2, 3), 5040 if ctx.thorough else 420),
                          ((0, 1, 0, 1), 24), ((0, 1, 1, 2), 120)):
            n = len(set(pat)) + len(set(pairs(pat)))
            for i, perm in enumerate(some(itertools.permutations(range(n)), many)):
                tasks.append((cls, True, pat, 'list', (n, 2, 1)[i % 3], perm))
    tasks.sort(key=lambda t: -len(t[2]) - 9 * (t[5] is None))
    ctx.parallel(tasks, select)


def some(xs, n):
    """At most n of them, evenly spread."""
    xs = list(xs)
    if len(xs) <= n:
        return xs
    step = len(xs) / n
    return [xs[int(i * step)] for i in range(n)]


def select(ctx, task):
    cls, bi, pat, how, cap, perm = task
    w = Words(ctx, cls, bi)
    ip = w.ip
    short = ctx.p.classes[cls].short
    loc = where(ctx.p, cls, 'spamprob') + ' (%s)' % short
    least, x = w.config('MINIMUM_PROB_STRENGTH'), w.config('UNKNOWN_WORD_PROB')
    if least is None or x is None or not w.override('MAX_DISCRIMINATORS', T.C(cap)):
        ctx.undecided('unigrams', loc, 'the configuration has other names')
        return
    known = [i for i in pat if i != 'u']
    toks = [T.C(b'unknown') if i == 'u' else tokens([i])[0] for i in pat]
    n = 0
    for s, v in w.learn(message(tokens(known), 'list')):
        if isinstance(v, Exc) or w.words(s) is None:
            ctx.undecided('unigrams', loc, 'learning the words')
            return
        probs = w.mark(s)
        if 'u' in pat:
            probs[T.C(b'unknown')] = x
        if bi and perm is None and len(probs) > 3:
            ctx.undecided('bigrams', loc, 'keys of the pairs')
            return
        keys = list(probs)
        # On which side of 0.5 the probabilities are.
        if perm is None:
            sides = list(itertools.product((True, False), repeat=len(keys)))
        else:
            sides = [tuple((i + sum(perm[:2])) % 3 != 0 for i in range(len(keys)))]
        for side in sides:
            u, dist = s.copy(), {}
            for k, above in zip(keys, side):
                p = probs[k]
                if perm is not None:
                    # The strengths are in the order given, all of them enough.
                    d = 0.125 + perm[keys.index(k)] / 32
                    probs[k] = w.probs[w.probs.index(p)] = T.C(0.5 + d if above else 0.5 - d)
                    dist[k] = T.C(d)
                    continue
                for a, b in ((T.C(0), p), (p, T.C(1))):
                    u = u and ip.assume_le(a, b, True, u, p != x)
                u = u and w.side(u, p, above)
                dist[k] = T.rsub(p, HALF) if above else T.rsub(HALF, p)
            if u is None:
                continue
            if perm is not None:
                u = ip.assume_le(least, T.C(0.125), True, u)
            m = message(toks, how)(u)
            for s2, v2 in w.run(u, 'spamprob', [m], {'evidence': T.TRUE}):
                n += 1
                ctx.count('paths')
                judge(ctx, w, s2, v2, dict(bi=bi, pat=pat, cap=cap, how=how, loc=loc, least=least,
                                           dist=dist, probs=probs))
    if not n:
        ctx.undecided('unigrams', loc, 'no outcome')
    ctx.functions |= ip.visited['functions']
    St.only = None


def judge(ctx, w, s, v, e):
    ip, loc, dist, least = w.ip, e['loc'], e['dist'], e['least']
    rule = 'bigrams' if e['bi'] else 'unigrams'

    def fail(rule, why):
        if s.notes:
            ctx.undecided(rule, loc, s.notes)
        else:
            ctx.violation(rule, loc, '%s, with the words %s as %s and at most %d clues' % (
                why, ' '.join(map(str, e['pat'])), e['how'], e['cap']),
                known=[T.show(t) for t in list(e['dist'].values())])
    if isinstance(v, Exc):
        fail(rule, '%s is raised at %s' % (v.name, at(v)))
        return
    xs = ip.exact_items(s, v[2]) if v[0] == 'tup' and len(v) == 3 else None
    if xs is None or any(y[0] != 'tup' or len(y) != 3 for y in xs):
        ctx.undecided(rule, loc, 'form of the evidence')
        return
    clues = [(y[1], y[2]) for y in xs if text(y[1]) not in ('*H*', '*S*')]
    names = [k for k, _p in clues]
    shown = ', '.join(T.show(k) for k in names)
    for k, p in clues:
        if k not in dist:
            fail(rule, 'the clue %s is no token of the message' % T.show(k))
            return
        if T.rsub(p, e['probs'][k]) != T.C(0):
            fail(rule, 'the clue %s has another probability' % T.show(k))
            return
    if len(set(names)) != len(names):
        fail(rule, 'a clue is used twice: %s' % shown)
        return
    # Which tokens are strong is decided on the path, or does not matter.
    for u, strong in strengths(ip, s, dist, least):
        weak = [k for k in names if k not in strong]
        if weak:
            fail(rule, 'the weak token %s is used' % T.show(weak[0]))
            return
        if not e['bi']:
            if len(names) != min(len(strong), e['cap']):
                fail(rule, 'of %d strong tokens %d are used' % (len(strong), len(names)))
                return
            for a in strong:
                for b in names:
                    if a not in names and ip.le(dist[a], dist[b], u) is not True:
                        fail('strongest', 'a token is left out that may be stronger than one '
                             'that is used')
                        return
            if len(strong) > e['cap']:
                ctx.holds('strongest')
            ctx.holds('unigrams')
            continue
        if not bigrams(ctx, ip, u, e, names, strong, fail):
            return
        ctx.holds('bigrams')
    ctx.sample({'words': list(e['pat']), 'limit': e['cap'], 'clues': shown}, 6)


def strengths(ip, s, dist, least):
    outs = [(s.copy(), [])]
    for k, d in dist.items():
        nxt = []
        for u, strong in outs:
            for u2, r in ip.fork(('le', False, least, d), u):
                nxt.append((u2, strong + [k] if r else strong))
        outs = nxt
    return outs


def bigrams(ctx, ip, u, e, names, strong, fail):
    dist, pat = e['dist'], e['pat']
    at = {}
    for k in dist:
        at[k] = meaning(k, pat)
        if at[k] is None:
            ctx.undecided('bigrams', e['loc'], 'the key %s' % T.show(k))
            return False
    # The clues can be laid on the message without overlap.
    def lay(ks, used):
        if not ks:
            return True
        return any(not used & set(p) and lay(ks[1:], used | set(p)) for p in at[ks[0]])
    if not lay(names, set()):
        fail('bigrams', 'the clues %s overlap' % ', '.join(T.show(k) for k in names))
        return False
    if len(names) > e['cap']:
        fail('bigrams', 'more clues than allowed')
        return False
    if not names and strong:
        fail('bigrams', 'no clue is used')
        return False
    if len(set(pat)) != len(pat):
        # Which occurrence a repeated word stands for is not said; each is at least
        # as strong as those it displaces.
        best = [k for k in strong if all(ip.le(dist[j], dist[k], u) is True for j in strong)]
        if best and not any(k in names for k in best):
            fail('bigrams', 'the strongest clue is not used')
            return False
        return True
    spot = {k: set(at[k][0]) for k in dist}
    if all(d[0] == 'c' for d in dist.values()):
        # All strengths differ.
        used = []
        for k in sorted(strong, key=lambda k: -dist[k][2]):
            if not any(spot[k] & spot[j] for j in used):
                used.append(k)
        if set(names) != set(used[:e['cap']]):
            fail('bigrams', 'the clues %s are used, not %s' % (
                ', '.join(T.show(k) for k in names),
                ', '.join(T.show(k) for k in used[:e['cap']])))
            return False
        return True
    full = len(names) == e['cap']
    for k in strong:
        if k in names:
            continue
        # It overlaps with one at least as strong that is used, or is left out
        # because there are too many.
        if any(spot[k] & spot[j] and ip.le(dist[k], dist[j], u) is True for j in names):
            continue
        if full and all(ip.le(dist[k], dist[j], u) is True for j in names):
            continue
        # One that displaced it may be left out itself because there are too many.
        if full and any(spot[k] & spot[j] and ip.le(dist[k], dist[j], u) is True
                        for j in strong if j not in names):
            continue
        fail('bigrams', 'the clue %s is not used' % T.show(k))
        return False
    return True
