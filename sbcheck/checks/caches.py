"""C13: the in-memory cache."""
from collections import deque

from .. import terms as T
from ..driver import Driver, canon
from ..state import St, Exc
from ..setup import where, at

SOURCE = '''
from sbclassifier.corpora.caches import NaiveCache

def make(n):
    return NaiveCache(max_size=n)

def make_default():
    return NaiveCache()

def put(c, k, v):
    c.put(k, v)

def pop(c, k):
    try:
        return c.pop(k)
    except KeyError:
        return None

def look(c, ks):
    found = []
    for k in ks:
        try:
            v = (True, c[k])
        except KeyError:
            v = (False, None)
        found.append((k, v, c.get(k), c.get(k, 'default'), k in c))
    return (len(c), [k for k in c], list(c.keys()), list(c.values()), list(c.items()), found)
'''

KEYS = [T.C(k) for k in 'abcd']


def check_C13(ctx):
    ctx.explanation = (
        'Abstract interpretation of NaiveCache through a client program: the fixpoint of the '
        'states that any sequence of put() and pop() of up to four keys reaches, for bounds of '
        '1, 2 and 3 entries and without a bound, is compared in each state with a reference '
        'model, through every way of reading the cache. Nothing is run.')
    ctx.assumptions += ['four keys stand for any number of keys, three entries for any bound']
    ctx.rule('consistent', 'length, iteration, keys, values, items and lookups agree')
    ctx.rule('content', 'a key holds the value last put under it')
    ctx.rule('bounded', 'there are never more entries than allowed, and the one dropped is the '
             'one whose key was added first')
    ctx.parallel([1, 2, 3, None, 'default'], explore)


def explore(ctx, most):
    d = Driver(ctx.p, SOURCE)
    ip = d.ip
    loc = where(ctx.p, ctx.p.cls('NaiveCache').name, 'put')
    poploc = where(ctx.p, ctx.p.cls('NaiveCache').name, 'pop')
    keys = KEYS if most in (1, 2, 3) else KEYS[:3]
    vals = {k: (T.S('v%s0' % k[2]), T.S('v%s1' % k[2])) for k in keys}
    bound = most if isinstance(most, int) else 99
    todo, seen = deque(), set()

    def push(s, c, model, op):
        key = canon(s, c), model
        if key in seen or len(seen) > 4000:
            return
        seen.add(key)
        todo.append((s, c, model, op))
    arg = [T.C(float('inf'))] if most is None else [T.C(most)]
    for s, c in (d.run(St(), 'make_default') if most == 'default' else d.run(St(), 'make', *arg)):
        if isinstance(c, Exc):
            ctx.violation('content', loc, 'the constructor raises %s' % c.name)
            continue
        push(s, c, (), 'made')
    while todo:
        s, c, model, op = todo.popleft()
        ctx.count('states')
        for s2, v in d.run(s.copy(), 'look', c, ('tup',) + tuple(keys)):
            if not judge(ctx, ip, s2, v, model, keys, poploc if op.startswith('pop') else loc, op):
                return
        for k in keys:
            for v in vals[k]:
                i = [n for n, (x, _v) in enumerate(model) if x == k]
                if i:
                    new = model[:i[0]] + ((k, v),) + model[i[0] + 1:]
                else:
                    new = (model + ((k, v),))
                    if len(new) > bound:
                        new = new[1:]
                for s2, r in d.run(s.copy(), 'put', c, k, v):
                    ctx.count('transitions')
                    if isinstance(r, Exc):
                        bad(ctx, s2, 'content', loc, 'put() raises %s at %s' % (r.name, at(r)))
                        return
                    push(s2, c, new, 'put(%s) on %s' % (k[2], shown(model)))
            new = tuple(x for x in model if x[0] != k)
            for s2, r in d.run(s.copy(), 'pop', c, k):
                ctx.count('transitions')
                if isinstance(r, Exc):
                    bad(ctx, s2, 'content', poploc, 'pop() raises %s at %s' % (r.name, at(r)))
                    return
                push(s2, c, new, 'pop(%s) on %s' % (k[2], shown(model)))
    ctx.functions |= d.functions()


def shown(model):
    return '[%s]' % ', '.join(k[2] for k, _v in model)


def bad(ctx, s, rule, loc, why):
    if s.notes:
        ctx.undecided(rule, loc, s.notes)
    else:
        ctx.violation(rule, loc, why)


def judge(ctx, ip, s, v, model, keys, loc, op):
    if isinstance(v, Exc):
        bad(ctx, s, 'consistent', loc, '%s is raised at %s after %s' % (v.name, at(v), op))
        return False
    n, it, ks, vs, items, found = v[1:]
    lists = [ip.exact_items(s, x) for x in (it, ks, vs, items, found)]
    if any(x is None for x in lists) or n[0] != 'c' or s.notes:
        ctx.undecided('consistent', loc, s.notes or 'a list is not known')
        return True
    it, ks, vs, items, found = lists
    want = dict(model)
    ok = True
    if n[2] != len(model):
        bad(ctx, s, 'bounded' if n[2] > len(model) else 'content', loc,
            'there are %d entries, not %d, after %s' % (n[2], len(model), op))
        ok = False
    for name, xs, ws in (('iteration', it, list(want)), ('keys()', ks, list(want)),
                         ('values()', vs, list(want.values())),
                         ('items()', items, [('tup',) + kv for kv in want.items()])):
        if sorted(xs, key=repr) != sorted(ws, key=repr):
            bad(ctx, s, 'consistent', loc, '%s gives %s, not %s, after %s' % (
                name, ', '.join(map(T.show, xs)), ', '.join(map(T.show, ws)), op))
            ok = False
    for k, f in zip(keys, found):
        _t, _k, (_t2, has, val), got, got2, isin = f
        if k in want:
            good = (has, val, got, got2, isin) == (T.TRUE, want[k], want[k], want[k], T.TRUE)
        else:
            good = (has, got, got2, isin) == (T.FALSE, T.NONE, T.C('default'), T.FALSE)
        if not good:
            bad(ctx, s, 'content', loc, 'looking up %s after %s' % (k[2], op))
            ok = False
    if ok:
        ctx.holds('consistent')
        ctx.holds('content')
        ctx.holds('bounded')
        ctx.sample({'operation': op, 'entries': shown(model)}, 4)
    return ok
