"""C25: removing special sections."""
from .. import terms as T
from .. import text as X
from ..driver import Driver
from ..state import St, Exc
from ..setup import where, at

SOURCE = '''
from sbclassifier import strippers


def named(name):
    return getattr(strippers, name)

def made(cls):
    return cls()

def finders(x):
    return (x.find_start, x.find_end)

def separator(x):
    return x.separator

def analyzed(x, text):
    return x.analyze(text)
'''
TEXT = T.S('text')


def check_C25(ctx):
    ctx.explanation = (
        'Abstract interpretation of analyze() of every stripper, with symbols for the text and '
        'for the places of up to %d sections found by its regular expressions. The parts of the '
        'result are ranges of the text; they have to be those outside of the sections, in order. '
        'Every search for a section has to begin where the last one ended, and what begins a '
        'section matches at least one byte, so that there are finitely many. Nothing is run.'
        % (3 if ctx.thorough else 2))
    ctx.assumptions += ['the regular expressions find what they describe, at or after the '
                        'position given']
    ctx.rule('kept', 'the text kept is what is outside of the sections, once and in order')
    ctx.rule('open', 'a section that does not end is ordinary text')
    ctx.rule('tokens', 'the tokens of each section found are given, in order')
    ctx.rule('ends', 'the search goes on behind the section found, and no section is empty')
    base = ctx.p.cls('Stripper').name
    names = []
    for m in ctx.p.modules.values():
        for var, bs in m.bindings.items():
            if len(bs) == 1 and bs[0][0] == 'assign' and var.endswith('Stripper'):
                names.append((m.name, var))
    subs = sorted(c for c in ctx.p.classes if base in ctx.p.mro(c) and c != base)
    ctx.parallel([('class', c) for c in subs] + [('name',) + n for n in sorted(set(names))],
                 stripped)


def stripped(ctx, task):
    d = Driver(ctx.p, SOURCE)
    ip = d.ip
    ip.sorts['text'] = 'bytes'
    ip.most_matches = 6 if ctx.thorough else 4
    base = ctx.p.cls('Stripper').name

    def tokens(ip, st, args, kwargs, node):
        m = args[1] if len(args) > 1 else T.unk('match')
        yield st, ip.new_list(st, [T.app('token', m)])
    for c in ctx.p.classes:
        if base in ctx.p.mro(c):
            f = ctx.p.find_method(c, 'tokenize')
            if f is not None and not isinstance(f, tuple):
                ip.call_override[f.fid] = tokens
    if task[0] == 'class':
        cls = task[1]
        makers = list(d.run(St(), 'made', ('cls', cls)))
        loc = where(ctx.p, cls, 'analyze') + ' (%s)' % ctx.p.classes[cls].short
    else:
        loc = '%s:%s' % (ctx.p.modules[task[1]].rel, task[2])
        makers = []
        st = St()
        v = ip.global_name(st, task[1], task[2], None)
        makers = [(st, v if isinstance(v, Exc) else ip.thaw(st, v))]
    n = 0
    for s0, x in makers:
        if isinstance(x, Exc) or T.is_unk(x) or s0.notes:
            ctx.undecided('kept', loc, 'the stripper cannot be made: %s' % (s0.notes or x,))
            continue
        for s1, fs in d.run(s0, 'finders', x):
            rx = [finder(f) for f in fs[1:]] if not isinstance(fs, Exc) and fs[0] == 'tup' else []
            if len(rx) != 2 or None in rx:
                ctx.undecided('kept', loc, 'what finds the sections is not known')
                continue
            if X.widths(X.compiled(rx[0]))[0] < 1:
                ctx.violation('ends', loc, 'what begins a section may be empty')
            else:
                ctx.holds('ends')
            for s2, sep in d.run(s1, 'separator', x):
                s2.events = ()
                for s, r in d.run(s2, 'analyzed', x, TEXT):
                    n += 1
                    ctx.count('paths')
                    judge(ctx, ip, s, r, rx, sep, loc)
    if not n:
        ctx.undecided('kept', loc, 'no path')
    ctx.functions |= d.functions()


def finder(f):
    """The regular expression of which it is the search method, or None."""
    if f[0] == 'bbm' and f[2] == 'search' and X.compiled(f[1]) is not None:
        return f[1]
    return None


def parts_of(ip, s, t):
    """[(low, high) or constant] of the text kept; None if it is something else."""
    if t == TEXT:
        return [(T.C(0), None)]
    if t[0] == 'c':
        return [] if not t[2] else [t]
    if t[0] == 'fmt':
        return parts_of(ip, s, t[2]) if not t[1] else None
    if t[0] == 'cat':
        out = []
        for x in t[1:]:
            y = parts_of(ip, s, x)
            if y is None:
                return None
            out += y
        return out
    if t[0] == 'app' and t[1] == 'slice' and t[2] == TEXT and (len(t) < 6 or t[5] in (
            T.NONE, T.C(1))):
        lo, hi = t[3], t[4]
        if hi == T.app('len', TEXT):
            hi = T.NONE
        return [(T.C(0) if lo == T.NONE else lo, None if hi == T.NONE else hi)]
    return None


def same(ip, s, a, b):
    if a is None or b is None:
        return a is b
    return a == b or ip.decide(('eq', a, b), s) is True


def merged(ip, s, ranges):
    """Without empty ranges, and with those put together that touch."""
    out = []
    for a, b in ranges:
        if same(ip, s, a, b):
            continue
        if out and same(ip, s, out[-1][1], a):
            out[-1] = (out[-1][0], b)
        else:
            out.append((a, b))
    return out


def show(ranges):
    names = {}

    def one(t):
        if t is None:
            return 'the end'
        if t == T.C(0):
            return '0'
        if t[0] == 'app' and t[1] in ('start', 'end'):
            names.setdefault(t[2], len(names) + 1)
            return '%s of match %d' % (t[1], names[t[2]])
        return T.show(t)[:30]
    return ', '.join('%s to %s' % (one(a), one(b)) for a, b in ranges) or 'nothing'


def judge(ctx, ip, s, r, rx, sep, loc):
    if s.notes:
        ctx.undecided('kept', loc, s.notes)
        return
    if isinstance(r, Exc):
        ctx.violation('kept', loc, '%s is raised at %s' % (r.name, at(r)))
        return
    if r[0] != 'tup' or len(r) != 3:
        ctx.undecided('kept', loc, 'the result is not a pair')
        return
    # What is found, by the facts of the path.
    i = T.C(0)
    keep, found = [], []
    unended = None
    while True:
        b = ip.decide(X.asked(rx[0], 'search', (TEXT, i)), s)
        if b is None:
            searched = [e for e in s.events if e[0] == 'matched']
            ctx.violation('ends' if searched else 'kept', loc,
                          'the rest of the text is not searched from where the last section '
                          'ended')
            return
        if not b:
            keep.append((i, None))
            break
        m = X.match_term(rx[0], (TEXT, i))
        found.append(m)
        a, z = X.bounds(ip, s, m)
        keep.append((i, a))
        e = X.match_term(rx[1], (TEXT, z))
        if X.compiled(rx[1]).pattern in ('', b''):
            ended = True
        else:
            ended = ip.decide(X.asked(rx[1], 'search', (TEXT, z)), s)
        if ended is None:
            ctx.violation('ends', loc, 'the end of a section is not searched behind its beginning')
            return
        if not ended:
            unended = m
            keep.append((a, None))
            break
        i = X.bounds(ip, s, e)[1]
    ctx.holds('ends')
    parts = parts_of(ip, s, r[1])
    if parts is None:
        ctx.undecided('kept', loc, 'the text kept is %s' % T.show(r[1])[:80])
        return
    rule = 'open' if unended else 'kept'
    odd = [p for p in parts if p[0] == 'c' and p != sep]
    if odd:
        ctx.violation(rule, loc, '%s is added to the text' % T.show(odd[0]))
    ranges = [p for p in parts if p[0] != 'c']
    got, want = merged(ip, s, ranges), merged(ip, s, keep)
    if len(got) != len(want) or not all(same(ip, s, x, y) for g, w in zip(got, want)
                                        for x, y in zip(g, w)):
        ctx.violation(rule, loc, 'the text kept is %s, not %s' % (show(got), show(want)))
    else:
        ctx.holds(rule)
        ctx.sample({'stripper': loc, 'kept': show(got)}, 6)
    toks = r[2]
    xs = ip.exact_items(s, toks)
    if xs is None:
        ctx.undecided('tokens', loc, 'the tokens are not known')
        return
    xs = list(xs)
    must = [T.app('token', m) for m in found if m != unended]
    if xs != must and xs != [T.app('token', m) for m in found]:
        ctx.violation('tokens', loc, 'the tokens of %d sections are given, of %d found' % (
            len(xs), len(found)))
    else:
        ctx.holds('tokens')
