"""C26: name lookups. C30: clues from addresses."""
import ast

from .. import terms as T
from ..driver import Driver
from ..net import address_of
from ..program import AnchorMissing
from ..state import St, Exc
from ..setup import at

SOURCE = '''
import socket
import sbclassifier.iputils as iputils
from sbclassifier.dnsutils import dns_lookup
from sbclassifier.dnsutils import reverse_dns_lookup
from sbclassifier.iputils import gen_dotted_quad_clues
from sbclassifier.iputils import subnets
from ipaddress import IPv4Address


def set_timeout(t):
    socket.setdefaulttimeout(t)

def addresses(name):
    return list(dns_lookup(name))

def names(address):
    return list(reverse_dns_lookup(address))

def isin(name, address):
    return name in reverse_dns_lookup(address)

def in_order(name):
    return sorted(dns_lookup(name))

def the_address(text):
    return IPv4Address(text)

def clues(prefix, address):
    return list(gen_dotted_quad_clues(prefix, address))

def default_networks(address):
    return [str(n) for n in subnets(address)]

def no_networks(address):
    return [str(n) for n in subnets(address, None)]

def networks(address, lengths):
    return [str(n) for n in subnets(address, lengths)]

def networks_by_name(address, lengths):
    return [str(n) for n in subnets(address, prefix_lengths=lengths)]

def networks_of_once(address, lengths):
    return [str(n) for n in subnets(address, (n for n in lengths))]

def configured():
    return list(iputils.DEFAULT_PREFIX_LENGTHS)
'''


def function(p, name):
    for f in p.functions.values():
        if f.cls is None and f.qual == name and not f.module.name.startswith('sbdriver'):
            return f
    raise AnchorMissing('no function %s' % name)


def place(f):
    return '%s:%s' % (f.module.rel, f.qual)


# --- C26 -------------------------------------------------------------------------

LOOKUPS = {'addresses': 'dns_lookup', 'names': 'reverse_dns_lookup'}
#: How the resolver can end without an answer; the others are not its doing.
FAILURES = ('socket.gaierror', 'socket.herror', 'OSError', 'TimeoutError', 'UnicodeError',
            'TypeError')
KNOWN = {'addresses': (T.C('example.com'), T.C('a.example')),
         'names': (T.C('192.0.2.1'), T.C('2001:db8::1'))}


def check_C26(ctx):
    ctx.explanation = (
        'Abstract interpretation of both lookups, from any timeout in force, for a symbolic name, '
        'with each way in which the resolver can end: an answer, each kind of failure, and an '
        'interruption. The timeout at the lookup and the one left behind are read off the effects '
        'on each path. One lookup is followed by another from another timeout, so that all that '
        'is kept between lookups is covered. Nothing is looked up and nothing is run.')
    ctx.assumptions += [
        'the system fails with the exceptions of the socket module that are documented, with '
        'UnicodeError for a name that cannot be encoded, and with TypeError for a null character '
        'in gethostbyaddr()']
    ctx.rule('timeout', 'each call of the resolver is made with a timeout of the library, a '
             'positive constant')
    ctx.rule('restored', 'the timeout in force before is in force after the lookup, however it '
             'ends')
    ctx.rule('empty', 'a failure of the resolver gives an empty result')
    ctx.rule('answer', 'an answer of the resolver is the result')
    ctx.rule('asked', 'the resolver is asked for the name given, unless no lookup can succeed')
    ctx.rule('elsewhere', 'no other function changes the timeout')
    tasks = [('one', how, t) for how in LOOKUPS for t in (T.S('timeout'), T.NONE, T.C(0.0))]
    tasks += [('two', a, b) for a in LOOKUPS for b in LOOKUPS]
    tasks += [('use', u) for u in ('isin', 'in_order')]
    tasks += [('elsewhere',)]
    ctx.parallel(tasks, lambda c, t: {'one': one, 'two': two, 'use': use,
                                      'elsewhere': elsewhere}[t[0]](c, *t[1:]))


def world(ctx):
    d = Driver(ctx.p, SOURCE)
    ip = d.ip
    ip.sorts.update({'name': 'str', 'name2': 'str', 'found': 'str', 'found2': 'str',
                     'name found': 'str', 'address': 'str', 'prefix': 'str', 'alias': 'str', 'errno': 'int', 'error text': 'str'})
    ip.addresses = [(), (T.S('found'),), (T.S('found'), T.S('found2'))]
    ip.faults = True
    ip.fault_filter = lambda what: what in ('getaddrinfo', 'gethostbyaddr')
    return d, ip


def start(d, st, t):
    for s, _r in d.run(st.copy(), 'set_timeout', t):
        return s


def one(ctx, how, t):
    d, ip = world(ctx)
    f = function(ctx.p, LOOKUPS[how])
    st = start(d, St(), t)
    for name in (T.S('name'),) + KNOWN[how]:
        for s, r in d.run(st.copy(), how, name):
            ctx.count('paths')
            judge(ctx, ip, f, how, name, t, len(st.events), s, r)
    ctx.functions |= d.functions()


def two(ctx, a, b):
    """A lookup after another one."""
    d, ip = world(ctx)
    f = function(ctx.p, LOOKUPS[b])
    st = start(d, St(), T.S('timeout'))
    for s, r in list(d.run(st.copy(), a, T.S('name'))):
        s = start(d, s, T.S('other timeout'))
        n = len(s.events)
        for s2, r2 in d.run(s.copy(), b, T.S('name2')):
            ctx.count('paths')
            judge(ctx, ip, f, b, T.S('name2'), T.S('other timeout'), n, s2, r2)
        if a == b:
            # The same name again: an answer may have been remembered.
            for s2, r2 in d.run(s.copy(), b, T.S('name')):
                ctx.count('paths')
                judge(ctx, ip, f, b, T.S('name'), T.S('other timeout'), n, s2, r2, True)
    ctx.functions |= d.functions()


def use(ctx, how):
    """What callers do with the result."""
    d, ip = world(ctx)
    f = function(ctx.p, 'dns_lookup' if how == 'in_order' else 'reverse_dns_lookup')
    st = start(d, St(), T.S('timeout'))
    args = (T.S('name'),) if how == 'in_order' else (T.S('wanted'), T.S('name'))
    ip.sorts['wanted'] = 'str'
    for s, r in d.run(st.copy(), how, *args):
        ctx.count('paths')
        if s.notes:
            ctx.undecided('empty', place(f), s.notes)
        elif isinstance(r, Exc) and r.name != 'KeyboardInterrupt':
            ctx.violation('empty', place(f), 'using the result raises %s at %s' % (r.name, at(r)))
        else:
            ctx.holds('empty')


def judge(ctx, ip, f, how, name, t, n, s, r, again=False):
    loc = place(f)
    if s.notes:
        ctx.undecided('timeout', loc, s.notes)
        return
    events = s.events[n:]
    asked = [e for e in events if e[0] == 'lookup']
    last = [e for e in events if e[0] == 'timeout']
    ended = ', '.join(e[4] or 'an answer' for e in asked) or 'no lookup'
    if last and last[-1][1] != t and not ip.decide(('eq', last[-1][1], t), s):
        ctx.violation('restored', loc, 'the timeout is %s and not %s after a lookup that ends '
                      'with %s' % (T.show(last[-1][1]), T.show(t), ended))
    else:
        ctx.holds('restored')
    for e in asked:
        v = e[3]
        if v[0] == 'c' and isinstance(v[2], (int, float)) and v[2] > 0:
            ctx.holds('timeout')
        else:
            ctx.violation('timeout', loc, '%s() is called with the timeout %s' % (
                e[1], T.show(v)))
        if e[2][:1] != (name,):
            ctx.violation('asked', loc, '%s() is asked for %s instead of %s' % (
                e[1], T.show(e[2][0]) if e[2] else 'nothing', T.show(name)))
        else:
            ctx.holds('asked')
    failed = [e[4] for e in asked if e[4] is not None]
    if isinstance(r, Exc):
        if r.name in failed and r.name not in FAILURES:
            ctx.holds('empty')
        else:
            ctx.violation('empty', loc, 'the lookup raises %s at %s' % (r.name, at(r)))
        return
    xs = ip.exact_items(s, r)
    if xs is None:
        ctx.undecided('answer', loc, 'the result is not known')
        return
    found = [e[1] for e in events if e[0] == 'found']
    if not asked and again:
        return
    if failed and not found:
        if xs:
            ctx.violation('empty', loc, 'the result is %s after %s' % (
                [T.show(x) for x in xs], ended))
        else:
            ctx.holds('empty')
    elif found:
        want = found[-1]
        if not all(any(same(ip, s, x, w) for x in xs) for w in want) or \
                not all(any(same(ip, s, x, w) for w in want) for x in xs):
            ctx.violation('answer', loc, 'the result is %s and not %s' % (
                [T.show(x) for x in xs], [T.show(x) for x in want]))
        else:
            ctx.holds('answer')
            ctx.sample({'lookup': f.qual, 'ended': ended, 'found': [T.show(x) for x in xs]}, 8)
    elif name[0] == 'c':
        ctx.violation('asked', loc, 'nobody is asked for %s' % T.show(name))
    elif xs:
        ctx.violation('answer', loc, 'the result is %s without a lookup' % (
            [T.show(x) for x in xs]))
    else:
        ctx.holds('asked')


def same(ip, s, a, b):
    return a == b or ip.decide(('eq', a, b), s) is True


def elsewhere(ctx):
    """All places that change the timeout are on the paths analysed."""
    d, ip = world(ctx)
    seen = set()
    for how in LOOKUPS:
        f = function(ctx.p, LOOKUPS[how])
        for s, _r in d.run(start(d, St(), T.S('timeout')), how, T.S('name')):
            seen |= {e[2] for e in s.events if e[0] == 'timeout'}
    for m in ctx.p.modules.values():
        if m.name == 'sbdriver':
            continue
        for node in ast.walk(m.tree):
            if isinstance(node, ast.Call) and 'setdefaulttimeout' in (
                    getattr(node.func, 'attr', None), getattr(node.func, 'id', None)):
                ctx.count('places that change the timeout')
                if any(x[1] == m.rel and x[3] == node.lineno for x in seen):
                    ctx.holds('elsewhere')
                else:
                    ctx.undecided('elsewhere', m.rel,
                                  'a change of the timeout that is not analysed')


# --- C30 -------------------------------------------------------------------------

def check_C30(ctx):
    ctx.explanation = (
        'Abstract interpretation of the clues and the networks of a symbolic address, as text and '
        'as an address object, with each prefix length, several sequences of lengths in each form, '
        'and the configured ones; the networks are terms whose address and length are compared '
        'with those required. Nothing is run.')
    ctx.assumptions += ['the ipaddress module computes the network of a length that contains an '
                        'address, and refuses host bits unless told otherwise']
    ctx.rule('clues', 'the clues are one for each configured prefix length, in order, made of the '
             'prefix, a colon and the network')
    ctx.rule('networks', 'the networks are those of the address with the prefix lengths given, in '
             'order')
    ctx.rule('configured', 'the configured prefix lengths are used when none are given, and only '
             'then')
    ctx.rule('host bits', 'an address with host bits set is accepted')
    ctx.parallel([('text',), ('object',)], lambda c, t: addresses(c, t[0]))


def flat(st, t):
    """Text as a sequence of constants and terms, with networks written out."""
    if t[0] == 'ref' and st.heap[t].kind == 'ext' and st.heap[t].type == 'ipnetwork':
        n = st.heap[t].data
        return (flat(st, n['network_address']) + flat(st, T.C('/')) + flat(st, n['~length']))
    if t[0] == 'cat':
        return sum((flat(st, x) for x in t[1:]), ())
    if t[0] == 'fmt' and not t[1]:
        return flat(st, t[2])
    if t[0] == 'app' and t[1] == 'str' and len(t) == 3:
        return flat(st, t[2])
    if t[0] == 'c':
        return (str(t[2]),)
    return (address_of(st, t),)


def text(st, t):
    out = []
    for x in flat(st, t):
        if isinstance(x, str) and out and isinstance(out[-1], str):
            out[-1] += x
        elif x != '':
            out.append(x)
    return out


def want(prefix, address, n):
    at = T.app('network address', address, T.C(n))
    return ([prefix, ':'] if prefix else []) + [at, '/%d' % n]


SEQUENCES = [(), (0,), (32,), (24, 16), (8, 8), (1, 9, 17, 25, 31)] + [(n,) for n in range(33)]


def addresses(ctx, form):
    d, ip = world(ctx)
    ip.faults = False
    f = function(ctx.p, 'subnets')
    g = function(ctx.p, 'gen_dotted_quad_clues')
    lengths = None
    for s, r in d.run(St(), 'configured'):
        xs = None if isinstance(r, Exc) else ip.exact_items(s, r)
        if xs is not None and all(x[0] == 'c' for x in xs):
            lengths = [x[2] for x in xs]
    lengths = lengths or [8, 16, 24, 32]
    a = T.S('address')
    cases = [('default_networks', (), lengths, f, 'configured'),
             ('no_networks', (), lengths, f, 'configured')]
    for seq in SEQUENCES:
        t = ('tup',) + tuple(T.C(n) for n in seq)
        rule = 'networks' if seq else 'configured'
        cases += [(how, (t,), seq, f, rule) for how in
                  ('networks', 'networks_by_name', 'networks_of_once')]
    for arg_state in given(d, ip, form, a):
        st, x = arg_state
        for how, args, lens, fn, rule in cases:
            for s, r in d.run(st.copy(), how, x, *args):
                ctx.count('paths')
                compare(ctx, ip, s, r, [want(None, a, n) for n in lens], place(fn), rule)
        for again in (False, True):
            for s, r in d.run(st.copy(), 'clues', T.S('prefix'), x):
                if again:
                    for s, r in d.run(s.copy(), 'clues', T.S('prefix'), x):
                        compare(ctx, ip, s, r, [want(T.S('prefix'), a, n) for n in lengths],
                                place(g), 'clues')
                else:
                    ctx.count('paths')
                    compare(ctx, ip, s, r, [want(T.S('prefix'), a, n) for n in lengths],
                            place(g), 'clues')
    ctx.functions |= d.functions()


def given(d, ip, form, a):
    if form == 'text':
        yield St(), a
    else:
        yield from d.run(St(), 'the_address', a)


def compare(ctx, ip, s, r, wanted, loc, rule):
    if s.notes:
        ctx.undecided(rule, loc, s.notes)
        return
    if isinstance(r, Exc):
        ctx.violation('host bits' if r.name == 'ValueError' else rule, loc,
                      '%s is raised at %s' % (r.name, at(r)))
        return
    xs = ip.exact_items(s, r)
    if xs is None:
        ctx.undecided(rule, loc, 'the result is not known')
        return
    got = [text(s, x) for x in xs]
    def plain(x):
        return isinstance(x, str) or x[0] == 's' or x[0] == 'app' and x[1] == 'network address'
    if not all(plain(x) for g in got for x in g):
        ctx.undecided(rule, loc, 'text that is not known')
        return
    if got != wanted:
        def show(x):
            return ''.join(y if isinstance(y, str) else T.show(y) for y in x)
        ctx.violation(rule, loc, 'the result is %s instead of %s' % (
            [show(x) for x in got], [show(x) for x in wanted]))
    else:
        ctx.holds(rule)
        ctx.holds('host bits')
        ctx.sample({'result': [[y if isinstance(y, str) else T.show(y) for y in x]
                               for x in got]}, 6)
