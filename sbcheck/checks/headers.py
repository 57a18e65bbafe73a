"""C19-C22: classification of messages and the headers added to them."""
import itertools

from .. import terms as T
from ..driver import Driver
from ..mail import headers as message_headers, low
from ..state import St, Exc
from ..setup import where, at

SOURCE = '''
from email.header import Header
from email.message import Message as PlainMessage
from sbclassifier.classifiers.constants import HAM_CUTOFF
from sbclassifier.classifiers.constants import SPAM_CUTOFF
from sbclassifier.message import Classification
from sbclassifier.message import from_bytes
from sbclassifier.message import from_string
from sbclassifier.message import Message
from sbclassifier.message import insert_exception_header


def cutoffs():
    return HAM_CUTOFF, SPAM_CUTOFF

def enum(name):
    return Classification[name]

def made(how, i):
    if how == 'bytes':
        return from_bytes(b'text', i)
    if how == 'string':
        return from_string('text', i)
    return Message(i)

def plain():
    return PlainMessage()

def set_header(m, name, v):
    m[name] = v

def get_header(m, name):
    return m[name]

def set_payload(m, v):
    m.set_payload(v)

def classify(m, v):
    return m.set_classification(v)

def classification(m):
    return m.classification()

def add(m, prob, clues, score, digits, log, thermostat, evidence, cutoff, unique, to, subject):
    return m.add_sb_headers(prob, clues, include_thermostat=thermostat, include_score=score,
                            header_score_digits=digits, header_score_logarithm=log,
                            include_evidence=evidence, clue_mailheader_cutoff=cutoff,
                            add_unique_id=unique, notate_to=to, notate_subject=subject)

def add_plainly(m, prob, clues):
    return m.add_sb_headers(prob, clues)

def current(m):
    return m.current_sb_headers()

def remove(m):
    return m.remove_sb_headers()

def remove_some(m, to, subject):
    return m.remove_sb_headers(remove_to_notations=to, remove_subject_notations=subject)

def remove_notations(m, to, subject):
    return m.remove_notations(remove_to_notations=to, remove_subject_notations=subject)

def restore(m, headers):
    for name, value in headers.items():
        m[name] = value

def as_string(m):
    return m.as_string()

def as_string_from(m):
    return m.as_string(unixfrom=True)

def as_string_mangled(m):
    return m.as_string(False, False)

def as_str(m):
    return str(m)

def with_exception(text, i):
    return insert_exception_header(text, i)
'''
NAMES = ('ham', 'spam', 'unsure')
CLASSIFICATION = 'X-Spambayes-Classification'
NOTATED = ('to', 'subject')


def world(ctx):
    d = Driver(ctx.p, SOURCE)
    ip = d.ip
    ip.sorts.update(prob='float', subject='str', to='str', id='str', rest='str', value='str')
    return d, ip


def enums(d, st):
    return {n: v for n in NAMES for _s, v in d.run(st.copy(), 'enum', T.C(n))}


def options(**kw):
    """Arguments of add() after the message."""
    o = dict(prob=T.S('prob'), clues=('tup',), score=T.FALSE, digits=T.C(2), log=T.FALSE,
             thermostat=T.FALSE, evidence=T.FALSE, cutoff=T.C(0.5), unique=T.FALSE,
             to=T.NONE, subject=T.NONE)
    o.update(kw)
    return [o[k] for k in ('prob', 'clues', 'score', 'digits', 'log', 'thermostat', 'evidence',
                           'cutoff', 'unique', 'to', 'subject')]


def probability(ip, st):
    """The state with the probability in [0, 1]."""
    for atom in (('le', False, T.C(0.0), T.S('prob')), ('le', False, T.S('prob'), T.C(1.0))):
        st = ip.assume(atom, True, st)
    return st


def follows(ip, s, prob, cut):
    """The classification that the facts on the path demand, or None."""
    ham, spam = cut
    below = ip.decide(('le', True, prob, ham), s)
    above = ip.decide(('le', True, spam, prob), s)
    if below is True:
        return 'ham'
    if above is True:
        return 'spam'
    if below is False and above is False:
        return 'unsure'
    return None


# --- C19 -------------------------------------------------------------------------

def check_C19(ctx):
    ctx.explanation = (
        'Abstract interpretation of set_classification() and add_sb_headers() for a symbolic '
        'probability, every earlier classification and values of all other kinds. On each path '
        'the facts about the probability have to decide the classification on both sides of the '
        'cutoffs and on them. Nothing is run.')
    ctx.assumptions += ['probabilities are real numbers in [0, 1]']
    ctx.rule('cutoffs', 'the classification is ham below the ham cutoff, spam above the spam '
             'cutoff, unsure otherwise')
    ctx.rule('explicit', 'an explicit classification is taken as it is')
    ctx.rule('refused', 'anything else is refused with an error and changes nothing')
    ctx.rule('named', 'the classification header names the classification, once')
    ctx.rule('notations', 'notations name the classification and are added when asked for')
    ctx.parallel(['set'] + [('add', how) for how in ('bare', 'full', 'bytes')],
                 lambda c, t: classified(c) if t == 'set' else named(c, t[1]))


def others(ip, st):
    ip.sorts.update(number='int', octets='bytes', text='str', flag='bool')
    return [('an int', T.S('number')), ('0', T.C(0)), ('1', T.C(1)), ('None', T.NONE),
            ('text', T.S('text')), ('bytes', T.S('octets')), ("'ham'", T.C('ham')),
            ("'0.5'", T.C('0.5')), ('True', T.TRUE), ('False', T.FALSE),
            ('a list', ip.new_list(st, [T.C(0.5)])), ('a tuple', ('tup', T.C(0.5)))]


def classified(ctx):
    d, ip = world(ctx)
    loc = where(ctx.p, ctx.p.cls('Message').name, 'set_classification')
    st = probability(ip, St())
    es = enums(d, st)
    cut = [v[1:] for _s, v in d.run(st.copy(), 'cutoffs')][0]
    for s0, m in d.run(st, 'made', T.C('constructor'), T.NONE):
        for old in (None,) + NAMES:
            starts = [s0.copy()]
            if old:
                starts = [s for s, _r in d.run(s0.copy(), 'classify', m, es[old])]
            for s1 in starts:
                before = [v for _s, v in d.run(s1.copy(), 'classification', m)][0]
                wanted = es[old] if old else T.NONE
                if before != wanted:
                    ctx.violation('explicit', loc, 'the classification is %s after it was set to '
                                  '%s' % (T.show(before), old))
                cases = [('probability', T.S('prob'))] + [
                    ('probability', T.C(x)) for x in (0.0, 1.0)] + [
                    ('probability', x) for x in cut] + [('enum', es[n]) for n in NAMES]
                s2 = s1.copy()
                cases += others(ip, s2)
                for name, v in cases:
                    for s3, r in d.run(s2.copy(), 'classify', m, v):
                        for s4, now in d.run(s3, 'classification', m):
                            ctx.count('paths')
                            judge(ctx, ip, s4, name, v, r, before, now, es, cut, loc)
    ctx.functions |= d.functions()


def judge(ctx, ip, s, name, v, r, before, now, es, cut, loc):
    if s.notes:
        ctx.undecided('cutoffs', loc, s.notes)
    elif name == 'enum' or name == 'probability':
        want = v if name == 'enum' else es.get(follows(ip, s, v, cut))
        rule = 'explicit' if name == 'enum' else 'cutoffs'
        what = '%s after %s' % (T.show(v), T.show(before))
        if isinstance(r, Exc):
            ctx.violation(rule, loc, '%s raises %s at %s' % (what, r.name, at(r)))
        elif want is None:
            ctx.violation(rule, loc, '%s: the classification is %s, on a path that does not '
                          'tell on which side of the cutoffs the probability is' % (
                              what, T.show(now)))
        elif now != want:
            ctx.violation(rule, loc, '%s: the classification is %s, not %s' % (
                what, T.show(now), T.show(want)))
        elif r not in (want, T.NONE):
            ctx.violation(rule, loc, '%s: %s is returned' % (what, T.show(r)))
        else:
            ctx.holds(rule)
            ctx.sample({'given': T.show(v), 'before': T.show(before), 'now': T.show(now)}, 8)
    elif not isinstance(r, Exc):
        ctx.violation('refused', loc, '%s is accepted' % name)
    elif now != before:
        ctx.violation('refused', loc, 'the classification changes from %s to %s when %s is '
                      'refused' % (T.show(before), T.show(now), name))
    else:
        ctx.holds('refused')


def message(d, st, how):
    """Yields (state, message) for a kind of message."""
    for s, m in d.run(st, 'made', T.C('bytes' if how == 'bytes' else 'constructor'), T.NONE):
        states = [s]
        if how == 'full':
            for name, v in (('Subject', T.S('subject')), ('X-Other', T.S('other')),
                            ('To', T.S('to'))):
                states = [s2 for s1 in states
                          for s2, _r in d.run(s1, 'set_header', m, T.C(name), v)]
        for s1 in states:
            yield s1, m


def asked(es):
    """Values for notate_to and notate_subject: (term, names)."""
    yield T.NONE, ()
    yield ('tup',), ()
    for n in range(1, 4):
        for c in itertools.combinations(NAMES, n):
            yield ('tup',) + tuple(es[x] for x in c), c


def prefixed(t, prefix, old):
    """True if the text is the prefix and then the old value."""
    if t == T.C(prefix):
        return False
    if t[0] != 'cat' or t[1][0] != 'c' or not isinstance(t[1][2], str):
        return t[0] == 'c' and old[0] == 'c' and t[2] == prefix + old[2]
    rest = t[2:]
    if t[1][2] != prefix:
        return False
    return len(rest) == 1 and rest[0] in (old, ('fmt', '', old), T.app('str', old)) or \
        old[0] == 'cat' and rest == old[1:]


def named(ctx, how):
    d, ip = world(ctx)
    loc = where(ctx.p, ctx.p.cls('Message').name, 'add_sb_headers')
    st = probability(ip, St())
    es = enums(d, st)
    cut = [v[1:] for _s, v in d.run(st.copy(), 'cutoffs')][0]
    for s0, m in message(d, st, how):
        for old in (None,) + NAMES:
            starts = [s0.copy()]
            if old:
                starts = [s for s, _r in d.run(s0.copy(), 'classify', m, es[old])]
            for s1 in starts:
                for (to, tos), (subj, subjs) in itertools.product(asked(es), asked(es)):
                    if len(tos) + len(subjs) > 2 and tos != subjs and old:
                        continue
                    for o in ({}, dict(score=T.TRUE, log=T.TRUE, thermostat=T.TRUE)):
                        if o and (tos or subjs):
                            continue
                        s2 = s1.copy()
                        for s3, r in d.run(s2, 'add', m, *options(to=to, subject=subj, **o)):
                            ctx.count('paths')
                            names_right(ctx, d, s1, s3, m, r, tos, subjs, es, cut, loc)
        for s3, r in d.run(s0.copy(), 'add_plainly', m, T.S('prob'), ('tup',)):
            names_right(ctx, d, s0, s3, m, r, (), (), es, cut, loc)
    ctx.functions |= d.functions()


def names_right(ctx, d, before, s, m, r, tos, subjs, es, cut, loc):
    ip = d.ip
    want = follows(ip, s, T.S('prob'), cut)
    if s.notes:
        ctx.undecided('named', loc, s.notes)
        return
    if isinstance(r, Exc):
        ctx.violation('named', loc, '%s is raised at %s' % (r.name, at(r)))
        return
    if want is None:
        ctx.violation('named', loc, 'a path that does not tell on which side of the cutoffs the '
                      'probability is')
        return
    now = [v for _s, v in d.run(s.copy(), 'classification', m)]
    if now != [es[want]]:
        ctx.violation('cutoffs', loc, 'the classification is %s, not %s' % (
            T.show(now[0]), want))
    else:
        ctx.holds('cutoffs')
    n = len(before.events)
    added = [e for e in s.events[n:] if e[0] == 'header']
    mine = [e for e in added if low(e[2]) == CLASSIFICATION.lower()]
    if [e[3] for e in mine] != [T.C(want)]:
        ctx.violation('named', loc, 'the classification header is %s for a message that is %s' % (
            [T.show(e[3]) for e in mine], want))
    else:
        ctx.holds('named')
    for name, names, suffix in (('To', tos, '@spambayes.invalid'), ('Subject', subjs, '')):
        for s1, old in d.run(replay(before, s), 'get_header', m, T.C(name)):
            # Facts of the path tell whether the message had the header.
            s2 = s.copy()
            s2.facts = dict(s1.facts)
            for _s, new in d.run(s2, 'get_header', m, T.C(name)):
                notated(ctx, name, names, want, suffix, old, new, loc)


def notated(ctx, name, names, want, suffix, old, new, loc):
    text = want + suffix
    if want in names:
        ok = new == T.C(text) if old == T.NONE else prefixed(new, text + ',', old)
    else:
        ok = new == old
    if not ok:
        ctx.violation('notations', loc, '%s is %s for a message that is %s, notated for %s; '
                      'it was %s' % (name, T.show(new), want, ', '.join(names) or 'none',
                                     T.show(old)))
    else:
        ctx.holds('notations')




def replay(before, after):
    """The heap before with the facts after."""
    s = before.copy()
    s.facts = dict(after.facts)
    return s


# --- C20 -------------------------------------------------------------------------

def check_C20(ctx):
    ctx.explanation = (
        'Abstract interpretation of adding, listing and removing the headers for all combinations '
        'of options, symbolic probabilities, ids and texts of other headers. The names of all '
        'headers added, listed and deleted on any path are collected and compared; the headers '
        'after adding and removing are compared with those before. Nothing is run.')
    ctx.assumptions += ['a recipient or subject header that begins with a notation without one '
                        'having been added cannot be told from one that was notated']
    ctx.rule('listed', 'every header added is among those listed as current')
    ctx.rule('removed', 'every header added or listed is deleted on removal')
    ctx.rule('round trip', 'after adding and removing the message has the headers it had before')
    ctx.rule('untouched', 'other headers are neither listed nor changed')
    ctx.rule('notations', 'the notations asked for are removed, at most one from each header, and '
             'no others')
    ctx.parallel([('trip', how, e) for how in ('bare', 'full', 'bytes')
                  for e in (False, True)] + [('names',), ('table', 'Subject'), ('table', 'To')],
                 lambda c, t: {'trip': round_trip, 'names': all_names,
                               'table': table}[t[0]](c, *t[1:]))


def texts(d, st):
    """A message that has other headers, none of which begins with a notation."""
    for s, m in d.run(st, 'made', T.C('constructor'), T.NONE):
        states = [s]
        for name, v in (('From', T.C('a@b.c')),
                        ('Subject', T.cat([T.C('Re: '), T.S('subject')])),
                        ('X-Other', T.S('other')), ('X-Spambayes', T.C('mine')),
                        ('To', T.cat([T.C('x@y.z'), T.S('to')])),
                        ('X-Spambayes-Other', T.C('mine'))):
            states = [s2 for s1 in states
                      for s2, _r in d.run(s1, 'set_header', m, T.C(name), v)]
        for s1 in states:
            yield s1, m


CLUES = ('tup', ('tup', T.C(b'*H*'), T.S('score')), ('tup', T.C(b'*S*'), T.S('score')))


def round_trip(ctx, how, evidence):
    d, ip = world(ctx)
    ip.sorts['score'] = 'float'
    cls = ctx.p.cls('Message').name
    st = probability(ip, St())
    es = enums(d, st)
    both = T.TRUE, T.FALSE
    every = ('tup',) + tuple(es[n] for n in NAMES)
    start = texts(d, st) if how == 'full' else message(d, st, how)
    for s0, m in start:
        for score, log, thermo, unique, to, subj in itertools.product(
                both, both, both, both, (T.NONE, every), (T.NONE, every)):
            if log == T.TRUE and score == T.FALSE:
                continue
            # What the headers of a message that was found may be is left open, so that one
            # case with each of the headers added suffices.
            if how == 'bytes' and ((log, score, thermo, unique) != (
                    T.FALSE, T.TRUE, T.TRUE, T.TRUE) or to == subj):
                continue
            for i in (T.NONE, T.S('id')) if unique == T.TRUE and how != 'bytes' else \
                    (T.S('id'),) if unique == T.TRUE else (T.NONE,):
                s1 = s0.copy()
                s1.setattr(m, 'messageid', i)
                for s2, r in d.run(s1.copy(), 'add', m, *options(
                        score=score, log=log, thermostat=thermo, unique=unique, to=to,
                        subject=subj, clues=CLUES,
                        evidence=T.C(evidence))):
                    ctx.count('paths')
                    trip(ctx, d, s1, s2, r, m, how, to != T.NONE, subj != T.NONE,
                         where(ctx.p, cls, 'remove_sb_headers'),
                         where(ctx.p, cls, 'current_sb_headers'))
    ctx.functions |= d.functions()


def trip(ctx, d, before, s, r, m, how, to, subj, loc, loc2):
    ip = d.ip
    if s.notes:
        ctx.undecided('round trip', loc, s.notes)
        return
    if isinstance(r, Exc):
        ctx.violation('round trip', loc, 'adding the headers raises %s at %s' % (r.name, at(r)))
        return
    added = {low(e[2]): e for e in s.events[len(before.events):] if e[0] == 'header'}
    if None in added:
        ctx.undecided('listed', loc2, 'a header with a name that is not known')
        return
    # What a message that was found has already is of no interest here.
    for s1, c in d.run(s.copy(), 'current', m) if how != 'bytes' else ():
        if isinstance(c, Exc) or s1.notes:
            ctx.undecided('listed', loc2, s1.notes or c.name)
            continue
        items = {low(x[1]): x[2] for x in ip.exact_items(s1, ('view', 'items', c))}
        for n, e in added.items():
            if n in NOTATED:
                continue
            if n not in items:
                ctx.violation('listed', loc2, 'the header %s is added but not listed' % e[2][2])
            elif items[n] != e[3]:
                ctx.violation('listed', loc2, 'the header %s is listed as %s, but is %s' % (
                    e[2][2], T.show(items[n]), T.show(e[3])))
            else:
                ctx.holds('listed')
    old = message_headers(before, m)
    for s1, r in d.run(s.copy(), 'remove', m):
        if s1.notes:
            ctx.undecided('round trip', loc, s1.notes)
            continue
        if isinstance(r, Exc):
            ctx.violation('removed', loc, '%s is raised at %s' % (r.name, at(r)))
            continue
        new = message_headers(s1, m)
        if how == 'bytes':
            left = [h for h in new if h[0] != 'base' and low(h[1]) in added and
                    low(h[1]) not in NOTATED]
            gone = set(added) - set(NOTATED) - {x for h in new if h[0] == 'base' for x in h[2]}
            if left or gone:
                ctx.violation('removed', loc, 'the header %s is not removed' % (
                    left[0][1][2] if left else sorted(gone)[0]))
            else:
                ctx.holds('removed')
            for name, asked_for in (('to', to), ('subject', subj)):
                if not asked_for:
                    continue
                for h in new:
                    if h[0] == 'h' and low(h[1]) == name and \
                            h[2] not in originals(h, new):
                        ctx.violation('round trip', loc, 'the %s header is %s afterwards' % (
                            name, T.show(h[2])))
                    elif h[0] == 'h' and low(h[1]) == name:
                        ctx.holds('round trip')
            continue
        if new != old:
            a = [x for x in new if x not in old]
            b = [x for x in old if x not in new]
            ctx.violation('removed' if a and low(a[0][1]) in added and
                          low(a[0][1]) not in NOTATED else 'round trip', loc,
                          'after adding and removing the message %s' % (
                              'has %s: %s' % (a[0][1][2], T.show(a[0][2])) if a else
                              'has lost %s' % b[0][1][2] if b else 'has its headers in another '
                              'order'))
        else:
            ctx.holds('round trip')
            ctx.holds('removed')
            ctx.sample({'added': sorted(added), 'left': len(new)}, 6)


def originals(h, new):
    """What the text of the header may be: that of the message as found."""
    for b in new:
        if b[0] == 'base':
            t = T.app('header', b[1], T.C(low(h[1])))
            return (t, T.app('str', t), ('cat', ('fmt', '', t)))
    return ()


def all_names(ctx):
    """Compares the names of the headers listed with those deleted."""
    d, ip = world(ctx)
    cls = ctx.p.cls('Message').name
    loc = where(ctx.p, cls, 'remove_sb_headers')
    loc2 = where(ctx.p, cls, 'current_sb_headers')
    listed, deleted = {}, {}
    for s0, m in d.run(St(), 'made', T.C('bytes'), T.NONE):
        for s, c in d.run(s0.copy(), 'current', m):
            xs = None if isinstance(c, Exc) else ip.exact_items(s, ('view', 'items', c))
            if s.notes or xs is None or any(low(x[1]) is None for x in xs):
                ctx.undecided('listed', loc2, s.notes or 'the headers listed')
                continue
            listed.update({low(x[1]): x[1] for x in xs})
        for s, r in d.run(s0.copy(), 'remove_some', m, T.FALSE, T.FALSE):
            if s.notes:
                ctx.undecided('removed', loc, s.notes)
            deleted.update({low(e[2]): e[2] for e in s.events if e[0] == 'delheader'})
    names = {**listed, **deleted}
    for n in ('x-other', 'from', 'to', 'subject', 'received', 'x-spambayes', 'content-type',
              'x-spambayes-other', 'x-spambayes-exception'):
        names.setdefault(n, T.C(n))
    for n, t in sorted(names.items()):
        if n in listed and n not in deleted:
            ctx.violation('removed', loc, 'the header %s is listed but not deleted' % t[2])
        elif n in deleted and n not in listed:
            ctx.violation('listed', loc2, 'the header %s is deleted but not listed' % t[2])
        for s0, m in d.run(St(), 'made', T.C('constructor'), T.NONE):
            for s1, _r in d.run(s0, 'set_header', m, t, T.S('value')):
                one_name(ctx, d, s1, m, n, t, n in listed or n in deleted, loc, loc2)
    ctx.functions |= d.functions()


def one_name(ctx, d, s, m, n, t, ours, loc, loc2):
    ip = d.ip
    for s1, c in d.run(s.copy(), 'current', m):
        xs = {low(x[1]): x[2] for x in ip.exact_items(s1, ('view', 'items', c))}
        if xs != ({n: T.S('value')} if ours else {}):
            ctx.violation('listed' if ours else 'untouched', loc2, 'of a message with %s only, '
                          '%s are listed' % (t[2], sorted(xs) or 'no headers'))
        else:
            ctx.holds('listed' if ours else 'untouched')
    for s1, r in d.run(s.copy(), 'remove_some', m, T.FALSE, T.FALSE):
        hs = message_headers(s1, m)
        if bool(hs) == ours or not ours and hs != message_headers(s, m):
            ctx.violation('removed' if ours else 'untouched', loc, 'the header %s is %s' % (
                t[2], 'not removed' if ours else 'changed'))
        else:
            ctx.holds('removed' if ours else 'untouched')


def cases_of(suffix):
    """(value, value without a notation or None if nothing is left)."""
    rest = T.S('rest')
    for n in NAMES:
        p = n + suffix
        yield T.C(p), None
        yield T.cat([T.C(p + ','), rest]), rest
        yield T.C(p + ',text'), T.C('text')
        yield T.C(p + ','), T.C('')
        for k in NAMES:
            q = k + suffix
            yield T.cat([T.C(p + ',' + q + ','), rest]), T.cat([T.C(q + ','), rest])
            yield T.C(p + ',' + q), T.C(q)
        for v in (p + 'x', p.upper() + ',x', ' ' + p + ',x', 'x,' + p, 'x' + p + ',y', p + ';x',
                  n + '@else.where,x'):
            yield T.C(v), T.C(v)
    for t in (T.C(''), T.cat([T.C('Re: '), rest]), T.C('text')):
        yield t, t


def table(ctx, header):
    d, ip = world(ctx)
    cls = ctx.p.cls('Message').name
    loc = where(ctx.p, cls, 'remove_notations')
    other = 'To' if header == 'Subject' else 'Subject'
    suffix = {'Subject': '', 'To': '@spambayes.invalid'}
    others = [None, 'spam' + suffix[other], 'ham' + suffix[other] + ',x']
    for s0, m in d.run(St(), 'made', T.C('constructor'), T.NONE):
        for v, stripped in cases_of(suffix[header]):
            for o in others:
                s1 = s0
                for name, t in ((header, v), (other, o and T.C(o))):
                    if t is not None:
                        s1 = [s for s, _r in d.run(s1.copy(), 'set_header', m, T.C(name), t)][0]
                for how in ('remove_notations', 'remove_some'):
                    for to, subj in itertools.product((True, False), repeat=2):
                        flags = {'To': to, 'Subject': subj}
                        want = {header: stripped if flags[header] else v}
                        want[other] = None if o is None else T.C(o) if not flags[other] else \
                            T.C('x') if ',' in o else None
                        for s2, r in d.run(s1.copy(), how, m, T.C(to), T.C(subj)):
                            ctx.count('paths')
                            row(ctx, d, s2, r, m, want, flags, {header: v, other: o}, loc)
    ctx.functions |= d.functions()


def row(ctx, d, s, r, m, want, flags, was, loc):
    if s.notes:
        ctx.undecided('notations', loc, s.notes)
        return
    if isinstance(r, Exc):
        ctx.violation('notations', loc, '%s is raised at %s' % (r.name, at(r)))
        return
    for name, w in want.items():
        hs = [h[2] for h in message_headers(s, m) if low(h[1]) == name.lower()]
        if hs != ([] if w is None else [w]):
            ctx.violation('notations', loc, '%s was %s and is %s after removing the notations '
                          'of %s' % (name, T.show(was[name]), [T.show(h) for h in hs],
                                     ' and '.join(n for n in flags if flags[n]) or 'none'))
        else:
            ctx.holds('notations')


# --- C21 -------------------------------------------------------------------------

def check_C21(ctx):
    ctx.explanation = (
        'Abstract interpretation of every way of rendering a message as text, where the email '
        'package renders the message (and its parts) as a string over an alphabet that stands for '
        'all text: CR, LF, a letter, and characters that only look like line ends. All strings up '
        'to a length are taken, on the normal path and on the one where the email package fails. '
        'Nothing is run.')
    ctx.assumptions += [
        'what becomes of a line end depends only on characters next to it: the operations on text '
        'that the interpreter has models for are replacements, regular expressions of bounded '
        'width, splitting and joining']
    ctx.rule('normal', 'every line end of the text is CR LF, the lines are those rendered')
    ctx.rule('fallback', 'so is every line end when the parts are rendered one by one')
    ctx.rule('unchanged', 'text whose line ends are CR LF is left as it is')
    words = texts_of('a\r\n\x0c\u2028', 3) + [t for t in texts_of('a\r\n', 6 if ctx.thorough else 5)
                                             if len(t) > 3]
    n = 8
    ctx.parallel([(way, words[i::n]) for way in RENDERINGS for i in range(n)],
                 lambda c, t: renderings(c, *t))


RENDERINGS = ('as_string', 'as_str', 'as_string_from', 'as_string_mangled')


def texts_of(alphabet, n):
    return [''.join(x) for k in range(n + 1) for x in itertools.product(alphabet, repeat=k)]


def crlf(text):
    return text.replace('\r\n', '\n').replace('\r', '\n').replace('\n', '\r\n')


def renderings(ctx, way, words):
    d, ip = world(ctx)
    loc = where(ctx.p, ctx.p.cls('Message').name, 'as_string')
    now = {}
    ip.rendering = lambda ip, st, m: now['text']
    ip.method_hook = lambda ip, st, recv, name, args, kwargs, node: iter(
        [(st, now['text'])]) if recv[:1] == ('s',) and recv[1].startswith('part') and \
        name in ('as_string', '__str__') else None
    ip.fault_filter = lambda what: what == 'flatten'
    for s0, m in d.run(St(), 'made', T.C('constructor'), T.NONE):
        s1 = s0.copy()
        parts = ip.new_list(s1, [T.S('part1'), T.S('part2')])
        [_x for _x in d.run(s1, 'set_payload', m, parts)]
        s2 = s0.copy()
        one = ip.new_list(s2, [T.S('part1')])
        [_x for _x in d.run(s2, 'set_payload', m, one)]
        for text in words:
            now['text'] = T.C(text)
            for st, n, faults in ((s0, 0, False), (s1, 2, True), (s2, 1, True)):
                if n == 1 and len(text) > 3:
                    continue
                ip.faults = faults
                for s, r in d.run(st.copy(), way, m):
                    ctx.count('paths')
                    rendered_right(ctx, s, r, text, n if any(
                        e[0] == 'fault' for e in s.events) else 0, way, loc)
    ctx.functions |= d.functions()


def rendered_right(ctx, s, r, text, parts, way, loc):
    rule = 'fallback' if parts else 'normal'
    if s.notes:
        ctx.undecided(rule, loc, s.notes)
        return
    if isinstance(r, Exc):
        ctx.violation(rule, loc, '%s raises %s at %s for a rendering of %r%s' % (
            way, r.name, at(r), text, ' in %d parts' % parts if parts else ''))
        return
    if r[0] != 'c' or not isinstance(r[2], str):
        ctx.undecided(rule, loc, 'what becomes of %r: %s' % (text, T.show(r)))
        return
    out = r[2]
    if crlf(out) != out:
        ctx.violation(rule, loc, '%s makes %r of %r%s' % (
            way, out, text, ' in %d parts' % parts if parts else ''))
    elif not parts and out != crlf(text):
        ctx.violation('unchanged' if crlf(text) == text else rule, loc,
                      '%s makes %r of %r' % (way, out, text))
    else:
        ctx.holds(rule)
        if not parts and crlf(text) == text:
            ctx.holds('unchanged')
        if len(text) == 3:
            ctx.sample({'rendered': text, 'text': out, 'parts': parts}, 6)


# --- C22 -------------------------------------------------------------------------

def check_C22(ctx):
    ctx.explanation = (
        'Abstract interpretation of add_sb_headers() for lists of clues with symbolic words, '
        'scores and cutoffs. The value of every header added is a term; each part of it must be '
        'of a form that cannot have a line break in it, and its clues must be those that the '
        'facts on the path demand, in order. For the exception header every short text over an '
        'alphabet that stands for all text is taken as the details. Nothing is run.')
    ctx.assumptions += [
        'repr(), str() of bytes, numbers and email.header.Header.encode() have no line break that '
        'is not followed by white space', 'text in clues can be encoded',
        'ids that a caller gives have no line breaks']
    ctx.rule('safe', 'no part of a header that comes from outside is put in as it is')
    ctx.rule('folding', 'line breaks of the header itself are followed by white space')
    ctx.rule('clues', 'the clues within the cutoff are listed, each with its score, in order, '
             'and no others')
    ctx.rule('accepted', 'headers are added whatever the clues are')
    ctx.rule('exception', 'the details of an exception add one header and change nothing else')
    tasks = [('clues', ks) for n in range(4) for ks in itertools.product(
        ('bytes', 'str', 'ham'), repeat=n)]
    tasks += [('clues', ks) for ks in (('spam', 'str'), ('both', 'tuple'), ('textham', 'bytes'),
                                       ('bytes',) * 4, ('empty', 'none'))]
    tasks += [('details', i) for i in range(8)]
    ctx.parallel(tasks, lambda c, t: evidence(c, t[1]) if t[0] == 'clues' else details(c, t[1]))


EVIDENCE = 'X-Spambayes-Evidence'
KINDS = {'ham': (T.C(b'*H*'),), 'spam': (T.C(b'*S*'),), 'textham': (T.C('*H*'),),
         'both': (T.C(b'*H*'), T.C(b'*S*')), 'empty': (T.C(b''), T.C('')),
         'none': (T.C('None'),)}
SPECIAL = (T.C(b'*H*'), T.C(b'*S*'))


def evidence(ctx, kinds):
    d, ip = world(ctx)
    loc = where(ctx.p, ctx.p.cls('Message').name, 'add_sb_headers')
    words = []
    for i, k in enumerate(kinds):
        if k in KINDS:
            words.extend(KINDS[k])
        elif k == 'tuple':
            ip.sorts['word%d' % i] = 'bytes'
            words.append(T.S('word%d' % i))
        else:
            ip.sorts['word%d' % i] = k
            words.append(T.S('word%d' % i))
    clues = []
    for i, w in enumerate(words):
        ip.sorts['score%d' % i] = 'float'
        clues.append((w, T.S('score%d' % i)))
    ip.sorts.update(cutoff='float', digits='int')
    st = probability(ip, St())
    for atom in (('le', False, T.C(0.0), T.S('cutoff')), ('le', False, T.S('cutoff'), T.C(0.5))):
        st = ip.assume(atom, True, st)
    listing = [('tup', w, x) for w, x in clues]
    for cutoff, prob in ((T.S('cutoff'), T.C(0.5)), (T.C(0.5), T.C(0.5))) + (
            ((T.C(0.1), T.S('prob')),) if len(kinds) < 2 else ()):
        for s0, m in message(d, st.copy(), 'bare' if len(kinds) > 1 else 'full'):
            for shape in ('tup', 'list') if len(kinds) < 3 else ('tup',):
                s1 = s0.copy()
                cs = ('tup',) + tuple(listing) if shape == 'tup' else ip.new_list(s1, listing)
                extra = dict(score=T.TRUE, log=T.TRUE, thermostat=T.TRUE, digits=T.S('digits')) \
                    if prob[0] == 's' else {}
                n = len(s1.events)
                for s, r in d.run(s1, 'add', m, *options(
                        prob=prob, clues=cs, evidence=T.TRUE, cutoff=cutoff, **extra)):
                    ctx.count('paths')
                    evidence_right(ctx, ip, s, r, n, clues, cutoff, loc)
    ctx.functions |= d.functions()


def evidence_right(ctx, ip, s, r, n, clues, cutoff, loc):
    if s.notes:
        ctx.undecided('clues', loc, s.notes)
        return
    if isinstance(r, Exc):
        ctx.violation('accepted', loc, '%s is raised at %s' % (r.name, at(r)))
        return
    ctx.holds('accepted')
    added = [e for e in s.events[n:] if e[0] == 'header']
    for e in added:
        whole(ctx, ip, s, e, loc)
    mine = [e[3] for e in added if low(e[2]) == EVIDENCE.lower()]
    if len(mine) != 1:
        ctx.violation('clues', loc, 'there are %d evidence headers' % len(mine))
        return
    want = []
    for w, x in clues:
        tell = any(w == z or ip.eq(w, z, s) is True for z in SPECIAL) or ip.decide(('le', False, x, cutoff), s)
        if tell is not True:
            high = ip.decide(('le', False, T.rsub(T.C(1), cutoff), x), s)
            tell = True if high is True else None if None in (tell, high) else False
        want.append(tell)
    got = clues_in(mine[0], clues)
    missing = [i for i, t in enumerate(want) if t is not False and i not in got]
    more = [i for i in got if want[i] is not True]
    if missing:
        w, x = clues[missing[0]]
        ctx.violation('clues', loc, 'the clue %s, %s is not listed among %d, cutoff %s' % (
            T.show(w), T.show(x), len(clues), T.show(cutoff)))
    elif more:
        w, x = clues[more[0]]
        ctx.violation('clues', loc, 'the clue %s, %s is listed, cutoff %s' % (
            T.show(w), T.show(x), T.show(cutoff)))
    elif got != sorted(set(got)):
        ctx.violation('clues', loc, 'the order of the clues is %s' % got)
    else:
        ctx.holds('clues')
        ctx.sample({'clues': [T.show(w) for w, _x in clues], 'value': T.show(mine[0])[:300]}, 6)


def clues_in(value, clues):
    """Numbers of the clues in the value, in order, by their scores."""
    out = []
    for part in value[1:] if value[0] == 'cat' else [value]:
        for i, (_w, x) in enumerate(clues):
            if T.mentions(part, lambda t, x=x: t == x):
                out.append(i)
    return out


def whole(ctx, ip, s, e, loc):
    """Checks that the value of the header is one header value."""
    name, v = e[2][2] if e[2][0] == 'c' else T.show(e[2]), e[3]
    parts = list(v[1:]) if v[0] == 'cat' else [v]
    for i, p in enumerate(parts):
        if p[0] == 'c':
            if isinstance(p[2], bytes):
                ctx.violation('safe', loc, 'bytes are put into the header %s' % name)
                return
            text = str(p[2])
            after = parts[i + 1] if i + 1 < len(parts) else None
            if after is not None and after[0] == 'c':
                text += str(after[2])
            for j, ch in enumerate(str(p[2])):
                if ch in '\r\n' and text[j + 1:j + 2] not in (
                        (' ', '\t', '\n') if ch == '\r' else (' ', '\t')):
                    ctx.violation('folding', loc, 'the line break in %r in the header %s is not '
                                  'followed by white space' % (text, name))
                    return
            continue
        why = harmless(ip, s, p)
        if why is None:
            ctx.undecided('safe', loc, '%s in the header %s' % (T.show(p), name))
            return
        if why is False:
            ctx.violation('safe', loc, '%s is put into the header %s as it is' % (
                T.show(p), name))
            return
    ctx.holds('safe')
    ctx.holds('folding')


def harmless(ip, s, t):
    """True if the text cannot have a bare line break, False if it can."""
    if t[0] == 'fmt':
        if t[1] and t[1][-1] in 'dfFgGeExXo%n':
            return True
        return harmless(ip, s, t[2])
    if t[0] == 'enum' or ip.sort(t, s) in ('int', 'float', 'bool', 'none'):
        return True
    if t[0] == 'c':
        return not any(ch in str(t[2]) for ch in '\r\n')
    if t == T.S('id') or t in (T.S('subject'), T.S('to')):
        return True         # given by the caller, or a header that was there
    if t[0] == 'app':
        if t[1] in ('repr', 'ascii', 'Header.encode', 'hex', 'header', 'oct', 'bin'):
            return True
        if t[1] == 'str':
            return True if ip.sort(t[2], s) == 'bytes' else harmless(ip, s, t[2])
        if t[1] == 'Header':
            return harmless(ip, s, t[2])
        if t[1] == 'repeat':
            return harmless(ip, s, t[2] if ip.sort(t[2], s) == 'str' else t[3])
        if t[1] in ('lower', 'upper', 'title', 'capitalize', 'ljust', 'rjust', 'zfill', 'strip',
                    'lstrip', 'rstrip', 'decode', 'slice'):
            r = harmless(ip, s, t[2])
            return r if r is not False or t[1] != 'slice' else False
        return None
    if t[0] == 'cat':
        rs = [harmless(ip, s, x) for x in t[1:]]
        return False if False in rs else None if None in rs else True
    if t[0] == 's':
        return False
    return None


BREAKS = ('\r\n', '\r', '\n')
PARTS = [('Subject: x\r\nTo: y', 'body\r\nmore'), ('Subject: x\nTo: y', 'body\n\nmore'),
         ('Subject: x', '')]


def lines_of(text):
    return crlf(text).split('\r\n')


def details(ctx, k):
    d, ip = world(ctx)
    f = ctx.p.func('insert_exception_header')
    loc = '%s:%s' % (f.module.rel, f.qual)
    words = texts_of('a\r\n :\x0c\u2028', 3) + [t for t in texts_of(
        'a\r\n', 6 if ctx.thorough else 5) if len(t) > 3]
    words = ['E' + w + 'X: y' for w in words] + words[:60]
    for text in words[k::8]:
        ip.traceback = T.C(text)
        for headers, body in PARTS:
            for i in (T.NONE, T.C('mid')):
                if len(text) > 7 and (i == T.NONE or headers != PARTS[1][0]):
                    continue
                sep = '\r\n\r\n' if '\r' in headers else '\n\n'
                mail = headers + (sep + body if body else '')
                for s, r in d.run(St(), 'with_exception', T.C(mail), i):
                    ctx.count('paths')
                    exception_right(ctx, s, r, text, headers, body, i, loc)
    ctx.functions |= d.functions()


def exception_right(ctx, s, r, text, headers, body, i, loc):
    if s.notes:
        ctx.undecided('exception', loc, s.notes)
        return
    if isinstance(r, Exc):
        ctx.violation('exception', loc, 'the details %r raise %s at %s' % (text, r.name, at(r)))
        return
    if r[0] != 'tup' or any(x[0] != 'c' for x in r[1:]):
        ctx.undecided('exception', loc, 'the details %r: %s' % (text, T.show(r)))
        return
    out = lines_of(r[1][2])
    had = [x.split(':')[0] for x in lines_of(headers)]
    want = had + ['X-Spambayes-Exception'] + (['X-Spambayes-MailId'] if i != T.NONE else [])
    if '' not in out:
        ctx.violation('exception', loc, 'the details %r leave no end of the headers' % text)
        return
    n = out.index('')
    names = [x.split(':')[0] for x in out[:n] if x[:1] not in (' ', '\t')]
    if names != want:
        ctx.violation('exception', loc, 'the details %r make the headers %s' % (text, names))
    elif out[n + 1:] != lines_of(body):
        ctx.violation('exception', loc, 'the details %r make the body %r' % (text, out[n + 1:]))
    else:
        ctx.holds('exception')
