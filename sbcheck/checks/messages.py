"""C17: trainers. C18-C22: messages and the headers added to them."""
from .. import terms as T
from ..disk import Disk
from ..driver import Driver
from ..state import St, Exc
from ..setup import where, at

SOURCE = '''
from sbclassifier.classifiers.basic import Classifier
from sbclassifier.corpora.base import Corpus
from sbclassifier.message import Classification
from sbclassifier.message import from_bytes
from sbclassifier.message import from_path
from sbclassifier.message import from_string
from sbclassifier.message import Message
from sbclassifier.trainers import HamTrainer
from sbclassifier.trainers import SpamTrainer
from sbclassifier.trainers import Trainer


class Store:
    def __init__(self):
        self.d = {}
    def __len__(self):
        return len(self.d)
    def put(self, key, value):
        self.d[key] = value
    def pop(self, key):
        return self.d.pop(key)
    def __getitem__(self, key):
        return self.d[key]


class Spy(Classifier):
    def __init__(self, refuses=False):
        super().__init__()
        self.log = []
        self.refuses = refuses
    def learn(self, wordstream, is_spam):
        words = list(wordstream)
        if self.refuses:
            raise ValueError('refused')
        self.log.append(('learn', is_spam, words))
    def unlearn(self, wordstream, is_spam):
        words = list(wordstream)
        if self.refuses:
            raise ValueError('refused')
        self.log.append(('unlearn', is_spam, words))


class World:
    pass

def world(how, label, refuses, once):
    w = World()
    w.a, w.b, w.c = Corpus(Store()), Corpus(Store()), Corpus(Store())
    w.spy = Spy(refuses)
    w.other = Spy(False)
    some = [w.a, w.b]
    corpora = (x for x in some) if once else some
    if how == 'positional':
        w.trainer = Trainer(w.spy, label, corpora)
    elif how == 'keyword':
        w.trainer = Trainer(classifier=w.spy, is_spam=label, corpora=corpora)
    elif how == 'named':
        w.trainer = (SpamTrainer if label else HamTrainer)(w.spy, corpora)
    else:
        w.trainer = (SpamTrainer if label else HamTrainer)(classifier=w.spy, corpora=corpora)
    w.second = Trainer(w.other, not label, [w.c])
    return w

def with_id(name, mark):
    m = Message(name)
    m.t = mark
    return m

def corpus(w, which):
    return w.a if which == 'a' else w.b if which == 'b' else w.c

def add(w, which, m):
    corpus(w, which).add_message(m)

def add_as(w, which, m):
    corpus(w, which).add_message(m, message_id='key')

def add_quietly(w, which, m):
    corpus(w, which).add_message(m, emit_signal=False)

def remove(w, which, m):
    corpus(w, which).remove_message(m)

def made(how, i):
    if how == 'constructor':
        return Message(i)
    if how == 'keyword':
        return Message(message_id=i)
    if how == 'bytes':
        return from_bytes(b'text', i)
    if how == 'bytes keyword':
        return from_bytes(b'text', message_id=i)
    if how == 'string':
        return from_string('text', i)
    if how == 'string keyword':
        return from_string('text', message_id=i)
    if how == 'path':
        return from_path('/tmp/m.txt', i)
    if how == 'path keyword':
        return from_path('/tmp/m.txt', message_id=i)

def made_without(how):
    if how == 'constructor':
        return Message()
    if how == 'bytes':
        return from_bytes(b'text')
    if how == 'string':
        return from_string('text')
    if how == 'path':
        return from_path('/tmp/m.txt')

def set_id(m, i):
    m.set_id(i)

def get_id(m):
    return m.id()

def set_header(m, name, v):
    m[name] = v

def id_from_header(m):
    return m.set_id_from_payload()

def observe(w, m):
    return w.spy.log, w.other.log, m.is_trained()
'''


def world(ctx):
    d = Driver(ctx.p, SOURCE)
    d.ip.files = Disk()
    return d, d.ip


def start(ip, files=()):
    st = St()
    ip.files.install(st, dict(files), ('/', '/tmp', '/cwd'))
    return st


# --- C17 -------------------------------------------------------------------------

def check_C17(ctx):
    ctx.explanation = (
        'Abstract interpretation of corpora, signals and trainers together: two corpora of the '
        'trainer and one of another trainer, messages with every mark, every way to make a '
        'trainer; the calls of the classifier, with label and tokens, and the mark of the message '
        'on each path are compared with what is required, also when the classifier refuses. '
        'Nothing is run.')
    ctx.assumptions += [
        'blinker calls each receiver connected for the sender once, as long as it is alive; it '
        'does not keep functions alive that nothing else refers to']
    ctx.rule('learned', 'a message added to a corpus of the trainer is learned once, with its '
             'label and the tokens of the message')
    ctx.rule('unlearned', 'a message removed from one is unlearned once, in the same way')
    ctx.rule('only these', 'the trainer does nothing for other corpora')
    ctx.rule('mark', 'the message remembers the label after training and none after untraining')
    ctx.rule('refused', 'if the classifier refuses, the error is raised and the mark stays')
    tasks = [(how, label, once) for how in ('positional', 'keyword', 'named', 'named keyword')
             for label in (True, False) for once in (False, True)]
    ctx.parallel(tasks, lambda c, t: trainer(c, *t))


def tokens_of(ip, st, args, kwargs, node):
    """The tokens of a message depend on what it is at the time."""
    args = list(args)
    m = args.pop(0) if args else kwargs['message']
    options = tuple(args) + tuple(('tup', T.C(k), v) for k, v in sorted(kwargs.items())
                                  if k != 'message')
    hs = st.heap[m].attrs.get('~headers', T.NONE) if m[0] == 'ref' else T.NONE
    yield st, ip.new_list(st, [T.app('token', m, hs, T.C(i), *options) for i in range(2)])


def override_tokenizer(p, ip):
    call = p.find_method(p.cls('Tokenizer').name, '__call__')
    ip.call_override[call.fid] = lambda ip, st, args, kwargs, node: tokens_of(
        ip, st, args[1:], kwargs, node)


def trainer(ctx, how, label, once):
    d, ip = world(ctx)
    override_tokenizer(ctx.p, ip)
    cls = ctx.p.cls('Trainer').name
    for refuses in (False, True):
        st = start(ip)
        for s, w in d.run(st, 'world', T.C(how), T.C(label), T.C(refuses), T.C(once)):
            if isinstance(w, Exc):
                ctx.violation('learned', where(ctx.p, cls, '__init__'),
                              'creating a trainer raises %s at %s' % (w.name, at(w)))
                continue
            for which in 'abc':
                for mark in (T.NONE, T.TRUE, T.FALSE):
                    for what in ('add', 'add_as', 'add_quietly', 'remove', 'twice'):
                        case(ctx, d, s.copy(), w, which, mark, what, label, refuses)
    ctx.functions |= d.functions()


def case(ctx, d, st, w, which, mark, what, label, refuses):
    ip = d.ip
    cls = ctx.p.cls('Trainer').name
    loc = where(ctx.p, cls, 'untrain' if what == 'remove' else 'train')
    ours = which != 'c'
    for s, m in d.run(st, 'with_id', T.C('id'), mark):
        if what == 'remove':
            pre = [x for x, _r in d.run(s, 'add_quietly', w, T.C(which), m)]
            steps = ['remove']
        else:
            pre = [s]
            steps = ['add', 'add'] if what == 'twice' else [what]
        for s0 in pre:
            states = [(s0, None)]
            for step in steps:
                states = [(s2, r2) for s1, r1 in states if not isinstance(r1, Exc)
                          for s2, r2 in d.run(s1, step, w, T.C(which), m)] + \
                         [x for x in states if isinstance(x[1], Exc)]
            for s1, r in states:
                for s2, o in d.run(s1, 'observe', w, m):
                    ctx.count('paths')
                    compare(ctx, ip, s2, r, o, m, mark, what, label, ours, refuses, loc)


def compare(ctx, ip, s, r, o, m, mark, what, label, ours, refuses, loc):
    if s.notes or isinstance(o, Exc):
        ctx.undecided('learned', loc, s.notes or o.name)
        return
    log, other, now = (ip.exact_items(s, o[1]), ip.exact_items(s, o[2]), o[3])
    rule = 'unlearned' if what == 'remove' else 'learned'
    if log is None or other is None:
        ctx.undecided(rule, loc, 'the calls of the classifier are not known')
        return
    quiet = what == 'add_quietly'
    n = 0 if quiet else 2 if what == 'twice' else 1
    hs = s.heap[m].attrs.get('~headers', T.NONE)
    words = [T.app('token', m, hs, T.C(i)) for i in range(2)]

    def right(entry, lab):
        if entry[0] != 'tup' or entry[1] != T.C('unlearn' if what == 'remove' else 'learn'):
            return 'the classifier is asked to %s' % T.show(entry[1])
        if entry[2] != T.C(lab):
            return 'the label is %s' % T.show(entry[2])
        xs = ip.exact_items(s, entry[3])
        if xs is None:
            return '?'
        if set(xs) != set(words):
            return 'the tokens are not those of the message'
        return None
    if ours and refuses and not quiet:
        if not isinstance(r, Exc):
            ctx.violation('refused', loc, 'the error of the classifier is lost')
        elif now != mark:
            ctx.violation('refused', loc, 'the mark changes from %s to %s although the '
                          'classifier refused' % (T.show(mark), T.show(now)))
        else:
            ctx.holds('refused')
        return
    if isinstance(r, Exc):
        ctx.violation(rule, loc, '%s is raised at %s' % (r.name, at(r)))
        return
    mine, others = (log, other) if ours else (other, log)
    lab = label if ours else not label
    if others:
        ctx.violation('only these', loc, 'a message of another corpus is %sed' % rule[:-2])
    else:
        ctx.holds('only these')
    if len(mine) != n:
        ctx.violation(rule, loc, '%s: the classifier is called %d times instead of %d '
                      '(mark before: %s)' % (what, len(mine), n, T.show(mark)))
        return
    for e in mine:
        why = right(e, lab)
        if why == '?':
            ctx.undecided(rule, loc, 'the tokens given to the classifier are not known')
            return
        if why:
            ctx.violation(rule, loc, '%s: %s' % (what, why))
            return
    ctx.holds(rule)
    want = mark if quiet else T.NONE if what == 'remove' else T.C(lab)
    if now != want:
        ctx.violation('mark', loc, 'after %s the mark is %s instead of %s' % (
            what, T.show(now), T.show(want)))
    else:
        ctx.holds('mark')
        ctx.sample({'what': what, 'label': lab, 'calls': [T.show(e) for e in mine],
                    'mark': T.show(now)}, 6)


# --- C18 -------------------------------------------------------------------------

#: Keys of the databases that messages were kept in.
RESERVED = ('Statistics start date', 'Persistent statistics')
MAILID = 'X-Spambayes-MailId'
WAYS = ('constructor', 'keyword', 'bytes', 'bytes keyword', 'string', 'string keyword',
        'path', 'path keyword')


def check_C18(ctx):
    ctx.explanation = (
        'Abstract interpretation of Message.set_id(), set_id_from_payload(), the constructor and '
        'the functions that make messages, for a symbolic string, the reserved keys, the empty '
        'string and values of all other kinds, after every kind of earlier id. On each path the '
        'facts on it must decide whether the id has to be accepted. Nothing is run.')
    ctx.rule('accepted', 'a string that is not reserved is accepted as the first id, and is the '
             'id from then on')
    ctx.rule('refused', 'anything else, and any change, is refused with an error')
    ctx.rule('kept', 'a refused attempt leaves the id as it was')
    ctx.rule('created', 'a message created with an id has it; one created without has none')
    ctx.rule('from header', 'taking the id from the header gives the value of the header or '
             'None, without an error')
    ctx.parallel(['set', 'make', 'header'], lambda c, t: {
        'set': set_ids, 'make': make_ids, 'header': header_ids}[t](c))


def candidates(ip, st):
    """(name, term) of values given as ids."""
    ip.sorts['id'] = 'str'
    ip.sorts['number'] = 'int'
    ip.sorts['octets'] = 'bytes'
    ip.sorts['real'] = 'float'
    return [('a string', T.S('id')), ('the empty string', T.C('')), ('None', T.NONE),
            ('an int', T.S('number')), ('bytes', T.S('octets')), ('empty bytes', T.C(b'')),
            ('zero', T.C(0)), ('False', T.FALSE), ('True', T.TRUE), ('a float', T.S('real')),
            ('a tuple', ('tup', T.C('x'))), ('a list', ip.new_list(st, [T.C('x')])),
            ('a header', T.app('Header', T.S('h')))] + [(repr(x), T.C(x)) for x in RESERVED]


def string(ip, t, s):
    return ip.sort(t, s) == 'str'


def verdict(ip, s, old, new):
    """True if the id has to be accepted, False if not, None if the facts on
    the path do not tell."""
    if not string(ip, new, s):
        return False
    same = True if old == T.NONE else ip.eq(old, new, s)
    if same is False:
        return False
    if same is True and old != T.NONE:
        return True     # The old id is not reserved.
    res = [ip.eq(new, T.C(x), s) for x in RESERVED]
    if True in res:
        return False
    if None in res or same is None:
        return None
    return True


def outcome(ctx, ip, s, r, old, new, now, loc, name):
    """Checks the result of an attempt to set the id."""
    ctx.count('paths')
    if s.notes:
        ctx.undecided('refused', loc, '%s: %s' % (name, s.notes))
        return
    v = verdict(ip, s, old, new)
    if isinstance(r, Exc):
        if v is not False:
            ctx.violation('accepted', loc, '%s as id after %s is refused with %s at %s' % (
                name, T.show(old), r.name, at(r)))
        else:
            ctx.holds('refused')
        if now != old:
            ctx.violation('kept', loc, 'the id is %s after %s was refused; it was %s' % (
                T.show(now), name, T.show(old)))
        else:
            ctx.holds('kept')
    else:
        if v is not True:
            ctx.violation('refused', loc, '%s is accepted as id after %s' % (name, T.show(old)))
        elif now != new and ip.eq(now, new, s) is not True:
            ctx.violation('accepted', loc, 'the id is %s after it was set to %s' % (
                T.show(now), T.show(new)))
        else:
            ctx.holds('accepted')


def set_ids(ctx):
    d, ip = world(ctx)
    loc = where(ctx.p, ctx.p.cls('Message').name, 'set_id')
    ip.sorts['previous'] = 'str'
    st = start(ip)
    for s0, m in d.run(st, 'made_without', T.C('constructor')):
        for old in (T.NONE, T.C('old'), T.C(''), T.S('previous')):
            s1 = s0.copy()
            starts = [s1]
            if old != T.NONE:
                starts = [s for s, r in d.run(s1, 'set_id', m, old) if not isinstance(r, Exc)]
                if not starts:
                    ctx.violation('accepted', loc, 'the first id %s is refused' % T.show(old))
            for s2 in starts:
                s3 = s2.copy()
                for name, new in candidates(ip, s3):
                    for s4, r in d.run(s3.copy(), 'set_id', m, new):
                        for s5, now in d.run(s4, 'get_id', m):
                            outcome(ctx, ip, s5, r, old, new, now, loc, name)
                            ctx.sample({'id before': T.show(old), 'set to': name,
                                        'raises': r.name if isinstance(r, Exc) else None,
                                        'id': T.show(now)})
    ctx.functions |= d.functions()


def make_ids(ctx):
    d, ip = world(ctx)
    loc = where(ctx.p, ctx.p.cls('Message').name, '__init__')
    st = start(ip, {'/tmp/m.txt': T.S('mail')})
    ip.sorts['mail'] = 'bytes'
    for how in WAYS:
        s0 = st.copy()
        for name, new in candidates(ip, s0):
            for s, m in d.run(s0.copy(), 'made', T.C(how), new):
                if isinstance(m, Exc):
                    if new == T.NONE:
                        ctx.violation('created', loc, '%s with None as id raises %s at %s' % (
                            how, m.name, at(m)))
                    else:
                        outcome(ctx, ip, s, m, T.NONE, new, T.NONE, loc, name)
                    continue
                for s1, now in d.run(s, 'get_id', m):
                    if new == T.NONE:
                        if s1.notes:
                            ctx.undecided('created', loc, s1.notes)
                        elif now != T.NONE:
                            ctx.violation('created', loc, '%s without an id: %s' % (
                                how, T.show(now)))
                        else:
                            ctx.holds('created')
                    else:
                        outcome(ctx, ip, s1, None, T.NONE, new, now, loc, name)
    for how in ('constructor', 'bytes', 'string', 'path'):
        for s, m in d.run(st.copy(), 'made_without', T.C(how)):
            if isinstance(m, Exc):
                ctx.violation('created', loc, '%s without an id raises %s at %s' % (
                    how, m.name, at(m)))
                continue
            for s1, now in d.run(s, 'get_id', m):
                if now != T.NONE:
                    ctx.violation('created', loc, '%s without an id: %s' % (how, T.show(now)))
                else:
                    ctx.holds('created')
    ctx.functions |= d.functions()


def header_ids(ctx):
    d, ip = world(ctx)
    loc = where(ctx.p, ctx.p.cls('Message').name, 'set_id_from_payload')
    ip.sorts['previous'] = 'str'
    for how in ('constructor', 'bytes'):
        for s0, m in d.run(start(ip), 'made_without', T.C(how)):
            for old in (T.NONE, T.C('old'), T.S('previous')):
                starts = [s0.copy()]
                if old != T.NONE:
                    starts = [s for s, r in d.run(s0.copy(), 'set_id', m, old)
                              if not isinstance(r, Exc)]
                ip.sorts['id'] = 'str'
                for name, v in [('no header', None), ('a string', T.S('id')),
                                ('the empty string', T.C('')),
                                ('a header', T.app('Header', T.S('h')))] + \
                        [(repr(x), T.C(x)) for x in RESERVED]:
                    if how == 'bytes' and v is not None:
                        continue
                    for s1 in starts:
                        ss = [s1.copy()]
                        if v is not None:
                            ss = [x for x, _r in d.run(s1.copy(), 'set_header', m,
                                                       T.C(MAILID), v)]
                        for s2 in ss:
                            from_header(ctx, d, s2, m, old, v, how, name, loc)
    ctx.functions |= d.functions()


def from_header(ctx, d, st, m, old, v, how, name, loc):
    ip = d.ip
    for s, r in d.run(st, 'id_from_header', m):
        ctx.count('paths')
        if isinstance(r, Exc):
            if s.notes:
                ctx.undecided('from header', loc, s.notes)
            else:
                ctx.violation('from header', loc, '%s is raised at %s (%s, id %s)' % (
                    r.name, at(r), name, T.show(old)))
            continue
        for s1, now in d.run(s, 'get_id', m):
            if s1.notes:
                ctx.undecided('from header', loc, '%s: %s' % (name, s1.notes))
                continue
            h = v
            if how == 'bytes':
                # Whatever the message has in its header.
                h = now if T.mentions(now, lambda t: isinstance(t, tuple) and len(t) > 1 and
                                      t[:2] == ('app', 'header')) else None
                if h is not None and MAILID.lower() not in repr(h):
                    ctx.violation('from header', loc, 'the id is %s' % T.show(h))
                    continue
            if r == T.NONE:
                if now != old:
                    ctx.violation('kept', loc, 'None is returned, but the id is %s' %
                                  T.show(now))
                elif v is not None and verdict(ip, s1, old, v) is not False:
                    ctx.violation('from header', loc, 'the header (%s) is not taken' % name)
                else:
                    ctx.holds('from header')
            elif h is None and ip.eq(r, now, s1) is True and now == old:
                # The header has the id that the message has already.
                ctx.holds('from header')
            elif h is None or any(x != h and ip.eq(x, h, s1) is not True for x in (r, now)):
                ctx.violation('from header', loc, '%s is returned and the id is %s for %s' % (
                    T.show(r), T.show(now), name))
            elif v is not None and verdict(ip, s1, old, v) is not True:
                ctx.violation('refused', loc, 'the header (%s) is taken after %s' % (
                    name, T.show(old)))
            else:
                ctx.holds('from header')
