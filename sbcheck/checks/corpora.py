"""C14, C15, C16: directory corpora, containment, notification."""
import posixpath
from collections import deque

from .. import terms as T
from ..disk import Disk, DISK
from ..driver import Driver, canon
from ..state import St, Exc
from ..setup import where, at

SOURCE = '''
from sbclassifier.corpora import message_added
from sbclassifier.corpora import message_removed
from sbclassifier.corpora.base import Corpus
from sbclassifier.corpora.filesystem import FileCorpus
from sbclassifier.corpora.filesystem import ExpiryFileCorpus
from sbclassifier.message import from_bytes
from sbclassifier.message import Message

DIR = '/mail/spam'


class Bad(Message):
    def as_bytes(self, *args, **kw):
        raise LookupError('unknown encoding')

    def as_string(self, *args, **kw):
        raise LookupError('unknown encoding')

    def __bytes__(self):
        raise LookupError('unknown encoding')

    def __str__(self):
        raise LookupError('unknown encoding')


def make(n):
    return FileCorpus(DIR, '*.txt', cache_size=n)

def make_positional(n):
    return FileCorpus(DIR, '*.txt', n)

def make_default():
    return FileCorpus(DIR, namefilter='*.txt')

def make_expiry(n, before):
    return ExpiryFileCorpus(before, DIR, '*.txt', cache_size=n)

def add(c, k, v):
    c.add_message(from_bytes(v, k))

def add_as(c, k, v):
    c.add_message(from_bytes(v, k), message_id=k)

def add_bad(c, k):
    c.add_message(Bad(k))

def remove(c, k):
    c.remove_message(Message(k))

def remove_found(c, k):
    c.remove_message(c[k])

def item(c, k):
    return c[k]

def get(c, k):
    return c.get(k)

def contains(c, k):
    return k in c

def sweep(c):
    c.remove_expired_messages()

def look(c, ks):
    found = []
    for k in ks:
        try:
            m = c[k]
            v = (True, m.id(), m.as_bytes())
        except KeyError:
            v = (False, None, None)
        g = c.get(k)
        d = c.get(k, 'default')
        found.append((v, None if g is None else g.as_bytes(),
                      d if isinstance(d, str) else d.as_bytes(), k in c))
    return (len(c), [k for k in c], list(c.keys()), [m.as_bytes() for m in c.values()],
            [(k, m.id(), m.as_bytes()) for k, m in c.items()], found)


class Spy:
    """A store for a corpus."""
    def __init__(self, fails):
        self.log = []
        self.fails = fails

    def __len__(self):
        return 0

    def put(self, key, value):
        if self.fails:
            raise OSError('disk full')
        self.log.append(('put', key, value))

    def pop(self, key):
        if self.fails:
            raise OSError('disk full')
        self.log.append(('pop', key))


def corpus(fails):
    spy = Spy(fails)
    return spy, Corpus(spy)

def corpus_keyword(fails):
    spy = Spy(fails)
    return spy, Corpus(cache=spy)

def plain_corpus():
    c = Corpus()
    return c.message_cache, c

def listen(c, log):
    def on_added(corpus, message):
        log.append(('added', corpus, message))
    def on_removed(corpus, message):
        log.append(('removed', corpus, message))
    message_added.connect(on_added, sender=c, weak=False)
    message_removed.connect(on_removed, sender=c, weak=False)

def attempt(f):
    try:
        f()
    except Exception:
        return 'failed'
    return 'done'

def change(c, spy, what, m, key, emit):
    listen(c, spy.log)
    if what == 'add':
        return attempt(lambda: c.add_message(m))
    if what == 'add as':
        return attempt(lambda: c.add_message(m, key))
    if what == 'add quietly':
        return attempt(lambda: c.add_message(m, emit_signal=emit))
    if what == 'add as quietly':
        return attempt(lambda: c.add_message(m, key, emit))
    if what == 'remove':
        return attempt(lambda: c.remove_message(m))
    if what == 'remove quietly':
        return attempt(lambda: c.remove_message(m, emit))

def logged(spy):
    return spy.log

def watch(c):
    """Whether the change has been made when it is announced."""
    log = []
    def on_added(corpus, message):
        log.append(('added', message.id() in corpus))
    def on_removed(corpus, message):
        log.append(('removed', message.id() in corpus))
    message_added.connect(on_added, sender=c, weak=False)
    message_removed.connect(on_removed, sender=c, weak=False)
    return log

def message(k, v):
    return from_bytes(v, k)

def message_bare():
    return Message()
'''

DIR = '/mail/spam'
KEYS = [T.C('a.txt'), T.C('b.txt'), T.C('old.txt')]
OUTSIDE = {'/mail/victim.txt': T.S('victim'), '/mail/other/x.txt': T.S('other'),
           '/etc/passwd.txt': T.S('passwd'), '/mail/spam/sub/x.txt': T.S('sub'),
           '/mail/spamx.txt': T.S('spamx')}
DIRS = ('/', '/mail', '/mail/spam', '/mail/other', '/mail/spam/sub', '/mail/spam/dir.txt', '/etc',
        '/mail/spam/dir.txt/y.txt')
#: Names that are not files in the directory, or do not match the filter.
HOSTILE = ['../victim.txt', '../other/x.txt', '/etc/passwd.txt', 'sub/x.txt', 'sub/new.txt',
           'sub/../../victim.txt', './a.txt', 'a.txt/', '/mail/spam/../victim.txt', '../new.txt',
           '/mail/spam/a.txt', '../spam/a.txt', '..', '.', '', 'skip.bak', 'new.bak', 'a.txt.bak',
           'sub/../a.txt', '..//victim.txt', '../spamx.txt', b'../victim.txt', None, 7]


def world(ctx):
    d = Driver(ctx.p, SOURCE)
    ip = d.ip
    ip.files = Disk()
    for n in ('v0', 'v1', 'old', 'skip', 'victim', 'other', 'passwd', 'sub', 'spamx', 'v'):
        ip.sorts[n] = 'bytes'
    return d, ip


def start(ip, files):
    st = St()
    d = dict(OUTSIDE)
    for k, v in files.items():
        d[DIR + '/' + k] = v
    ip.files.install(st, d, DIRS)
    return st


def shown(model):
    return '[%s]' % ', '.join('%s' % k[2] for k, _v in model)


def report(ctx, s, rule, loc, why):
    if s.notes:
        ctx.undecided(rule, loc, s.notes)
    else:
        ctx.violation(rule, loc, why)


# --- C14 -------------------------------------------------------------------------

def check_C14(ctx):
    ctx.explanation = (
        'Abstract interpretation of FileCorpus and FileCache through a client program, on a file '
        'system whose files have symbols as content: the fixpoint of the states that any sequence '
        'of adding (also of messages that cannot be serialized), removing and looking up reaches, '
        'with caches of one entry, two and the default; in each state, the files and every way '
        'of reading the corpus are compared with a reference model. Expiry is followed with '
        'symbolic times. Nothing is run.')
    ctx.assumptions += ['three names stand for any number of them, a cache of one or two entries '
                        'for any size', 'files are changed by the corpus only while it exists',
                        'writing a file succeeds']
    ctx.rule('durable', 'the directory holds exactly the messages added and not removed, and what '
             'else was in it')
    ctx.rule('visible', 'counting, listing and looking up give the files that match the filter')
    ctx.rule('expiry', 'a message is removed by expiry exactly if its file is older than the limit')
    ctx.parallel([('make', 1, False), ('make', 2, True), ('make_default', None, True),
                  ('make_positional', 1, True), ('expiry', 1, False), ('expiry', 2, True)],
                 lambda c, t: (sweep if t[0] == 'expiry' else explore)(c, *t))


def explore(ctx, maker, size, old):
    d, ip = world(ctx)
    St.only = {'fs'}
    loc = where(ctx.p, ctx.p.cls('FileCache').name, 'put')
    poploc = where(ctx.p, ctx.p.cls('FileCache').name, 'pop')
    keys = KEYS if old else KEYS[:2]
    vals = [T.S('v0'), T.S('v1')]
    files = {'old.txt': T.S('old'), 'skip.bak': T.S('skip')} if old else {}
    st = start(ip, files)
    todo, seen = deque(), set()

    def push(s, c, model, op):
        s.events = ()
        key = canon(s, c, DISK), model
        if key in seen:
            return
        if len(seen) > 1500:
            ctx.undecided('durable', loc, 'too many states')
            return
        seen.add(key)
        todo.append((s, c, model, op))
    model0 = ((T.C('old.txt'), T.S('old')),) if old else ()
    for s, c in d.run(st, maker, *([T.C(size)] if size else [])):
        if isinstance(c, Exc):
            report(ctx, s, 'visible', loc, 'the constructor raises %s' % c.name)
            continue
        push(s, c, model0, 'making the corpus')
    while todo:
        s, c, model, op = todo.popleft()
        ctx.count('states')
        here = poploc if op.startswith('remov') else loc
        if not stored(ctx, ip, s, model, here, op):
            return
        for s2, v in d.run(s.copy(), 'look', c, ('tup',) + tuple(keys)):
            if not judge(ctx, ip, s2, v, model, keys, here, op):
                return
        cur = dict(model)
        for k in keys:
            for v in vals if k[2] != 'b.txt' else vals[:1]:
                new = dict(cur)
                new[k] = v
                for how in ('add', 'add_as'):
                    for s2, r in d.run(s.copy(), how, c, k, v):
                        ctx.count('transitions')
                        if isinstance(r, Exc):
                            report(ctx, s2, 'durable', loc, 'adding raises %s at %s' % (
                                r.name, at(r)))
                            return
                        push(s2, c, tuple(sorted(new.items())), 'adding %s to %s' % (
                            k[2], shown(model)))
            for s2, r in d.run(s.copy(), 'add_bad', c, k):
                ctx.count('transitions')
                push(s2, c, model, 'adding %s, which cannot be serialized, to %s' % (
                    k[2], shown(model)))
            new = dict(cur)
            new.pop(k, None)
            for how in ('remove', 'remove_found')[:2 if k in cur else 1]:
                for s2, r in d.run(s.copy(), how, c, k):
                    ctx.count('transitions')
                    if isinstance(r, Exc) and k in cur:
                        report(ctx, s2, 'durable', poploc, 'removing raises %s at %s' % (
                            r.name, at(r)))
                        return
                    push(s2, c, tuple(sorted(new.items())), 'removing %s from %s' % (
                        k[2], shown(model)))
            for s2, r in d.run(s.copy(), 'get', c, k):
                push(s2, c, model, 'looking up %s' % k[2])
    ctx.functions |= d.functions()


def stored(ctx, ip, s, model, loc, op):
    """Whether the files are those of the reference model."""
    want = {DIR + '/' + k[2]: v for k, v in model}
    have = {p: v for p, v in ip.files.files(s).items() if p not in OUTSIDE}
    skip = have.pop(DIR + '/skip.bak', None)
    if s.notes:
        ctx.undecided('durable', loc, s.notes)
        return True
    if skip not in (None, T.S('skip')):
        ctx.violation('durable', loc, 'another file is changed by ' + op)
        return False
    if set(have) != set(want):
        ctx.violation('durable', loc, 'the directory holds %s, not %s, after %s' % (
            sorted(map(posixpath.basename, have)), sorted(map(posixpath.basename, want)), op))
        return False
    for p in want:
        if have[p] == want[p]:
            continue
        if T.mentions(have[p], lambda t: t == want[p]):
            ctx.undecided('durable', loc, 'whether %s is the message' % T.show(have[p]))
            continue
        ctx.violation('durable', loc, 'the content of %s is %s after %s' % (
            posixpath.basename(p), T.show(have[p]), op))
        return False
    ctx.holds('durable')
    return True


def judge(ctx, ip, s, v, model, keys, loc, op):
    if isinstance(v, Exc):
        report(ctx, s, 'visible', loc, '%s is raised at %s after %s' % (v.name, at(v), op))
        return False
    n, it, ks, vs, items, found = v[1:]
    lists = [ip.exact_items(s, x) for x in (it, ks, vs, items, found)]
    if any(x is None for x in lists) or n[0] != 'c' or s.notes:
        ctx.undecided('visible', loc, s.notes or 'a list is not known')
        return True
    it, ks, vs, items, found = lists
    want = dict(model)
    unsure = [x for x in vs + [y[3] for y in items] if x[0] != 's']
    if unsure:
        ctx.undecided('visible', loc, 'whether %s is the message' % T.show(unsure[0]))
        return True
    ok = True
    if n[2] != len(model):
        report(ctx, s, 'visible', loc, 'the corpus has %d messages, not %d, after %s' % (
            n[2], len(model), op))
        ok = False
    for name, xs, ws in (('iteration', it, list(want)), ('keys()', ks, list(want)),
                         ('values()', vs, list(want.values())),
                         ('items()', items, [('tup', k, k, x) for k, x in want.items()])):
        if sorted(xs, key=repr) != sorted(ws, key=repr):
            report(ctx, s, 'visible', loc, '%s gives %s, not %s, after %s' % (
                name, ', '.join(map(T.show, xs)), ', '.join(map(T.show, ws)), op))
            ok = False
    for k, f in zip(keys, found):
        v, got, got2, isin = f[1:]
        if k in want:
            # A message stored under another key than its id may still be in memory.
            good = (v[1], v[3], got, got2, isin) == (T.TRUE, want[k], want[k], want[k], T.TRUE) \
                and v[2] in (k, T.NONE)
        else:
            good = (v[1], got, got2, isin) == (T.FALSE, T.NONE, T.C('default'), T.FALSE)
        if not good:
            report(ctx, s, 'visible', loc, 'looking up %s gives %s after %s' % (
                k[2], T.show(f), op))
            ok = False
    if ok:
        ctx.holds('visible')
        ctx.sample({'operation': op, 'messages': shown(model)}, 4)
    return ok


def sweep(ctx, _m, size, before):
    """Expiry, with symbolic times of creation."""
    d, ip = world(ctx)
    loc = where(ctx.p, ctx.p.cls('ExpiryFileCorpus').name, 'remove_expired_messages')
    ip.models = dict(ip.models)

    def now(ip, st, args, kwargs, node):
        yield st, T.S('now')

    def stat(ip, st, args, kwargs, node):
        p = ip.files.path(args[0])
        if ip.files.get(st, args[0]) is None:
            yield ip.raises(st, 'FileNotFoundError', node)
            return
        yield st, T.app('stat', T.C(posixpath.basename(p)))
    ip.models['time.time'] = now
    ip.models['os.stat'] = ip.models['os.lstat'] = stat
    for n in ('getctime',):
        def getctime(ip, st, args, kwargs, node):
            for s, v in stat(ip, st, args, kwargs, node):
                yield s, v if isinstance(v, Exc) else ctime(v)
        ip.models['os.path.' + n] = getctime
    names = ['a.txt', 'b.txt', 'old.txt'] if ctx.thorough else ['a.txt', 'old.txt']
    ip.sorts.update(now='float', limit='float')

    def ctime(v):
        t = T.S('ctime_%s' % v[2][2])
        ip.sorts[t[1]] = 'float'
        return t

    def attr(ip, st, v, name):
        if v[0] == 'app' and v[1] == 'stat' and name == 'st_ctime':
            return ctime(v)
        return None

    def item(ip, st, v, i, node):
        if v[0] == 'app' and v[1] == 'stat':
            if i in (T.C(9), ('ext', 'stat.ST_CTIME')):
                return [(st, ctime(v))]
        return None
    ip.attr_hook = attr
    ip.item_hook = item
    limit = T.S('limit')
    files = {k: T.S('v') for k in names}
    files['skip.bak'] = T.S('skip')
    st = start(ip, files)
    for s0, c in d.run(st, 'make_expiry', T.C(size), limit):
        if isinstance(c, Exc):
            report(ctx, s0, 'expiry', loc, 'the constructor raises %s at %s' % (c.name, at(c)))
            return
        starts = [s0]
        if before:      # some messages are in memory
            starts = [s for s, _r in d.run(s0, 'add', c, T.C('a.txt'), T.S('v'))]
        for s1 in starts:
            for s, r in d.run(s1, 'sweep', c):
                ctx.count('paths')
                if isinstance(r, Exc):
                    report(ctx, s, 'expiry', loc, '%s is raised at %s' % (r.name, at(r)))
                    continue
                if s.notes:
                    ctx.undecided('expiry', loc, s.notes)
                    continue
                have = ip.files.files(s)
                if have.get(DIR + '/skip.bak') != T.S('skip') or \
                        any(have.get(p) != v for p, v in OUTSIDE.items()):
                    ctx.violation('expiry', loc, 'another file is removed')
                    continue
                ok = True
                for k in names:
                    end = T.radd(ctime(T.app('stat', T.C(k))), limit)
                    gone = DIR + '/' + k not in have
                    # On this path, the message must be expired exactly if it is gone.
                    older = ip.le(end, T.S('now'), s, strict=not gone)
                    if older is not gone:
                        ok = False
                        ctx.violation('expiry', loc, '%s is %s although it may %s be older than '
                                      'the limit' % (k, 'removed' if gone else 'kept',
                                                     'not' if gone else 'well'))
                if ok:
                    ctx.holds('expiry')
    ctx.functions |= d.functions()


# --- C15 -------------------------------------------------------------------------

def check_C15(ctx):
    ctx.explanation = (
        'Abstract interpretation of adding, looking up and removing a message with an id that '
        'names something outside of the directory, or does not match the filter, in every way '
        'that such an id can be written; every file operation on every path is checked, and the '
        'state after a refusal is compared with the one before. A second analysis follows a '
        'symbolic id and checks that each path on which it reaches a file operation has tested '
        'that it is a plain name. Nothing is run.')
    ctx.assumptions += ['there are no symbolic links in the directory',
                        'path names are those of POSIX']
    ctx.rule('contained', 'no file outside of the directory is opened, changed or removed')
    ctx.rule('refused', 'an id that is not the name of a file in the directory, or does not match '
             'the filter, is refused with an error, and nothing is changed')
    ctx.rule('guarded', 'a path made from an id is used only where the id has been found to be a '
             'plain name')
    ctx.parallel(['add', 'add_as', 'remove', 'item', 'get', 'contains', 'symbolic'],
                 lambda c, t: symbolic(c) if t == 'symbolic' else hostile(c, t))


TOUCH = ('open', 'remove', 'unlink', 'replace', 'rename', 'truncate', 'mkdir', 'makedirs', 'rmdir',
         'removedirs', 'chmod', 'link', 'symlink', 'utime', 'write', 'read', 'mktemp',
         'shutil.rmtree', 'shutil.copy', 'shutil.copyfile', 'shutil.copy2', 'shutil.move')


def touched(s):
    """(operation, path, site) of each file operation."""
    for e in s.events:
        if e[0] == 'fs' and e[1] in TOUCH:
            n = 2 if e[1] in ('replace', 'rename', 'link', 'symlink', 'shutil.copy',
                              'shutil.copyfile', 'shutil.copy2', 'shutil.move') else 1
            for p in e[2:2 + n]:
                yield e[1], p, e[-1]


def within(path):
    if path[0] != 'c' or not isinstance(path[2], str):
        return None
    p = posixpath.normpath(path[2])
    return posixpath.dirname(p) == DIR


def hostile(ctx, how):
    d, ip = world(ctx)
    name = {'add': 'put', 'add_as': 'put', 'remove': 'pop'}.get(how, '__getitem__')
    loc = where(ctx.p, ctx.p.cls('FileCache').name, name)
    for held in (False, True):
        st = start(ip, {'a.txt': T.S('old'), 'skip.bak': T.S('skip')})
        for s0, c in d.run(st, 'make', T.C(2)):
            if held:
                s0 = [s for s, _r in d.run(s0, 'add', c, T.C('a.txt'), T.S('v'))][0]
            for k in HOSTILE:
                if not isinstance(k, str) and how in ('add', 'remove'):
                    continue        # not an id of a message
                args = [c, T.C(k)] + ([T.S('v')] if how.startswith('add') else [])
                s1 = s0.copy()
                s1.events = ()
                before = canon(s1, c, DISK)
                for s, r in d.run(s1, how, *args):
                    ctx.count('attempts')
                    if s.notes:
                        ctx.undecided('contained', loc, s.notes)
                        continue
                    out = [(op, p, site) for op, p, site in touched(s) if within(p) is False]
                    if out:
                        op, p, site = out[0]
                        ctx.violation('contained', '%s:%s' % site[1:3],
                                      '%s of %s for the id %r' % (op, p[2], k), line=site[3])
                        continue
                    ctx.holds('contained')
                    changed = canon(s, c, DISK) != before
                    refused = isinstance(r, Exc) or how == 'get' and r == T.NONE \
                        or how == 'contains' and r == T.FALSE
                    if not refused:
                        ctx.violation('refused', loc, 'the id %r is accepted' % (k,))
                    elif changed:
                        ctx.violation('refused', loc, 'the id %r changes the corpus, though it is '
                                      'refused' % (k,))
                    else:
                        ctx.holds('refused')
    ctx.functions |= d.functions()


def symbolic(ctx):
    """Paths on which an arbitrary id reaches a file operation."""
    d, ip = world(ctx)
    ip.files = None
    K = T.S('id')
    ip.sorts['id'] = 'str'
    base = T.C(DIR)
    for how in ('add_as', 'remove', 'item', 'get', 'contains'):
        name = {'add_as': 'put', 'remove': 'pop'}.get(how, '__getitem__')
        loc = where(ctx.p, ctx.p.cls('FileCache').name, name)
        for s0, c in d.run(St(), 'make', T.C(2)):
            args = [c, K] + ([T.S('v')] if how == 'add_as' else [])
            for s, r in d.run(s0, how, *args):
                ctx.count('symbolic paths')
                for op, p, site in touched(s):
                    why = plain_name(ip, s, p, K, base)
                    if why is None:
                        ctx.holds('guarded')
                    else:
                        ctx.undecided('guarded', '%s:%s' % site[1:3], why)
    ctx.functions |= d.functions()


def plain_name(ip, s, p, K, base):
    """None if the path is that of a file in the directory; else why not."""
    if p[0] != 'app' or p[1] != 'pathjoin' or p[2] != base or len(p) != 4:
        return 'the path %s is not understood' % T.show(p)
    name = p[3]
    if T.mentions(name, lambda t: t[0] == 's' and 'listdir' in str(t[1])):
        return None
    for f, v in s.facts.items():
        # equal to something that is listed in the directory
        if v is True and f[0] == 'eq' and name in f[1:] and \
                T.mentions(f, lambda t: len(t) == 2 and t[0] == 's' and 'listdir' in str(t[1])):
            return None
        if v is True and f[0] == 'in' and f[1] == name and 'listdir' in repr(f[2]):
            return None
    b = T.app('basename', name)
    if ip.eq(b, name, s) is not True:
        return '%s may not be a plain name' % T.show(name)
    for x in ('', '.', '..'):
        if ip.eq(name, T.C(x), s) is not False:
            return '%s may be %r' % (T.show(name), x)
    return None


# --- C16 -------------------------------------------------------------------------

def check_C16(ctx):
    ctx.explanation = (
        'Abstract interpretation of Corpus.add_message() and remove_message() with a store that '
        'records what is done to it and may fail, for every combination of the arguments; the '
        'sequence of changes and notifications on each path is compared with the one required. '
        'The same on directory corpora, where the state of the corpus at the time of the '
        'notification is looked at, and for ids that are refused. Nothing is run.')
    ctx.assumptions += ['blinker calls each subscriber connected for the sender once per send()']
    ctx.rule('order', 'the change is made in the store under the key of the message, then '
             'subscribers are notified exactly once, with the corpus and the message')
    ctx.rule('failed', 'nobody is notified of a change that failed')
    ctx.rule('quiet', 'nobody is notified if notification was switched off')
    ctx.rule('given store', 'the store given, although empty, is the one used')
    tasks = [(mk, fails) for mk in ('corpus', 'corpus_keyword') for fails in (False, True)]
    ctx.parallel(tasks + [('files', n) for n in (1, 2)],
                 lambda c, t: on_files(c, t[1]) if t[0] == 'files' else notify(c, *t))


def notify(ctx, maker, fails):
    d, ip = world(ctx)
    cls = ctx.p.cls('Corpus').name
    M = T.C('m.txt')
    for what in ('add', 'add as', 'add quietly', 'add as quietly', 'remove', 'remove quietly'):
        loc = where(ctx.p, cls, 'add_message' if what.startswith('add') else 'remove_message')
        for emit in (T.TRUE, T.FALSE) if 'quiet' in what else (T.TRUE,):
            st = start(ip, {})
            for s, made in d.run(st, maker, T.C(fails)):
                if isinstance(made, Exc):
                    report(ctx, s, 'given store', loc, 'the constructor raises %s' % made.name)
                    continue
                spy, c = made[1:]
                for s1, m in d.run(s, 'message', M, T.S('v')):
                    s1.events = ()
                    for s2, r in d.run(s1, 'change', c, spy, T.C(what), m, T.C('key.txt'), emit):
                        for s3, log in d.run(s2, 'logged', spy):
                            sequence(ctx, ip, s3, r, log, what, emit, fails, c, m, M, loc)
    ctx.functions |= d.functions()


def sequence(ctx, ip, s, r, log, what, emit, fails, c, m, M, loc):
    ctx.count('paths')
    log = ip.exact_items(s, log)
    if s.notes or log is None or r not in (T.C('done'), T.C('failed')):
        ctx.undecided('order', loc, s.notes or 'the log is not known')
        return
    sends = [e for e in s.events if e[0] == 'send']
    add = what.startswith('add')
    key = T.C('key.txt') if 'as' in what.split() else M
    step = ('tup', T.C('put'), key, m) if add else ('tup', T.C('pop'), key)
    call = ('tup', T.C('added' if add else 'removed'), c, m)
    if fails:
        if log or sends:
            ctx.violation('failed', loc, 'subscribers are notified of %sing that failed' % what)
        elif r != T.C('failed'):
            ctx.violation('given store', loc, 'the store given is not used to %s' % what)
        else:
            ctx.holds('failed')
        return
    if r == T.C('failed'):
        ctx.violation('order', loc, '%s fails' % what)
        return
    if step not in log:
        ctx.violation('given store' if not log or log == [call] else 'order', loc,
                      '%s does not change the store as it should: %s' % (
                          what, [T.show(x) for x in log]))
        return
    ctx.holds('given store')
    if emit == T.FALSE:
        if log != [step] or sends:
            ctx.violation('quiet', loc, 'notification takes place although it is switched off, '
                          'or something else happens: %s' % [T.show(x) for x in log])
        else:
            ctx.holds('quiet')
        return
    kwargs_ok = all(dict(e[3]) == {'message': m} and e[2] == c for e in sends)
    if log != [step, call] or len(sends) != 1 or not kwargs_ok:
        ctx.violation('order', loc, '%s: %s' % (what, [T.show(x) for x in log]))
        return
    ctx.holds('order')
    ctx.sample({'what': what, 'log': [T.show(x) for x in log]}, 4)


def on_files(ctx, size):
    d, ip = world(ctx)
    add_loc = where(ctx.p, ctx.p.cls('Corpus').name, 'add_message')
    rem_loc = where(ctx.p, ctx.p.cls('Corpus').name, 'remove_message')
    for s0, c in d.run(start(ip, {'old.txt': T.S('old')}), 'make', T.C(size)):
        for s1, log in d.run(s0, 'watch', c):
            cases = [('add', [T.C('a.txt'), T.S('v')], 'added', True),
                     ('add', [T.C('old.txt'), T.S('v')], 'added', True),
                     ('remove_found', [T.C('old.txt')], 'removed', False),
                     ('add_bad', [T.C('b.txt')], None, None),
                     ('add', [T.C('../b.txt'), T.S('v')], None, None),
                     ('add', [T.C('b.bak'), T.S('v')], None, None),
                     ('remove', [T.C('../victim.txt')], None, None)]
            for how, args, kind, isin in cases:
                loc = add_loc if how.startswith('add') else rem_loc
                for s, r in d.run(s1.copy(), how, c, *args):
                    ctx.count('paths')
                    got = ip.exact_items(s, log)
                    if s.notes or got is None:
                        ctx.undecided('order', loc, s.notes or 'the log is not known')
                    elif kind is None:
                        if got:
                            ctx.violation('failed', loc, 'subscribers are notified of a change '
                                          'that failed: %s' % args[0][2])
                        else:
                            ctx.holds('failed')
                    elif isinstance(r, Exc):
                        ctx.violation('order', loc, '%s is raised at %s' % (r.name, at(r)))
                    elif got != [('tup', T.C(kind), T.C(isin))]:
                        ctx.violation('order', loc, '%s %s: %s' % (
                            how, args[0][2], [T.show(x) for x in got]))
                    else:
                        ctx.holds('order')
    ctx.functions |= d.functions()
