"""C11, C12: writing pickles; reading databases that are damaged."""
from .. import terms as T
from ..disk import Disk, DISK
from ..driver import Driver
from ..reach import Reach
from ..state import St, Exc
from ..setup import where, at

SOURCE = '''
from sbclassifier.safepickle import pickle_read
from sbclassifier.safepickle import pickle_write
from sbclassifier.classifiers.basic import Classifier
from sbclassifier.classifiers.storage import CDBClassifier
from sbclassifier.classifiers.storage import PickleClassifier
from sbclassifier.classifiers.storage import ShelveClassifier


def save(path, value):
    pickle_write(path, value)

def save_protocol(path, value):
    pickle_write(path, value, 2)

def save_keyword(path, value):
    pickle_write(filename=path, value=value)

def read(path):
    return pickle_read(path)

def make(path):
    return PickleClassifier(path)

def make_shelve(path):
    return ShelveClassifier(path)

def make_shelve_w(path):
    return ShelveClassifier(path, 'w')

def make_shelve_r(path):
    return ShelveClassifier(path, flag='r')

def make_cdb(path):
    return CDBClassifier(path)

def train(c):
    c.learn([b'x', b'y'], True)
    c.learn([b'x'], False)
    return counts(c)

def store(c):
    c.store()

def store_to(c, path):
    c.filename = path
    c.store()

def reload(c):
    c.load()

def make_plain():
    return Classifier()

def state(c):
    return c.__getstate__()

def set_state(c, t):
    c.__setstate__(t)

def counts(c):
    return (c.nspam, c.nham)

def words(c):
    return list(c.wordinfo)
'''

TARGET = '/db/x.pck'
OTHER = '/db/y.pck'
DIRS = ('/db', '/tmp', '/cwd', '/cwd/sub')


def world(ctx):
    p = ctx.p
    d = Driver(p, SOURCE)
    ip = d.ip
    ip.files = Disk()
    ip.roots = (DISK,)
    ip.load_hook = unpickle
    ip.shelf_hook = shelf
    ip.class_override = {p.cls('Cdb').name: cdb}
    ip.call_override[p.func('cdb_make').fid] = cdb_make
    return d, ip


def unpickle(ip, st, src, node):
    if src[0] == 's':
        return iter([(st, T.app('unpickled', src))])
    if src[0] == 'c' and not isinstance(src[2], str):
        return iter([(st, src)])
    if src[0] == 'app' or src == T.C('empty'):
        v = src                       # content given to loads()
    elif src[0] == 'ref' and src in st.heap and st.heap[src].kind == 'ext' and \
            st.heap[src].type == 'pickled':
        v = src
    else:
        v = ip.files.get(st, src)
    if v is None:
        return None
    if v[0] == 's' or v[0] == 'c' and v != T.C('empty'):
        return iter([(st, v if v[0] == 'c' else T.app('unpickled', v))])
    if v[0] == 'app' and v[1] in ('buffered', 'partial', 'joined') or v == T.C('empty'):
        return iter([ip.raises(st, 'EOFError', node)])
    return ip.unpickled(st, v, node)


def shelf(ip, st, args, node):
    flag = args[1] if len(args) > 1 else T.C('c')
    r = ip.files.get(st, args[0])
    if flag not in (T.C('c'), T.C('n'), T.C('r'), T.C('w')):
        st.note('the flag %s' % T.show(flag))
    if r is None and flag in (T.C('r'), T.C('w')):
        yield ip.raises(st, 'dbm.error', node)
        return
    if r is None or flag == T.C('n'):
        r = st.new('dict', items=(), base=None, others=False, flavor='shelf')
        ip.files.put(st, args[0], r)
    yield st, r


def cdb(ip, st, args, kwargs, node):
    from ..models import fault
    yield from fault(ip, st, 'cdb', ['struct.error', 'ValueError', 'OSError'], node)
    f = st.heap[args[0]].data['path'] if args and args[0][0] == 'ref' and \
        st.heap[args[0]].kind == 'ext' else None
    v = ip.files.get(st, f) if f else None
    if v is None or v[0] != 'ref':
        yield ip.raises(st, 'struct.error', node)
        return
    yield st, ('view', 'items', v)


def cdb_make(ip, st, args, kwargs, node):
    return Reach.cdb_make(None, ip, st, args, kwargs, node)


def start(ip, files=(), dirs=DIRS):
    st = St()
    ip.files.install(st, dict(files), dirs)
    return st


def fault_in(s):
    return [(e[1], e[2], e[3]) for e in s.events if e[0] == 'fault']


def faulty(s):
    return ', '.join('%s in %s' % (n, w) for w, n, _site in fault_in(s)) or 'no failure'


# --- C11 -------------------------------------------------------------------------

def check_C11(ctx):
    ctx.explanation = (
        'Abstract interpretation of pickle_write(), pickle_read() and PickleClassifier.load() and '
        'store() on a modelled file system whose every operation may fail: what is written to an '
        'open file reaches it when the file is flushed or closed. Every content the file ever has '
        'on any path is looked at (a crash may leave any of them), and every lock held at the '
        'time of each access. Nothing is run.')
    ctx.assumptions += [
        'os.replace() and os.rename() are atomic within a directory',
        'an exclusive lock is what lockfile.FileLock provides; a lock left by a process that was '
        'killed is not removed by the library',
        'closing a file flushes it; losing data that was closed in a power failure is not '
        'considered']
    ctx.rule('old or new', 'the file under the name has, at every moment, its old content or all '
             'of the new one')
    ctx.rule('saved', 'if saving raises nothing, the file has the new content; if it raises, '
             'and the replacement was not made, the old one')
    ctx.rule('reported', 'a failure to save raises')
    ctx.rule('no litter', 'no other file is left, unless removing it failed')
    ctx.rule('same directory', 'the temporary file is in the directory of the file')
    ctx.rule('locked', 'the file is opened, replaced or removed only while its lock is held')
    ctx.rule('released', 'the lock is released on every path')
    ctx.rule('one lock', 'reading and writing a file use the same lock, other files another')
    tasks = []
    for path in (TARGET, 'rel.pck', 'sub/rel.pck'):
        for there in (True, False):
            for how in ('save', 'save_protocol', 'save_keyword', 'read', 'store', 'make',
                        'store_to'):
                if path != TARGET and how not in ('save', 'read'):
                    continue
                tasks.append((how, path, there))
    ctx.parallel(tasks + [('locks', None, None)],
                 lambda c, t: locks(c) if t[0] == 'locks' else atomic(c, *t))


def atomic(ctx, how, path, there):
    d, ip = world(ctx)
    P = T.C(path)
    full = Disk.path(P)
    ip.files.buffering = True
    fn = ctx.p.func('pickle_read' if how in ('read', 'make') else 'pickle_write')
    loc = '%s:%s' % (fn.module.rel, fn.qual)
    st = start(ip)
    runs = []
    old = None
    new = None
    if how in ('store', 'store_to', 'make'):
        for s, c in d.run(st, 'make', T.C(OTHER if how == 'store_to' else path)):
            for s2, _r in d.run(s, 'train', c):
                for s3, r in d.run(s2, 'store', c):
                    if isinstance(r, Exc):
                        ctx.undecided('saved', loc, 'storing raises %s' % r.name)
                        continue
                    runs.append((s3, c))
    else:
        runs.append((st, None))
    for s0, c in runs:
        if how in ('read', 'make'):
            if there:
                if how == 'read':
                    ip.files.put(s0, P, T.S('old'))
            else:
                ip.files.put(s0, P, None)
        elif there:
            ip.files.put(s0, P, T.S('old'))
        else:
            ip.files.put(s0, P, None)
        old = ip.files.get(s0, P)
        before = set(ip.files.files(s0))
        s0.events = ()
        ip.files.watched = (full,)
        ip.files.set(s0, history=())
        ip.faults = True
        if how in ('store', 'store_to'):
            args = [c] + ([P] if how == 'store_to' else [])
        elif how in ('read', 'make'):
            args = [P]
        else:
            new = T.S('new')
            args = [P, new]
        for s, r in d.run(s0, how, *args):
            ctx.count('paths')
            judge(ctx, ip, s, r, how, P, full, old, new, before, loc)
        ip.faults = False
        ip.files.watched = ()
    ctx.functions |= d.functions()


def complete(v, new):
    if new is not None:
        return v == new
    return v is not None and v[0] == 'ref'


def judge(ctx, ip, s, r, how, P, full, old, new, before, loc):
    if s.notes:
        ctx.undecided('saved', loc, '%s; %s' % (s.notes, faulty(s)))
        return
    faults = fault_in(s)
    reading = how in ('read', 'make')
    # contents
    bad = None
    for p, v in ip.files.history(s):
        if v == old or not reading and complete(v, new):
            continue
        bad = 'it does not exist' if v is None else 'its content is %s' % (
            'incomplete' if v[0] == 'app' or v == T.C('empty') else T.show(v))
        break
    if bad:
        ctx.violation('old or new', loc, 'at one moment %s (%s)' % (bad, faulty(s)))
    else:
        ctx.holds('old or new')
    now = ip.files.get(s, P)
    changed = any(complete(v, new) for _p, v in ip.files.history(s))
    if isinstance(r, Exc):
        if not faults and how not in ('read',) and not (how == 'make'):
            ctx.violation('reported', loc, '%s is raised at %s without a failure' % (
                r.name, at(r)))
        if not reading:
            if now == old or changed and complete(now, new):
                ctx.holds('saved')
            else:
                ctx.violation('saved', loc, 'the old file is lost (%s)' % faulty(s))
            ctx.holds('reported')
    elif not reading:
        if not complete(now, new):
            ctx.violation('saved' if not faults else 'reported', loc,
                          'nothing is raised, but the new content is not there (%s)' % faulty(s))
        else:
            ctx.holds('saved')
            ctx.holds('reported')
    # litter
    left = set(ip.files.files(s)) - before - {full}
    if left and not any(w in ('unlink', 'remove') for w, _n, _s in faults):
        ctx.violation('no litter', loc, '%s is left (%s)' % (sorted(left), faulty(s)))
    elif not reading:
        ctx.holds('no litter')
    # where the temporary file is
    for e in s.events:
        if e[0] == 'fs' and e[1] in ('replace', 'rename', 'shutil.move') and \
                Disk.path(e[3]) == full:
            import posixpath
            if posixpath.dirname(Disk.path(e[2])) != posixpath.dirname(full) or \
                    e[1] == 'shutil.move':
                ctx.violation('same directory', loc, '%s is moved to %s' % (
                    T.show(e[2]), T.show(e[3])))
            else:
                ctx.holds('same directory')
    # locks
    held = []
    seen = set()
    for e in s.events:
        if e[0] == 'enter' and e[1] == 'lock':
            held.append(s.heap[e[2]].data['path'])
        elif e[0] == 'exit' and e[1] == 'lock':
            x = s.heap[e[2]].data['path']
            if x in held:
                held.remove(x)
        elif e[0] == 'breaklock':
            ctx.violation('locked', loc, 'the lock of another process is broken')
        elif e[0] == 'fs' and any(isinstance(x, tuple) and Disk.path(x) == full
                                  for x in e[2:4] if isinstance(x, tuple) and x[:1] == ('c',)) \
                and e[1] in ('open', 'replace', 'rename', 'remove', 'unlink', 'read', 'unpickle',
                             'dump', 'write', 'shutil.move', 'shutil.copyfile', 'shutil.copy'):
            if not held:
                ctx.violation('locked', loc, '%s of the file without a lock' % e[1])
            else:
                ctx.holds('locked')
            seen |= set(held)
    if held:
        ctx.violation('released', loc, 'a lock is held at the end (%s)' % faulty(s))
    else:
        ctx.holds('released')
    ctx.sample({'how': how, 'file there': old is not None, 'failure': faulty(s),
                'raises': r.name if isinstance(r, Exc) else None,
                'contents of the file': [T.show(v) if v else None
                                         for _p, v in ip.files.history(s)]}, 10)


def locks(ctx):
    d, ip = world(ctx)
    used = {}
    fn = ctx.p.func('pickle_write')
    loc = '%s:%s' % (fn.module.rel, fn.qual)
    for path in (TARGET, OTHER, '/tmp/x.pck'):
        for how in ('save', 'read'):
            st = start(ip, {path: T.S('old')})
            for s, r in d.run(st, how, *([T.C(path)] + ([T.S('new')] if how == 'save' else []))):
                if s.notes:
                    ctx.undecided('one lock', loc, s.notes)
                    return
                got = {s.heap[e[2]].data['path'] for e in s.events
                       if e[0] == 'enter' and e[1] == 'lock'}
                used.setdefault(path, []).append({Disk.path(g) for g in got})
    allp = {}
    for path, sets in used.items():
        common = set.intersection(*sets)
        if None in set.union(*sets):
            ctx.undecided('one lock', loc, 'the path of the lock is not known')
        elif not common:
            ctx.violation('one lock', loc, 'reading and writing use different locks: %s' % sets)
        else:
            ctx.holds('one lock')
        for c in common:
            allp.setdefault(c, set()).add(path)
    for c, ps in allp.items():
        if len(ps) > 1:
            ctx.violation('one lock', loc, 'one lock for all of %s' % sorted(ps))
    ctx.functions |= d.functions()


# --- C12 -------------------------------------------------------------------------

MAKERS = {
    'PickleClassifier': ['make'],
    'ShelveClassifier': ['make_shelve', 'make_shelve_w', 'make_shelve_r'],
    'CDBClassifier': ['make_cdb'],
}


def check_C12(ctx):
    ctx.explanation = (
        'Abstract interpretation of the constructors and load() of the three stored classifiers '
        'on a modelled file system: without a database, with a good one, with one written with '
        'another version (the version is a symbol), with one of the wrong shape, and with a '
        'failure of each operation on it, one after the other. Every path that ends normally '
        'although the database was not read is reported. Nothing is run.')
    ctx.assumptions += [
        'pickle.load(), shelve, dbm and struct report damaged data with an exception',
        'a CDB file has no version']
    ctx.rule('new', 'without a database, the classifier is empty and nothing is raised')
    ctx.rule('read', 'a good database is read')
    ctx.rule('reported', 'a failure to read the database raises')
    ctx.rule('version', 'a database of another version is refused')
    ctx.rule('unchanged', 'when a database of another version is refused, the counts of the '
             'classifier are as before')
    ctx.rule('kept', 'loading does not change the file')
    ctx.parallel([(c, w) for c in MAKERS for w in
                  ('absent', 'good', 'version', 'damaged', 'faults')] + [('Classifier', 'state')],
                 lambda c, t: plain_state(c) if t[1] == 'state' else loading(c, *t))


def plain_state(ctx):
    """__setstate__() of a classifier that is in use."""
    d, ip = world(ctx)
    PV = symbolic_version(ctx, ip)
    cls = ctx.p.cls('Classifier').name
    loc = where(ctx.p, cls, '__setstate__')
    F = T.S('foreign')
    for s, a in d.run(start(ip), 'make_plain'):
        for s1, t in d.run(s, 'state', a):
            new = replaced(s1, t, PV, F)
            if new == t:
                ctx.undecided('version', loc, 'there is no version in the state')
                continue
            for s2, c in d.run(s1, 'make_plain'):
                for s3, before in d.run(s2, 'train', c):
                    for s4, r in d.run(s3.copy(), 'set_state', c, new):
                        if ip.eq(F, PV, s4) is True:
                            continue
                        if refused(ctx, s4, r, loc, '__setstate__'):
                            unchanged(ctx, d, s4, c, before, loc)
    ctx.functions |= d.functions()


def unchanged(ctx, d, s, c, before, loc):
    for s2, after in d.run(s, 'counts', c):
        if after != before:
            ctx.violation('unchanged', loc, 'the totals are %s instead of %s after '
                          'a database of another version was refused' % (
                              T.show(after), T.show(before)))
        else:
            ctx.holds('unchanged')


def symbolic_version(ctx, ip):
    mod = ctx.p.find_method(ctx.p.cls('Classifier').name, '__getstate__').module
    PV = T.S('version')
    ip.const_override[(mod.name, 'PICKLE_VERSION')] = PV
    for m in ctx.p.modules.values():
        for var, bs in m.bindings.items():
            if len(bs) == 1 and bs[0][0] == 'from' and bs[0][1] == (mod.name, 'PICKLE_VERSION'):
                ip.const_override[(m.name, var)] = PV
    ip.sorts['version'] = 'int'
    ip.sorts['foreign'] = 'int'
    return PV


def loading(ctx, short, what):
    d, ip = world(ctx)
    cls = ctx.p.cls(short).name
    PV = symbolic_version(ctx, ip)
    loc = where(ctx.p, cls, 'load')
    P = T.C(TARGET)
    makers = MAKERS[short]
    if what == 'absent':
        for s, r in d.run(start(ip), makers[0], P):
            ctx.count('paths')
            empty(ctx, d, s, r, loc)
        # An object that already has counts.
        for s, c in d.run(start(ip), makers[0], P):
            for s1, _r in d.run(s, 'train', c):
                ip.files.put(s1, P, None)
                for s2, r in d.run(s1, 'reload', c):
                    ctx.count('paths')
                    empty(ctx, d, s2, c if not isinstance(r, Exc) else r, loc)
        ctx.functions |= d.functions()
        return
    # A database.
    for s, c in d.run(start(ip), makers[0], P):
        for s1, before in d.run(s, 'train', c):
            for s2, r in d.run(s1, 'store', c):
                if isinstance(r, Exc) or s2.notes:
                    ctx.undecided('read', loc, 'storing: %s' % (
                        '; '.join(map(str, s2.notes)) if s2.notes else r.name))
                    continue
                if what == 'good':
                    for mk in makers:
                        for s3, r3 in d.run(s2.copy(), mk, P):
                            good(ctx, d, s3, r3, before, loc, mk)
                    for s3, r3 in d.run(s2.copy(), 'reload', c):
                        good(ctx, d, s3, r3 if isinstance(r3, Exc) else c, before, loc, 'reload')
                elif what == 'version':
                    version(ctx, d, ip, s2, P, PV, c, makers, loc)
                elif what == 'damaged':
                    damaged(ctx, d, ip, s2, P, c, short, makers, loc)
                else:
                    fail(ctx, d, ip, s2, P, c, makers, loc)
    ctx.functions |= d.functions()


def empty(ctx, d, s, r, loc):
    if s.notes:
        ctx.undecided('new', loc, s.notes)
    elif isinstance(r, Exc):
        ctx.violation('new', loc, '%s is raised at %s without a database' % (r.name, at(r)))
    else:
        for s1, n in d.run(s, 'counts', r):
            for s2, w in d.run(s1, 'words', r):
                if n != ('tup', T.C(0), T.C(0)) or d.ip.exact_items(s2, w) != []:
                    if s2.notes:
                        ctx.undecided('new', loc, s2.notes)
                    else:
                        ctx.violation('new', loc, 'the classifier is not empty without a '
                                      'database: %s' % T.show(n))
                else:
                    ctx.holds('new')


def good(ctx, d, s, r, before, loc, how):
    ctx.count('paths')
    if s.notes:
        ctx.undecided('read', loc, s.notes)
    elif isinstance(r, Exc):
        ctx.violation('read', loc, '%s of a good database raises %s at %s' % (
            how, r.name, at(r)))
    else:
        for s1, n in d.run(s, 'counts', r):
            if n != before:
                ctx.violation('read', loc, '%s: the totals are %s instead of %s' % (
                    how, T.show(n), T.show(before)))
            else:
                ctx.holds('read')


def replaced(s, t, old, new, seen=None):
    """Replaces a term in all that is reachable."""
    seen = {} if seen is None else seen
    if t == old:
        return new
    if not isinstance(t, tuple):
        return t
    if len(t) == 2 and t[0] == 'ref':
        if t in seen:
            return seen[t]
        if t not in s.heap:
            return t
        o = s.heap[t]
        n = s.new(o.kind, **dict(o.d))
        seen[t] = n
        d = {}
        for k, v in o.d.items():
            d[k] = {a: replaced(s, b, old, new, seen) for a, b in v.items()} \
                if isinstance(v, dict) else replaced(s, v, old, new, seen)
        s.upd(n, **d)
        return n
    return tuple(replaced(s, x, old, new, seen) for x in t)


def version(ctx, d, ip, st, P, PV, c, makers, loc):
    old = ip.files.get(st, P)
    F = T.S('foreign')
    st = st.copy()
    new = replaced(st, old, PV, F)
    from ..driver import canon
    if canon(st, new) == canon(st, old):
        if makers == ['make_cdb']:
            ctx.count('formats without a version')
            return
        ctx.undecided('version', loc, 'there is no version in what is stored')
        return
    ip.files.put(st, P, new)
    for mk in makers:
        for s, r in d.run(st.copy(), mk, P):
            if ip.eq(F, PV, s) is True:
                continue
            refused(ctx, s, r, loc, mk)
    # The classifier has learned more since.
    trained = [x for x, _r in d.run(st.copy(), 'train', c)]
    for x in trained:
        x.events = ()
        ip.files.put(x, P, new)
    for s, before in [y for x in trained for y in d.run(x, 'counts', c)]:
        for s1, r in d.run(s, 'reload', c):
            if ip.eq(F, PV, s1) is True:
                continue
            if refused(ctx, s1, r, loc, 'reload'):
                unchanged(ctx, d, s1, c, before, loc)


def refused(ctx, s, r, loc, how):
    ctx.count('paths')
    if s.notes:
        ctx.undecided('version', loc, s.notes)
        return False
    if not isinstance(r, Exc):
        ctx.violation('version', loc, '%s accepts a database of another version' % how)
        return False
    ctx.holds('version')
    ctx.sample({'how': how, 'raises': r.name, 'at': at(r)})
    return True


def damaged(ctx, d, ip, st, P, c, short, makers, loc):
    """The file can be opened, but what is in it is not what it should be."""
    old = ip.files.get(st, P)
    cases = []

    def case(name):
        s = st.copy()
        cases.append((name, s))
        return s
    if short == 'CDBClassifier':
        o = st.heap[old]
        keys = [k for k, _v in o.items]
        for k in keys:
            s = case('without the entry %s' % T.show(k))
            if 'saved' not in T.show(k):
                cases.pop()
                continue
            ip.files.put(s, P, s.new('dict', **dict(o.d, items=tuple(
                (a, b) for a, b in o.items if a != k))))
        for v in (b'', b'1', b'1,x', b'1,2,3'):
            for k in keys:
                s = case('%r for %s' % (v, T.show(k)))
                # The last one is no damage to a token by the format in use.
                ip.files.put(s, P, s.new('dict', **dict(o.d, items=tuple(
                    (a, T.C(v) if a == k else b) for a, b in o.items))))
                if v in (b'1', b'1,2,3') and 'saved' not in T.show(k):
                    cases.pop()
        s = case('empty')
        ip.files.put(s, P, T.C('empty'))
    elif short == 'ShelveClassifier':
        o = st.heap[old]
        for k, v in o.items:
            if v[0] == 'tup' and len(v) == 4:
                for n in (1, 2, 3):
                    s = case('a state of %d items' % (n - 1))
                    ip.files.put(s, P, s.new('dict', **dict(o.d, items=tuple(
                        (a, ('tup',) + b[1:n] if a == k else b) for a, b in o.items))))
        if not cases:
            ctx.undecided('reported', loc, 'the form of the state is not known')
    else:
        for name, t in (('empty', T.C('empty')), ('incomplete', T.app('partial')),
                        ('a number', T.C(5)), ('None', T.NONE)):
            s = case(name)
            ip.files.put(s, P, t)
        v = st.heap[old]
        if v.kind == 'ext' and v.type == 'pickled' and 'state' in v.data and \
                v.data['state'][0] == 'tup':
            # Older pickles have one item less.
            for n in range(1, len(v.data['state']) - 1):
                s = case('a state of %d items' % (n - 1))
                ip.files.put(s, P, s.new('ext', type='pickled', data={
                    'cls': v.data['cls'], 'state': v.data['state'][:n]}))
        else:
            ctx.undecided('reported', loc, 'the form of the state is not known')
    for name, s0 in cases:
        for mk in makers + ['reload']:
            for s, r in d.run(s0.copy(), mk, c if mk == 'reload' else P):
                ctx.count('paths')
                if s.notes:
                    ctx.undecided('reported', loc, '%s: %s' % (name, s.notes))
                elif not isinstance(r, Exc):
                    ctx.violation('reported', loc, '%s: nothing is raised for a damaged database '
                                  '(%s)' % (mk, name))
                else:
                    ctx.holds('reported')
                same(ctx, ip, s, P, s0, loc, name)


def same(ctx, ip, s, P, s0, loc, name):
    from ..driver import canon
    a, b = ip.files.get(s0, P), ip.files.get(s, P)
    if b is None or canon(s0, a) != canon(s, b):
        ctx.violation('kept', loc, 'loading changes the file (%s)' % name)
    else:
        ctx.holds('kept')


def fail(ctx, d, ip, st, P, c, makers, loc):
    for mk in makers + ['reload']:
        s0 = st.copy()
        s0.events = ()
        ip.faults = True
        for s, r in d.run(s0, mk, c if mk == 'reload' else P):
            ip.faults = True
            ctx.count('paths')
            faults = fault_in(s)
            if not faults:
                continue
            if s.notes:
                ctx.undecided('reported', loc, '%s: %s' % (faulty(s), s.notes))
                continue
            if any(n == 'FileNotFoundError' for _w, n, _s in faults):
                # It has been removed meanwhile.
                ctx.count('removed meanwhile')
                continue
            if not isinstance(r, Exc):
                ctx.violation('reported', loc, '%s: nothing is raised (%s)' % (mk, faulty(s)))
            else:
                ctx.holds('reported')
                ctx.sample({'how': mk, 'failure': faulty(s), 'raises': r.name})
            same(ctx, ip, s, P, s0, loc, faulty(s))
        ip.faults = False
