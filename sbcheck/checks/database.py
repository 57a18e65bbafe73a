"""C28: the constant database."""
import itertools

from .. import bytemem
from .. import terms as T
from ..driver import Driver
from ..program import AnchorMissing
from ..state import St, Exc
from ..setup import at

SOURCE = '''
from sbclassifier.cdb import Cdb
from sbclassifier.cdb import cdb_hash
from sbclassifier.cdb import cdb_make


def write(f, items):
    cdb_make(f, items)

def write_once(f, items):
    cdb_make(f, (i for i in items))

def opened(f):
    return Cdb(f)

def encoded(x):
    return bytes(x, 'utf-8')

def item(db, key):
    return db[key]

def get(db, key):
    return db.get(key)

def get_default(db, key, default):
    return db.get(key, default)

def again(db, key):
    db.findstart()
    result = []
    try:
        for _n in (0, 1, 2, 3, 4, 5):
            result.append(db.findnext(key))
    except KeyError:
        pass
    return result

def iteration(db):
    return [x for x in db]

def items(db):
    return list(db.items())

def iteritems(db):
    return list(db.iteritems())

def keys(db):
    return list(db.keys())

def iterkeys(db):
    return list(db.iterkeys())

def values(db):
    return list(db.values())

def itervalues(db):
    return list(db.itervalues())

def lookup_between(db, key):
    result = []
    for x in db:
        result.append(x)
        db.get(key)
    return result

def hash_of(key):
    return cdb_hash(key)
'''
#: Hash values: the low byte selects the table, the rest the slot in it.
HASHES = (0x000, 0x100, 0x300, 0x500, 0x0ff, 0x3ff, 0xffffffff)
FEW = (0x000, 0x300, 0x500, 0x0ff, 0xffffffff)


def check_C28(ctx):
    ctx.explanation = (
        'Abstract interpretation of writing and reading with symbolic keys and values of symbolic '
        'lengths, text or bytes. The file is a memory of pieces at positions that are linear terms '
        'over the lengths. The hash values are chosen so that all ways in which entries share '
        'tables and slots, and wrap around, occur; keys with the same hash value may be equal. The '
        'result of each lookup must be the value of the item whose key equals the one looked up '
        'by the facts on the path. Nothing is run.')
    ctx.assumptions += ['the file is smaller than 4 GiB, a limit of the format',
                        'text keys and values can be encoded']
    ctx.rule('lookup', 'a lookup of a key gives the value of an item with that key')
    ctx.rule('missing', 'a lookup of a key that is not there raises KeyError or gives the default')
    ctx.rule('iteration', 'iterating gives all items, in order, as bytes')
    ctx.rule('repeated', 'continuing a lookup gives the values of all items with the key, in '
             'order, and then KeyError')
    ctx.rule('hash', 'the hash of bytes is a 32-bit number that depends on the bytes only')
    tasks = [('layout', hs, 'bytes', False) for n in (0, 1, 2)
             for hs in itertools.product(HASHES, repeat=n)]
    tasks += [('layout', hs, 'mixed', True) for n in (1, 2)
              for hs in itertools.product(FEW, repeat=n)]
    three = itertools.product(FEW, repeat=3)
    if not ctx.thorough:
        three = (hs for hs in three if len({h & 255 for h in hs}) == 1 or hs[0] == 0)
    tasks += [('layout', hs, 'bytes', False) for hs in three]
    if ctx.thorough:
        tasks += [('layout', hs, 'bytes', False) for hs in itertools.product(
            (0x000, 0x300, 0x700), repeat=4)]
    tasks += [('constants', i) for i in range(len(CONSTANTS))]
    tasks += [('history',), ('hash',)]
    ctx.parallel(tasks, lambda c, t: {'layout': layout, 'constants': constants,
                                      'history': history, 'hash': hashing}[t[0]](c, *t[1:]))


def world(ctx, hashes=None):
    d = Driver(ctx.p, SOURCE)
    ip = d.ip
    bytemem.install(ip)
    ip.WIDEN = 40
    ip.sorts.update({'default': 'str'})
    if hashes is not None:
        fs = [f for f in ctx.p.functions.values() if f.qual == 'cdb_hash' and f.cls is None]
        if not fs:
            raise AnchorMissing('no function cdb_hash')

        def hashed(ip, st, args, kwargs, node):
            k = args[0] if args else next(iter(kwargs.values()))
            if k in hashes:
                yield st, T.C(hashes[k])
            elif ip.sort(k, st) == 'str':
                yield ip.raises(st, 'TypeError', node)
            elif k[0] == 'c':
                yield st, T.C(djb(k[2]))
            else:
                st.note('the hash of %s' % T.show(k))
                yield st, T.unk('hash')
        ip.call_override[fs[0].fid] = hashed
    return d, ip


def djb(key):
    h = 5381
    for c in key:
        h = (h * 33 & 0xffffffff) ^ c
    return h


def place(ctx, what):
    fs = [f for f in ctx.p.functions.values() if f.qual == what]
    return '%s:%s' % (fs[0].module.rel, what) if fs else 'sbclassifier/cdb.py'


class Items:
    """Symbolic items, and those that are not among them."""

    def __init__(self, d, ip, hs, kind, extra):
        self.items = []
        self.encoded = []
        self.hashes = {}
        st = St()
        for i, _h in enumerate(hs):
            k, v = T.S('key%d' % i), T.S('value%d' % i)
            sorts = ('str', 'bytes') if kind == 'mixed' and i % 2 else \
                ('str', 'str') if kind == 'mixed' else ('bytes', 'bytes')
            ip.sorts['key%d' % i], ip.sorts['value%d' % i] = sorts
            self.items.append((k, v))
            self.encoded.append((self.enc(d, ip, k), self.enc(d, ip, v)))
        self.others = []
        for j, h in enumerate(extra):
            q = T.S('other%d' % j)
            ip.sorts['other%d' % j] = 'str' if kind == 'mixed' else 'bytes'
            self.others.append((q, self.enc(d, ip, q)))
        every = list(zip([k for k, _v in self.encoded], hs)) + \
            list(zip([e for _q, e in self.others], extra))
        self.hashes.update(every)
        # Keys with other hash values are other keys.
        for (a, g), (b, h) in itertools.combinations(every, 2):
            if g != h:
                st = ip.assume(('eq', a, b), False, st)
        self.state = st

    @staticmethod
    def enc(d, ip, x):
        if ip.sort(x) == 'str':
            for _s, r in d.run(St(), 'encoded', x):
                return r
        return x

    def term(self):
        return ('tup',) + tuple(('tup', k, v) for k, v in self.items)


def layout(ctx, hs, kind, lazy):
    hashes = {}
    d, ip = world(ctx, hashes)
    if ctx.thorough or len(hs) < 2:
        extra = FEW
    else:
        extra = sorted({hs[0], (hs[-1] ^ 0x100) & 0xffffffff})
    it = Items(d, ip, hs, kind, extra)
    hashes.update(it.hashes)
    f, states = written(ctx, d, it.state, it.term(), lazy)
    for s, db in states:
        for i, (k, _v) in enumerate(it.items):
            forms = {k, it.encoded[i][0]}
            for q in sorted(forms):
                ask(ctx, d, s, db, q, it.encoded[i][0], it.encoded)
            repeated(ctx, d, s, db, it.encoded[i][0], it.encoded)
        for q, e in it.others:
            ask(ctx, d, s, db, q, e, it.encoded)
        repeated(ctx, d, s, db, it.others[0][1], it.encoded)
        listed(ctx, d, s, db, it.encoded)
    ctx.functions |= d.functions()


def written(ctx, d, st, items, lazy=False):
    """The file and [(state, database)]."""
    st = st.copy()
    f = bytemem.new_file(st)
    out = []
    for s, r in d.run(st, 'write_once' if lazy else 'write', f, items):
        if isinstance(r, Exc):
            ctx.violation('lookup', place(ctx, 'cdb_make'), 'writing raises %s at %s' % (
                r.name, at(r))) if not s.notes else ctx.undecided(
                    'lookup', place(ctx, 'cdb_make'), s.notes)
            continue
        for s2, db in d.run(s, 'opened', f):
            if s2.notes:
                ctx.undecided('lookup', place(ctx, 'Cdb.__init__'), s2.notes)
            elif isinstance(db, Exc):
                ctx.violation('lookup', place(ctx, 'Cdb.__init__'), 'opening raises %s at %s' % (
                    db.name, at(db)))
            else:
                out.append((s2, db))
    return f, out


def which(ip, s, e, encoded):
    """Indexes of the items whose keys equal e on the path, and those that may."""
    sure, maybe = [], []
    for i, (k, _v) in enumerate(encoded):
        r = ip.decide(('eq', k, e), s)
        if r is True:
            sure.append(i)
        elif r is None:
            maybe.append(i)
    return sure, maybe


def ask(ctx, d, s0, db, q, e, encoded):
    ip = d.ip
    default = T.S('default')
    for how, args in (('item', ()), ('get', ()), ('get_default', (default,))):
        loc = place(ctx, 'Cdb.__getitem__' if how == 'item' else 'Cdb.get')
        for s, r in d.run(s0.copy(), how, db, q, *args):
            ctx.count('paths')
            answer(ctx, ip, s, r, e, encoded, how, loc, default)


def answer(ctx, ip, s, r, e, encoded, how, loc, default):
    if s.notes:
        ctx.undecided('lookup', loc, s.notes)
        return
    sure, maybe = which(ip, s, e, encoded)
    missing = T.NONE if how == 'get' else default if how == 'get_default' else None
    none = r.name == 'KeyError' if isinstance(r, Exc) and how == 'item' else r == missing
    if isinstance(r, Exc) and not (none and how == 'item'):
        ctx.violation('lookup', loc, 'a lookup raises %s at %s' % (r.name, at(r)))
    elif none:
        if sure:
            ctx.violation('lookup', loc, 'the key of item %d of %d is not found' % (
                sure[0] + 1, len(encoded)))
        else:
            ctx.holds('missing')
    elif T.is_unk(r):
        ctx.undecided('lookup', loc, 'the result of a lookup')
    elif any(r == encoded[i][1] for i in sure):
        ctx.holds('lookup')
        ctx.sample({'items': len(encoded), 'looked up': T.show(e), 'result': T.show(r)}, 8)
    elif any(r == encoded[i][1] for i in maybe):
        ctx.violation('missing', loc, 'a lookup of %s gives the value of %s, which may be another '
                      'key' % (T.show(e), ' or '.join(T.show(encoded[i][0]) for i in maybe
                                                      if r == encoded[i][1])))
    else:
        ctx.violation('lookup' if sure else 'missing', loc, 'a lookup of %s gives %s' % (
            T.show(e), T.show(r)))


def repeated(ctx, d, s0, db, e, encoded):
    ip = d.ip
    loc = place(ctx, 'Cdb.findnext')
    for s, r in d.run(s0.copy(), 'again', db, e):
        ctx.count('paths')
        xs = None if isinstance(r, Exc) else ip.exact_items(s, r)
        if s.notes or xs is None and not isinstance(r, Exc):
            ctx.undecided('repeated', loc, s.notes or 'the results')
            continue
        if isinstance(r, Exc):
            ctx.violation('repeated', loc, 'a lookup raises %s at %s' % (r.name, at(r)))
            continue
        sure, maybe = which(ip, s, e, encoded)
        if list(xs) != [encoded[i][1] for i in sure] and not maybe:
            ctx.violation('repeated', loc, 'all lookups of %s give %s instead of %s' % (
                T.show(e), [T.show(x) for x in xs], [T.show(encoded[i][1]) for i in sure]))
        else:
            ctx.holds('repeated')


LISTS = {'iteration': None, 'items': None, 'iteritems': None, 'keys': 0, 'iterkeys': 0,
         'values': 1, 'itervalues': 1}


def listed(ctx, d, s0, db, encoded, lookups=()):
    for how, part in LISTS.items():
        for s, r in d.run(s0.copy(), how, db):
            ctx.count('paths')
            compare(ctx, d.ip, s, r, encoded, part, how)
    for q in lookups:
        for s, r in d.run(s0.copy(), 'lookup_between', db, q):
            compare(ctx, d.ip, s, r, encoded, None, 'iteration with lookups')


def compare(ctx, ip, s, r, encoded, part, how):
    loc = place(ctx, 'Cdb.__iter__')
    if s.notes:
        ctx.undecided('iteration', loc, s.notes)
        return
    if isinstance(r, Exc):
        ctx.violation('iteration', loc, '%s raises %s at %s' % (how, r.name, at(r)))
        return
    xs = ip.exact_items(s, r)
    want = [('tup', k, v) if part is None else (k, v)[part] for k, v in encoded]
    if xs is None:
        ctx.undecided('iteration', loc, 'the result of %s' % how)
    elif list(xs) != want:
        ctx.violation('iteration', loc, '%s gives %s instead of %s' % (
            how, [T.show(x) for x in xs], [T.show(x) for x in want]))
    else:
        ctx.holds('iteration')


# Keys that are constants: the hash function of the library is followed, too.

def colliding():
    """Short keys with the same low byte of the hash, and some in the same slot."""
    out = []
    for a in range(97, 123):
        for b in range(97, 123):
            k = bytes([a, b])
            if djb(k) & 255 == djb(b'aa') & 255:
                out.append(k)
    return out[:5]


CONSTANTS = [
    [b''], [b'a'], [b'a', b'a'], [b'', b'a', b''], [b'\xff' * 9, b'\x00', b'\n'],
    ['text', b'text', 'tëxt', 'tëxt'.encode()], colliding(), colliding()[::-1] + [b'zz'],
    [bytes([i]) for i in range(0, 256, 17)],
]


def constants(ctx, i):
    d, ip = world(ctx)
    keys = CONSTANTS[i]
    for j in range(len(keys)):
        ip.sorts['value%d' % j] = 'bytes'
    pairs = [(T.C(k), T.S('value%d' % j)) for j, k in enumerate(keys)]
    encoded = [(T.C(k.encode() if isinstance(k, str) else k), v)
               for k, (_t, v) in zip(keys, pairs)]
    f, states = written(ctx, d, St(), ('tup',) + tuple(('tup',) + p for p in pairs))
    for s, db in states:
        for (k, _v), (e, _w) in zip(pairs, encoded):
            for q in (k, e):
                ask(ctx, d, s, db, q, e, encoded)
            repeated(ctx, d, s, db, e, encoded)
        for q in (b'', b'a', b'b', b'text ', b'aaa', 'ë', b'\xc3'):
            e = T.C(q.encode() if isinstance(q, str) else q)
            ask(ctx, d, s, db, T.C(q), e, encoded)
        listed(ctx, d, s, db, encoded)
    ctx.functions |= d.functions()


def history(ctx):
    """Lookups after other lookups and during an iteration."""
    hs = (0x000, 0x300, 0x0ff)
    hashes = {}
    d, ip = world(ctx, hashes)
    it = Items(d, ip, hs, 'bytes', (0x000, 0x100))
    hashes.update(it.hashes)
    f, states = written(ctx, d, it.state, it.term())
    ks = [k for k, _v in it.encoded] + [e for _q, e in it.others]
    for s, db in states:
        for a in ks:
            for how in ('item', 'get', 'again', 'iteration'):
                args = (a,) if how != 'iteration' else ()
                for s1, _r in list(d.run(s.copy(), how, db, *args)):
                    for b in ks:
                        ask(ctx, d, s1, db, b, b, it.encoded)
                        repeated(ctx, d, s1, db, b, it.encoded)
        listed(ctx, d, s, db, it.encoded, ks)
    ctx.functions |= d.functions()


def hashing(ctx):
    d, ip = world(ctx)
    loc = place(ctx, 'cdb_hash')
    keys = [b'', b'\xff' * 5, b'\xff' * 40, bytes(range(256))] + [bytes([i]) * 9 for i in range(
        0, 256, 5)]
    for k in keys:
        for s, r in d.run(St(), 'hash_of', T.C(k)):
            ctx.count('paths')
            if s.notes or not isinstance(r, Exc) and r[0] != 'c':
                ctx.undecided('hash', loc, s.notes or 'the hash of a constant')
                continue
            if isinstance(r, Exc) or not 0 <= r[2] < 2 ** 32:
                ctx.violation('hash', loc, 'the hash of %d bytes %s' % (
                    len(k), 'raises %s' % r.name if isinstance(r, Exc) else
                    'is not a 32-bit number'))
                continue
            for _s2, r2 in d.run(s.copy(), 'hash_of', T.C(k)):
                if r2 != r:
                    ctx.violation('hash', loc, 'the hash of the same bytes differs')
                else:
                    ctx.holds('hash')
    ctx.functions |= d.functions()
