"""Reachable abstract states of the classifiers.

For each classifier class the set of abstract states that sequences of its
public operations can lead to is computed to a fixpoint. One arbitrary token,
the witness w, is tracked exactly; of all other tokens only a summary is kept.
A ghost records the counts that the operations should have led to. Numbers are
symbolic: after each operation the counts are renamed to S, H (token) and
NS, NH (totals), and of what is known about them only a finite set of
predicates (thresholds on S, H and S + H) is kept, so that there are finitely
many states.
"""
import ast
import time

from . import par
from . import terms as T
from .interp import Interp, Stop, NEXT, RAISE
from .program import Program, AnchorMissing, Function
from .state import St, Obj, Exc, NUM, SOME as OTHER, elem_in

W = T.S('w')
S, H, NS, NH = (T.S(x) for x in ('S', 'H', 'NS', 'NH'))
ROOT = ('ref', -1)
GHOST = ('ref', -2)
WORLD = ('ref', -3)


def plain(path):
    while path[0] == 'app' and path[1] in ('abspath', 'realpath', 'normpath', 'expanduser'):
        path = path[2]
    return path


class Files:
    """The file system of the abstract world."""

    def get(self, st, path):
        return dict(st.heap[WORLD].data['files']).get(plain(path))

    def put(self, st, path, v):
        d = dict(st.heap[WORLD].data['files'])
        if v is None:
            d.pop(plain(path), None)
        else:
            d[plain(path)] = v
        self.set(st, files=tuple(sorted(d.items(), key=repr)))

    def set(self, st, **kw):
        st.upd(WORLD, data=dict(st.heap[WORLD].data, **kw))

    def op(self, st, name, args):
        """A file system operation; False if there is no such file."""
        if name in ('replace', 'rename', 'shutil.move', 'shutil.copy', 'shutil.copyfile',
                    'shutil.copy2'):
            v = self.get(st, args[0])
            if v is None:
                return False
            self.put(st, args[1], v)
            if name in ('replace', 'rename', 'shutil.move'):
                self.put(st, args[0], None)
        elif name in ('remove', 'unlink'):
            if self.get(st, args[0]) is None:
                return False
            self.put(st, args[0], None)
        return True


def numeric(t):
    return t[0] == 'rat' or t[0] == 'app' or t[0] == 's'


class Reach:
    MAX_STATES = 400

    def __init__(self, program, clsname, bigrams=False, sort='bytes', alone=True,
                 slurp=False, verbose=False):
        self.p = program
        self.cls = clsname
        self.short = program.classes[clsname].short
        self.bigrams = bigrams
        self.wsort = sort
        self.alone = alone
        self.slurp = slurp
        self.verbose = verbose
        self.findings = {}
        self.undecided = {}
        self.transitions = 0
        self.checked = 0
        self.everywhere = {}
        self.grown = False
        ip = self.ip = Interp(program)
        ip.roots = (ROOT,)
        ip.files = Files()
        ip.smear = not alone
        ip.sorts.update(w=sort, S='int', H='int', NS='int', NH='int')
        ip.sorts['n_o~'] = ip.sorts['n_o:'] = 'int'
        ip.sorts['o:words'] = ip.sorts['o~words'] = sort
        ip.shelf_hook = self.shelf
        ip.load_hook = self.pickle_load
        for name, f in (('Cdb', self.cdb_open),):
            try:
                ip.class_override = {program.cls(name).name: f}
            except AnchorMissing:
                pass
        try:
            ip.call_override[program.func('cdb_make').fid] = self.cdb_make
        except AnchorMissing:
            pass
        if slurp:
            for name, f in (('setup', self.nothing), ('_save_caches', self.nothing),
                            ('slurp', self.slurped)):
                m = program.find_method(clsname, name)
                if isinstance(m, Function):
                    ip.call_override[m.fid] = f
            m = program.find_method(clsname, 'spamprob')
            ip.const_override[(m.module.name, 'slurp_wordstream')] = \
                ('tup', T.C('http'), T.S('guts')) if slurp == 'url' else T.NONE
        self.thresholds = self.constants()

    def constants(self):
        """The thresholds counts are compared with in the classifiers."""
        out = {0}
        mods = {self.p.classes[c].module.name for c in self.p.mro(self.cls)
                if not isinstance(c, tuple)}
        for f in self.p.functions.values():
            if f.module.name in mods and f.cls is not None:
                for n in f.own_nodes():
                    if isinstance(n, ast.Compare) and any(
                            isinstance(c, ast.Attribute) and c.attr.endswith('count')
                            for c in ast.walk(n)):
                        for c in ast.walk(n):
                            if isinstance(c, ast.Constant) and type(c.value) is int \
                                    and 0 <= c.value <= 9:
                                out.add(c.value)
        return sorted(out)

    # -- the world -------------------------------------------------------------
    def nothing(self, ip, st, args, kwargs, node):
        yield st, T.NONE

    def slurped(self, ip, st, args, kwargs, node):
        yield st, st.new('stream', name='words', oneshot=False, rem=0, done=False,
                         alone=self.alone)

    def shelf(self, ip, st, args, node):
        flag = args[1] if len(args) > 1 else T.C('c')
        r = st.heap[WORLD].data['shelf']
        if flag == T.C('n'):
            st.upd(r, items=(), others=False, ovals=frozenset())
        yield st, r

    def pickle_load(self, ip, st, src, node):
        v = ip.files.get(st, src) if src[0] != 'unk' else None
        if v is None:
            return None
        if v == T.C('empty'):
            return iter([ip.raises(st, 'EOFError', node)])
        return ip.unpickled(st, v, node)

    def cdb_open(self, ip, st, args, kwargs, node):
        f = st.heap[args[0]].data['path'] if args and args[0][0] == 'ref' and \
            st.heap[args[0]].kind == 'ext' else None
        v = ip.files.get(st, f) if f else None
        if v is None or v[0] != 'ref':
            st.note('contents of a CDB file')
            yield st, T.unk('CDB')
            return
        yield st, ('view', 'items', v)

    def cdb_make(self, ip, st, args, kwargs, node):
        path = st.heap[args[0]].data['path']
        r = st.new('dict', items=(), base=None, others=False, flavor='dict')
        items = args[1] if len(args) > 1 else kwargs['items']
        base = st.stack
        st.stack = base + (r,)

        def enc(s, t):
            srt = ip.sort(t, s)
            if srt == 'bytes':
                yield s, t
            elif srt == 'str' or srt is None and elem_in(t):
                yield from ip.call_method(s, t, 'encode', [T.C('utf-8')], {}, node)
            else:
                s.note('item of a CDB of unknown type')
                yield s, T.unk('CDB item')

        def cb(s, e):
            xs = ip.exact_items(s, e)
            if xs is None or len(xs) != 2:
                s.note('item of a CDB')
                yield s, NEXT, None
                return
            for s1, k in enc(s, xs[0]):
                if isinstance(k, Exc):
                    yield s1, RAISE, k
                    continue
                for s2, v in enc(s1, xs[1]):
                    if isinstance(v, Exc):
                        yield s2, RAISE, v
                        continue
                    if k[0] == 'unk':
                        s2.upd(r, others=True)
                        yield s2, NEXT, None
                        continue
                    for s3 in ip.dict_set(s2, r, k, v):
                        yield s3, NEXT, None
        for s, k, x in ip.iterate(st, items, cb, node):
            s.stack = base
            if k == RAISE:
                yield s, x
            else:
                ip.files.put(s, path, r)
                yield s, T.NONE

    # -- ghost -------------------------------------------------------------------
    def ghost(self, st):
        d = st.heap[GHOST].data
        return d['S'], d['H'], d['NS'], d['NH']

    def set_ghost(self, st, s, h, ns, nh):
        st.upd(GHOST, data={'S': s, 'H': h, 'NS': ns, 'NH': nh})

    def obj(self, st):
        return st.heap[ROOT].data['obj']

    def set_obj(self, st, ref):
        st.upd(ROOT, data=dict(st.heap[ROOT].data, obj=ref))

    def site(self, method):
        f = self.p.find_method(self.cls, method)
        if isinstance(f, Function):
            return '%s:%s' % (f.module.rel, f.qual)
        return self.cls

    def report(self, prop, rule, method, detail, st):
        key = (prop, rule, self.short, method)
        if st.notes:
            self.undecided.setdefault(key, (detail, st.notes))
        else:
            self.findings.setdefault(key, {
                'property': prop, 'rule': rule, 'where': self.site(method),
                'class': self.short, 'detail': detail,
                'universe': 'one token' if self.alone else 'many tokens',
                'method': method, 'known': self.describe(st)})

    def describe(self, st):
        out = []
        for p, strict in st.lins:
            out.append('%s %s 0' % (T.show(('rat', p, T.ONE)), '<' if strict else '<='))
        return out[:8]

    # -- construction ----------------------------------------------------------------
    def ctor_args(self):
        init = self.p.find_method(self.cls, '__init__')
        a = init.node.args
        pos = a.args[1:]
        n = len(pos) - len(a.defaults)
        out = []
        for x in pos[:n]:
            self.ip.sorts['arg_' + x.arg] = 'str'
            out.append(T.S('arg_' + x.arg))
        return out

    def make(self, st):
        """Yields states with a new object on the present world."""
        for s, r in self.ip.instantiate(st, self.cls, self.ctor_args(), {}, None):
            if isinstance(r, Exc):
                yield s, r
                continue
            if self.bigrams:
                s.setattr(r, self.bigrams_attr(), T.TRUE)
            self.set_obj(s, r)
            yield s, r

    def bigrams_attr(self):
        """The attribute to which the constructor's use_bigrams goes."""
        base = self.p.cls('Classifier').name
        for s, r in self.ip.instantiate(St(), base, [], {'use_bigrams': T.S('flag')}, None):
            if not isinstance(r, Exc):
                for k, v in s.heap[r].attrs.items():
                    if v == T.S('flag'):
                        return k
        raise AnchorMissing('the attribute for use_bigrams')

    def start(self):
        st = St()
        sh = st.new('dict', items=(), base=None, others=False, flavor='shelf')
        st.heap[WORLD] = Obj('ext', type='world', data={'shelf': sh, 'files': ()})
        st.heap[GHOST] = Obj('ext', type='ghost', data={})
        st.heap[ROOT] = Obj('ext', type='root', data={'world': WORLD, 'ghost': GHOST,
                                                      'obj': T.NONE})
        self.set_ghost(st, S, H, NS, NH)
        ip = self.ip
        for x in (S, H, NS, NH):
            st = ip.assume_le(x, T.C(0), True, st)
            st = ip.assume_le(T.C(0), x, True, st)
        for s, r in self.make(st):
            if isinstance(r, Exc):
                self.report('C01', 'cannot-create', '__init__', repr(r), s)
                continue
            yield s

    # -- checks -------------------------------------------------------------------------
    def known(self, st, t, g):
        """Whether the number t is g in the state: True, False or None."""
        if t == g:
            return True
        if t[0] not in ('c', 'rat', 's'):
            return None
        r = self.ip.eq(t, g, st)
        if r is None and not st.notes and not T.has_unk(t):
            # A possible inequality of plain counts is one for some history.
            return False if self.plain_number(t) else None
        return r

    def plain_number(self, t):
        return all(a in (S, H, NS, NH) or a[0] == 's' and a[1].startswith('z:')
                   for a in T.atoms(t))

    def check_counts(self, st, prop, method, what):
        """Checks the state against the ghost; yields nothing, reports."""
        s0, h0, ns, nh = self.ghost(st)
        ip = self.ip
        o = st.heap[self.obj(st)]
        ok = True
        for attr, g in (('nspam', ns), ('nham', nh)):
            t = o.attrs.get(attr)
            if t is None:
                self.report(prop, 'no-total', method, '%s: %s is not set' % (what, attr), st)
                ok = False
                continue
            self.checked += 1
            r = self.known(st, t, g)
            if r is not True:
                if r is None:
                    st.note('value of %s' % attr)
                self.report(prop, 'total', method, '%s: %s is %s instead of %s' % (
                    what, attr, T.show(t), T.show(g)), st)
                ok = False
        for s, r in list(self.probe(st.copy())):
            self.checked += 1
            if isinstance(r, Exc):
                if self.alone:
                    self.report(prop, 'lookup-fails', method, '%s: looking up a token then '
                                'raises %s' % (what, r.name), s)
                    ok = False
                continue
            gone = ip.le(T.radd(s0, h0), T.C(0), s)
            if r == T.NONE:
                if gone is not True:
                    self.report(prop, 'token-lost', method, '%s: the token is not known, but '
                                'its counts are (%s, %s)' % (what, T.show(s0), T.show(h0)), s)
                    ok = False
                continue
            if r[0] != 'ref' or s.heap[r].kind != 'inst':
                s.note('result of the lookup')
                self.report(prop, 'lookup', method, what, s)
                continue
            if gone is True:
                self.report(prop, 'token-kept', method, '%s: the token is still known though '
                            'it occurs in no learned message' % what, s)
                ok = False
                continue
            for attr, g in (('spamcount', s0), ('hamcount', h0)):
                t = s.heap[r].attrs.get(attr, T.unk('no attribute'))
                x = self.known(s, t, g)
                if x is not True:
                    if x is None:
                        s.note('value of %s' % attr)
                    self.report(prop, 'count', method, '%s: %s of a token is %s instead of %s'
                                % (what, attr, T.show(t), T.show(g)), s)
                    ok = False
        return ok

    def probe(self, st):
        yield from self.ip.run_method(st, self.obj(st), '_wordinfoget', [W])

    # -- operations ---------------------------------------------------------------------------
    def streams(self):
        for one in (True, False):
            for rem in (0, 1, 2):
                if not one and rem != 2 or not self.alone and rem == 2:
                    continue
                yield one, rem

    def stream(self, st, one, rem):
        return st.new('stream', name='words', oneshot=one, rem=rem, done=False,
                      alone=self.alone)

    def has(self, name):
        return isinstance(self.p.find_method(self.cls, name), Function)

    def ops(self):
        out = []
        for spam in (True, False):
            for one, rem in self.streams():
                out.append(('learn', spam, one, rem))
                out.append(('unlearn', spam, one, rem))
        if self.alone:
            out.append(('spamprob', True, True, 1))
            out.append(('spamprob', False, True, 0))
        out.append(('probability',))
        if self.has('store'):
            out.append(('store',))
            if self.has('load'):
                out.append(('store_load',))
            out.append(('reopen',))
        if self.p.find_method(self.cls, '__getstate__') is not None and not self.has('store'):
            out.append(('pickle',))
        return out

    def run_op(self, st, op):
        """Yields the states after the operation."""
        ip = self.ip
        name = op[0]
        if name in ('learn', 'unlearn'):
            _n, spam, one, rem = op
            yield from self.train(st, name, spam, one, rem)
        elif name == 'spamprob':
            _n, ev, one, rem = op
            ws = self.stream(st, one, rem)
            for s, r in self.forgetful(ip.run_method(st, self.obj(st), 'spamprob', [ws],
                                                     {'evidence': T.C(ev)})):
                if self.untouched(s, 'C03', 'spamprob', 'after spamprob()'):
                    yield s
        elif name == 'probability':
            for s, r in self.probe(st):
                if isinstance(r, Exc) or r == T.NONE:
                    continue
                s.events = ()
                s.facts[('probed',)] = r
                for s2, v in self.forgetful(ip.run_method(s, self.obj(s), 'probability', [r])):
                    if self.untouched(s2, 'C03', 'probability', 'after probability()'):
                        yield s2
        elif name in ('store', 'store_load', 'reopen'):
            for s, v in ip.run_method(st, self.obj(st), 'store', []):
                if isinstance(v, Exc):
                    if self.alone:
                        self.report('C09', 'store-fails', 'store',
                                    'storing raises %s at %s' % (v.name, self.at(v)), s)
                    continue
                if not self.check_counts(s, 'C09', 'store', 'after store()'):
                    continue
                if name == 'store':
                    if self.has_shelf(s):
                        yield s
                    continue
                yield from self.load_again(s, name)
        elif name == 'pickle':
            for s, v in ip.pickled(st, self.obj(st), None):
                if isinstance(v, Exc):
                    if self.alone:
                        self.report('C10', 'pickle-fails', '__getstate__', v.name, s)
                    continue
                for s2, r in ip.unpickled(s, v, None):
                    if isinstance(r, Exc):
                        if self.alone:
                            self.report('C10', 'unpickle-fails', '__setstate__', v.name, s2)
                        continue
                    self.set_obj(s2, r)
                    if self.check_counts(s2, 'C10', '__getstate__', 'after pickling and '
                                         'unpickling'):
                        yield s2

    def at(self, exc):
        return '%s:%s' % (exc.site[1], exc.site[2]) if exc.site else '?'

    def has_shelf(self, st):
        return bool(st.heap[st.heap[WORLD].data['shelf']].items)

    def load_again(self, st, name):
        ip = self.ip
        if name == 'store_load':
            outs = ip.run_method(st, self.obj(st), 'load', [])
        else:
            def go():
                if self.has('close'):
                    for s, v in ip.run_method(st, self.obj(st), 'close', []):
                        if isinstance(v, Exc):
                            yield s, v
                        else:
                            yield from self.make(s)
                else:
                    yield from self.make(st)
            outs = go()
        what = 'after store() and ' + ('load()' if name == 'store_load' else
                                       'creating another one on the same file')
        for s, v in outs:
            if isinstance(v, Exc):
                if self.alone:
                    self.report('C10', 'load-fails', 'load', '%s: %s is raised at %s' % (
                        what, v.name, self.at(v)), s)
                continue
            if self.check_counts(s, 'C10', 'load', what):
                yield s

    def forgetful(self, outs):
        ip = self.ip
        ip.opaque = ip.forgetful = True
        try:
            outs = list(outs)
        finally:
            ip.opaque = ip.forgetful = False
        return outs

    def untouched(self, st, prop, method, what):
        for e in st.events:
            if e[0] in ('dbset', 'dbdel', 'dbclear'):
                self.report(prop, 'database-changed', method, '%s: %s at %s' % (
                    what, e[0], e[-1][1:3] if isinstance(e[-1], tuple) else ''), st)
                return False
        return self.check_counts(st, prop, method, what)

    def train(self, st, name, spam, one, rem):
        ip = self.ip
        s0, h0, ns, nh = self.ghost(st)
        prop = 'C01' if name == 'learn' else 'C02'
        what = 'after %s(%s) of %s with the token %s' % (
            name, 'spam' if spam else 'ham', 'an iterator' if one else 'a collection',
            ('not in it', 'once in it', 'more than once in it')[rem])
        starts = [st]
        if name == 'unlearn':
            starts = []
            for s, neg in ip.fork(('le', False, ns if spam else nh, T.C(0)), st):
                if neg:
                    ws = self.stream(s, one, rem)
                    for s2, v in ip.run_method(s, self.obj(s), name, [ws, T.C(spam)]):
                        if not isinstance(v, Exc):
                            self.report(prop, 'not-refused', name, '%s: not refused though no '
                                        'such message was learned' % what, s2)
                            continue
                        if self.check_counts(s2, prop, name, what + ', refused'):
                            yield s2
                    continue
                if rem:
                    for s2, zero in ip.fork(('le', False, s0 if spam else h0, T.C(0)), s):
                        starts.append(s2)
                else:
                    starts.append(s)
        for s in starts:
            ws = self.stream(s, one, rem)
            d = 1 if name == 'learn' else -1
            dt = d if rem else 0
            if name == 'unlearn' and rem and ip.le(s0 if spam else h0, T.C(0), s):
                dt = 0
            for s2, v in ip.run_method(s, self.obj(s), name, [ws, T.C(spam)]):
                if isinstance(v, Exc):
                    if self.alone:
                        self.report(prop, 'fails', name, '%s: %s is raised at %s' % (
                            what, v.name, self.at(v)), s2)
                    continue
                if spam:
                    self.set_ghost(s2, T.radd(s0, T.C(dt)), h0, T.radd(ns, T.C(d)), nh)
                else:
                    self.set_ghost(s2, s0, T.radd(h0, T.C(dt)), ns, T.radd(nh, T.C(d)))
                if self.check_counts(s2, prop, name, what):
                    yield s2

    # -- generalisation ---------------------------------------------------------------------------
    def generalise(self, st):
        """The state with its numbers renamed and most conditions forgotten."""
        ip = self.ip
        s0, h0, ns, nh = self.ghost(st)
        new = St()
        new.notes = st.notes
        lins = []
        names = {}

        def le(a, b):
            return ip.le(a, b, st) is True

        def stale(t, path):
            n = 'z:' + path
            ip.sorts[n] = 'int'
            if n not in names:
                names[n] = t
            return T.S(n)

        def isnum(t):
            return t[0] == 'rat' or t[0] == 'c' and t[1] in ('int', 'float', 'frac') or \
                t[0] == 's' and ip.sorts.get(t[1]) == 'int' or t == NUM or \
                t[0] == 'app' and ip.sort(t, st) in ('int', 'float')

        def number(t, path, mode):
            if elem_in(t) or mode == 'other':
                return OTHER
            if t[0] == 'c':
                return t
            if t == s0:
                return S
            if t == h0:
                return H
            if t == ns:
                return NS
            if t == nh:
                return NH
            return stale(t, path)

        def matches(t, g):
            return t == g or ip.eq(t, g, st) is True

        trans = {}
        done = {}

        def flat_numbers(t, out):
            """The numbers in what is known about w, in order."""
            if t[0] == 'ref':
                o = st.heap[t]
                if o.kind == 'inst':
                    for k in sorted(o.attrs, reverse=True):   # spamcount before hamcount
                        flat_numbers(o.attrs[k], out)
                elif o.kind == 'list':
                    for x in o.items:
                        flat_numbers(x, out)
                elif o.kind == 'ext' and o.type == 'pickled':
                    if 'state' in o.data:
                        flat_numbers(o.data['state'], out)
                    else:
                        for _k, x in sorted(o.data['attrs'], reverse=True):
                            flat_numbers(x, out)
            elif t[0] == 'tup':
                for x in t[1:]:
                    flat_numbers(x, out)
            elif isnum(t):
                out.append(t)

        def conv(t, path, mode, layout=None):
            if not isinstance(t, tuple) or not t:
                return t
            if not isinstance(t[0], str):
                return tuple(conv(x, path, mode, layout) for x in t)
            k = t[0]
            if k == 'ref':
                return ref(t, path, mode, layout)
            if mode == 'other' and k == 'unk':
                return OTHER
            if isnum(t):
                if layout is not None:
                    return layout(t, path)
                return number(t, path, mode)
            if k == 'tup':
                return ('tup',) + tuple(conv(x, '%s.%d' % (path, i), mode, layout)
                                        for i, x in enumerate(t[1:]))
            if k in ('cat', 'fmt', 'app'):
                if T.mentions(t, lambda x: x in (s0, h0, ns, nh) and x[0] != 'c'):
                    return tuple([t[0]] + [conv(x, path, mode, layout) if isinstance(x, tuple)
                                           else x for x in t[1:]])
                return t
            return t

        def about_w(v, path):
            """A layout for the numbers of a value kept for w."""
            nums = []
            flat_numbers(v, nums)
            if len(nums) == 2:
                for order in ((S, H), (H, S)):
                    if matches(nums[0], s0 if order[0] == S else h0) and \
                            matches(nums[1], h0 if order[0] == S else s0):
                        left = list(order)
                        return lambda t, p: left.pop(0)
            left2 = list(range(len(nums)))

            def other(t, p):
                i = left2.pop(0) if left2 else 'x'
                if t == s0 and t[0] != 'c':
                    return S
                if t == h0 and t[0] != 'c':
                    return H
                if t == ns and t[0] != 'c':
                    return NS
                if t == nh and t[0] != 'c':
                    return NH
                return stale(t, '%s#%s' % (path, i))
            return other

        def mentions_w(t):
            return T.mentions(t, lambda x: x == W) and not elem_in(t)

        def ref(t, path, mode, layout):
            if t in done:
                return done[t]
            o = st.heap.get(t)
            if o is None:
                return t
            if t in (ROOT, GHOST, WORLD):
                n = t
            else:
                St.counter += 1
                n = ('ref', St.counter)
            done[t] = n
            if o.kind == 'dict':
                new.heap[n] = dict_(o, path, mode)
            elif o.kind == 'set':
                items = tuple((k, v) for k, v in o.items if not elem_in(k) and
                              (v or o.others or o.base))
                others = o.others or any(elem_in(k) and v for k, v in o.items)
                others, _ov, ks = self.common(path, others, (), o.d.get('ks'))
                if not others and not o.base:
                    items = tuple(i for i in items if i[1])
                new.heap[n] = o.with_(items=tuple(sorted(items, key=repr)), others=others,
                                      ks=ks)
            elif o.kind == 'inst':
                a = {}
                for k in sorted(o.attrs, reverse=True):
                    a[k] = conv(o.attrs[k], '%s.%s' % (path, k), mode, layout)
                new.heap[n] = o.with_(attrs=a)
            elif o.kind == 'ext' and o.type == 'world':
                new.heap[n] = o.with_(data={
                    'shelf': ref(o.data['shelf'], 'shelf', mode, None), 'files': ()})
            elif o.kind == 'ext' and o.type == 'root':
                new.heap[n] = o.with_(data={
                    'obj': ref(o.data['obj'], 'obj', mode, None),
                    'ghost': ref(GHOST, 'ghost', mode, None),
                    'world': ref(WORLD, 'world', mode, None)})
            elif o.kind == 'ext' and o.type == 'ghost':
                new.heap[n] = o.with_(data={'S': S, 'H': H, 'NS': NS, 'NH': NH})
            elif o.kind == 'ext' and o.type == 'pickled':
                d = {k: conv(v, '%s.%s' % (path, k), mode, layout) for k, v in o.data.items()}
                new.heap[n] = o.with_(data=d)
            else:
                new.heap[n] = o.with_(**{k: conv(v, path + '.' + k, mode, layout)
                                         for k, v in o.d.items() if isinstance(v, tuple)})
            return n

        def dict_(o, path, mode):
            if o.d.get('flavor') == 'cache':
                return o
            keys = [k for k, v in o.items if v is not None]
            if keys and all(isnum(k) for k in keys):
                # The entries are for counts, not for tokens: anything may be there.
                return Obj('dict', items=(), base='cache:' + path, others=False, flavor='cache')
            items = []
            others = o.others
            ovals = set(o.d.get('ovals', ()))
            for k, v in o.items:
                if elem_in(k):
                    if v is not None:
                        others = True
                        ovals.add(v)
                    continue
                if v is None:
                    continue
                p = '%s[%s]' % (path, T.show(k))
                if mentions_w(k):
                    v = conv(v, p, mode, about_w(v, p))
                else:
                    v = conv(v, p, mode)
                items.append((k, v))
            ov = []
            seen = set()
            for v in sorted(ovals, key=repr):
                x = self.portable(new, conv(v, path + '[*]', 'other'))
                if x not in seen:
                    seen.add(x)
                    ov.append(x)
            others, ov, ks = self.common(path, others, ov, o.d.get('ks'))
            ov = [self.real(new, x) for x in ov]
            return o.with_(items=tuple(sorted(items, key=lambda x: repr(x[0]))),
                           others=others, ovals=frozenset(ov), ks=ks)

        ref(ROOT, 'root', None, None)

        # What is known about w and constants stays known.
        for k, v in st.facts.items():
            if k[0] in ('isinst', 'eq', 'bool', 'in', 'is') and T.mentions(k, lambda x: x == W) \
                    and not elem_in(k) and not T.mentions(k, lambda x: x[0] in (
                        'ref', 'rat') or x[0] == 's' and x != W):
                new.facts[k] = v
        # The predicates on numbers.
        def keep(old, sym, k):
            if le(old, T.C(k)):
                lins.append((sym, T.C(k), True))
            elif le(T.C(k + 1), old):
                lins.append((sym, T.C(k), False))
        for old, sym in ((s0, S), (h0, H)):
            if le(T.C(0), old):
                lins.append((T.C(0), sym, True))
            keep(old, sym, 0)
        for k in self.thresholds:
            keep(T.radd(s0, h0), T.radd(S, H), k)
        for old, sym in ((ns, NS), (nh, NH)):
            if le(T.C(0), old):
                lins.append((T.C(0), sym, True))
        for n, t in sorted(names.items()):
            if ip.sort(t, st) == 'int' and le(T.C(0), t):
                lins.append((T.C(0), T.S(n), True))
        for a, b, val in lins:
            r = ip.assume_le(a, b, val, new)
            if r is None:
                return None
        return new

    def dump(self, seen):
        import pprint
        with open('/tmp/states', 'w') as fp:
            for g, _t in seen.values():
                refs = self.ip.reach(g)
                num = {r: i for i, r in enumerate(refs)}
                def sh(t):
                    if isinstance(t, tuple):
                        if len(t) == 2 and t[0] == 'ref':
                            return '@%s' % num.get(t)
                        if t and isinstance(t[0], str):
                            if t[0] == 'tup':
                                return tuple(sh(x) for x in t)
                            return T.show(t)
                        return tuple(sh(x) for x in t)
                    if isinstance(t, dict):
                        return {k: sh(v) for k, v in t.items()}
                    if isinstance(t, frozenset):
                        return sorted(map(str, map(sh, t)))
                    return t
                for r in refs:
                    o = g.heap[r]
                    print(num[r], o.kind, {k: sh(v) for k, v in o.d.items()}, file=fp)
                print('facts', g.facts, self.describe(g), 'notes', g.notes, file=fp)
                print('---', file=fp)

    def portable(self, st, t):
        if t[0] == 'ref':
            o = st.heap[t]
            if o.kind == 'inst':
                return ('new', 'inst', o.cls, tuple(
                    (k, self.portable(st, v)) for k, v in sorted(o.attrs.items())))
            return ('new', 'other', t)
        if t[0] == 'tup':
            return ('tup',) + tuple(self.portable(st, x) for x in t[1:])
        return t

    def real(self, st, t):
        if t[0] == 'new':
            if t[1] == 'inst':
                return st.new('inst', cls=t[2], sym=None, attrs={
                    k: self.real(st, v) for k, v in t[3]})
            return t[2]
        if t[0] == 'tup':
            return ('tup',) + tuple(self.real(st, x) for x in t[1:])
        return t

    def common(self, path, others, ovals, ks):
        """What is kept for other tokens in any state is taken to be there in
        every state."""
        if self.alone:
            return others, ovals, ks if others else None
        if any(x[0] == 'new' and x[1] == 'other' for x in ovals):
            return others, ovals, ks
        old = self.everywhere.get(path, (False, frozenset(), None))
        new = (old[0] or others, old[1] | frozenset(ovals),
               ks if old[2] in (None, ks) else old[2] if ks is None else 'mix')
        if new != old:
            self.everywhere[path] = new
            self.grown = True
        return new[0], sorted(new[1], key=repr), new[2]

    # -- the fixpoint ---------------------------------------------------------------------------------
    def start_states(self):
        for s in self.start():
            if self.check_counts(s, 'C01', '__init__', 'a new one'):
                for attr, g in (('nspam', NS), ('nham', NH)):
                    s.setattr(self.obj(s), attr, g)
                yield s

    def step(self, g, op):
        """The generalised states after the operation in the state."""
        ip = self.ip
        st = g.copy()
        st.events = ()
        ip.steps = 0
        St.only = {'dbset', 'dbdel', 'dbclear'} if op[0] in ('spamprob', 'probability') else ()
        outs = {}
        try:
            for s in self.run_op(st, op):
                self.transitions += 1
                n = self.generalise(s)
                if n is not None:
                    outs.setdefault(ip.key(n), n)
        except Stop as e:
            self.undecided[('*', str(op[:2]), self.short, '')] = (str(e), ())
        finally:
            St.only = None
        return list(outs.values())

    def merge(self, end):
        """Takes over what another process found out."""
        counter, sorts, everywhere, findings, undecided, nums, unm, fns = end
        St.counter = max(St.counter, counter)
        self.ip.sorts.update(sorts)
        for path, new in everywhere.items():
            self.common(path, *new)
        for k, v in findings.items():
            self.findings.setdefault(k, v)
        for k, v in undecided.items():
            self.undecided.setdefault(k, v)
        for k, v in zip(('transitions', 'checked'), nums):
            setattr(self, k, getattr(self, k) + v)
        for k, v in zip(('dropped', 'widened'), nums[2:]):
            setattr(self.ip, k, getattr(self.ip, k) + v)
        self.ip.unmodelled.update(unm)
        self.ip.visited['functions'] |= fns

    def run(self, n=None, deadline=None, enough=None):
        ip = self.ip
        seen = {}
        t0 = time.time()

        def put(g, trace):
            if g is None:
                return None
            k = ip.key(g)
            if k in seen:
                return None
            seen[k] = g, trace
            return g, trace
        level = []
        for s in list(self.start_states()):
            x = put(self.generalise(s), ())
            if x:
                level.append(x)
        ops = self.ops()
        while level:
            if len(seen) > self.MAX_STATES:
                self.undecided[('*', 'states', self.short, '')] = ('too many states', ())
                break
            if deadline and time.time() - t0 > deadline:
                self.undecided[('*', 'time', self.short, '')] = ('not finished in time', ())
                break
            tasks = [(g, trace, op) for g, trace in level for op in ops]
            base = self.transitions, self.checked, ip.dropped, ip.widened
            self.grown = False

            def do(task):
                g, trace, op = task
                known = set(self.findings)
                outs = self.step(g, op)
                for k in self.findings:
                    if k not in known:
                        self.findings[k]['history'] = [list(map(str, o)) for o in trace + (op,)]
                return outs

            def finish():
                now = self.transitions, self.checked, ip.dropped, ip.widened
                return (St.counter, ip.sorts, self.everywhere, self.findings, self.undecided,
                        [a - b for a, b in zip(now, base)], ip.unmodelled,
                        ip.visited['functions'])
            results, ends = par.run(tasks, do, finish, n)
            for e in ends:
                self.merge(e)
            if enough and enough(self.findings):
                break
            new = [(g, tasks[i][1] + (tasks[i][2],)) for i, outs in results for g in outs]
            level = []
            if self.grown:
                # There may be more in all states known so far.
                old = [x for x in seen.values()]
                seen.clear()
                while True:
                    self.grown = False
                    again = [(self.generalise(g), t) for g, t in old + new]
                    if not self.grown:
                        break
                new = again
            for g, t in new:
                x = put(g, t)
                if x:
                    level.append(x)
            if self.verbose:
                print('%s: %d states, %d new, %d transitions, %d findings, %d undecided, %.0f s'
                      % (self.short, len(seen), len(level), self.transitions,
                         len(self.findings), len(self.undecided), time.time() - t0), flush=True)
            if self.verbose == 2:
                self.dump(seen)
        self.states = len(seen)
        self.sample = [list(map(str, o)) for o in max(
            (t for _g, t in seen.values()), key=len, default=())]
        return self
