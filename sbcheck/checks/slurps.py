"""C29: following links in messages."""
from .. import terms as T
from ..disk import Disk, DISK
from ..driver import Driver
from ..models import model
from ..state import St, Exc
from ..setup import where, at
from .pickles import unpickle

SOURCE = '''
import requests
from sbclassifier.classifiers import slurping
from sbclassifier.classifiers.constants import HAM_CUTOFF
from sbclassifier.classifiers.constants import SPAM_CUTOFF
from sbclassifier.classifiers.slurping import SlurpingClassifier


class Pages:
    """The cache of pages, without their expiry."""

    def __init__(self, *args, **kw):
        self.pages = {}

    def remove_expired_messages(self):
        pass

    def add_message(self, message, *args, **kw):
        self.pages[message.id()] = message

    def __contains__(self, key):
        return key in self.pages

    def get(self, key, default=None):
        return self.pages.get(key, default)

    def __getitem__(self, key):
        return self.pages[key]

    def __len__(self):
        return len(self.pages)

    def __iter__(self):
        return iter(self.pages)

    def keys(self):
        return self.pages.keys()


class Page:
    def __init__(self, text, key):
        self.text = text
        self.key = key

    def id(self):
        return self.key


class Headers:
    def __init__(self, type, other):
        self.type = type
        self.other = other

    def get(self, name, default=None):
        if name.lower() == 'content-type':
            return default if self.type is None else self.type
        return default

    def __contains__(self, name):
        return self.get(name) is not None

    def __getitem__(self, name):
        result = self.get(name)
        if result is None:
            raise KeyError(name)
        return result

    def items(self):
        result = [('x-other', self.other)]
        if self.type is not None:
            result.append(('content-type', self.type))
        return result

    def keys(self):
        return [name for name, value in self.items()]

    def __iter__(self):
        return iter(self.keys())


class Response:
    def __init__(self, code, type, other, text, content):
        self.status_code = code
        self.headers = Headers(type, other)
        self.text = text
        self.content = content

    @property
    def ok(self):
        return self.status_code < 400

    def raise_for_status(self):
        if self.status_code >= 400:
            raise requests.exceptions.HTTPError

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, type, value, traceback):
        pass


def cutoffs():
    return HAM_CUTOFF, SPAM_CUTOFF

def made():
    return SlurpingClassifier()

def link(x):
    slurping.slurp_wordstream = x

def current_link():
    return slurping.slurp_wordstream

def evidence(c, words):
    return c.spamprob(words, True)

def keyword(c, words):
    return c.spamprob(words, evidence=True)

def score(c, words):
    return c.spamprob(words)

def train(c, words):
    c.learn(words, True)

def untrain(c, words):
    c.unlearn(words, True)
'''
#: The maximum number of clues used for the analysis.
LIMIT = 4
ERRORS = tuple('requests.exceptions.' + n for n in (
    'ConnectionError', 'ReadTimeout', 'ConnectTimeout', 'InvalidURL', 'TooManyRedirects',
    'ChunkedEncodingError', 'RequestException'))


@model('requests.get', 'requests.api.get')
def m_get(ip, st, args, kwargs, node):
    """A page is fetched."""
    url = args[0] if args else kwargs.get('url', T.unk('url'))
    n = sum(e[0] == 'fetch' for e in st.events)
    for name in getattr(ip, 'errors', ERRORS):
        s = st.copy()
        x = ip.raises(s, name, node)
        x[1].payload = (T.S('text of failure %d' % n),)
        s.event('fetch', url, name, None, None)
        yield x
    for kind in ('type', None):
        s = st.copy()
        part = {}
        for what in ('code', 'type', 'other', 'text', 'content'):
            t = part[what] = T.S('%s of response %d' % (what, n))
            ip.sorts[t[1]] = {'code': 'int', 'content': 'bytes'}.get(what, 'str')
        s = ip.assume_le(T.C(100), part['code'], True, s)
        if s is not None:
            s = ip.assume_le(part['code'], T.C(599), True, s)
        if kind is None:
            part['type'] = T.NONE
        s.event('fetch', url, None, part['code'], part['type'])
        yield from ip.call(s, ('cls', 'sbdriver:Response'), [
            part[w] for w in ('code', 'type', 'other', 'text', 'content')], {}, node)


def world(ctx, clues, base=False):
    p = ctx.p
    d = Driver(p, SOURCE)
    ip = d.ip
    ip.files = Disk()
    ip.roots = (DISK,)
    ip.load_hook = unpickle
    ip.faults = True
    ip.fault_filter = lambda what: what == 'getaddrinfo'
    ip.sorts.update({'guts': 'str', 'other guts': 'str', 'word': 'bytes', 'clue': 'bytes', 'token': 'bytes',
                     'failure': 'str'})

    def driver_class(name):
        def make(ip, st, args, kwargs, node):
            yield from ip.call(st, ('cls', 'sbdriver:' + name), list(args), dict(kwargs), node)
        return make
    ip.class_override = {p.cls('ExpiryFileCorpus').name: driver_class('Pages')}

    def page(ip, st, args, kwargs, node):
        key = args[1] if len(args) > 1 else kwargs.get('message_id', T.NONE)
        yield from ip.call(st, ('cls', 'sbdriver:Page'), [args[0], key], {}, node)
    for name in ('from_bytes', 'from_string', 'message_from_bytes', 'message_from_string'):
        try:
            ip.call_override[p.func(name).fid] = page
        except Exception:
            pass

    def tokens(ip, st, args, kwargs, node):
        # There is a link on the page, too.
        st.event('tokenized', tuple(args[1:]))
        for s, r in d.run(st, 'link', ('tup', T.C('http'), T.S('other guts'))):
            yield s, ip.new_list(s, [T.S('token')])
    t = p.cls('Tokenizer')
    for name in ('__call__', 'tokenize'):
        f = p.find_method(t.name, name)
        if f is not None and not isinstance(f, tuple):
            ip.call_override[f.fid] = tokens

    def made(ip, st, args, kwargs, node):
        if False:
            yield
        yield st, T.NONE
    f = p.find_method(t.name, '__init__')
    if f is not None and not isinstance(f, tuple):
        ip.call_override[f.fid] = made

    def scored(ip, st, args, kwargs, node):
        n = sum(e[0] == 'scored' for e in st.events)
        pr = T.S('prob%d' % n)
        ip.sorts[pr[1]] = 'float'
        words = args[1] if len(args) > 1 else kwargs.get('wordstream', T.unk('words'))
        full = args[2] if len(args) > 2 else kwargs.get('evidence', T.FALSE)
        xs = ip.exact_items(st, words)
        st = ip.assume_le(T.C(0.0), pr, True, st.copy())
        st = ip.assume_le(pr, T.C(1.0), True, st)
        r = ip.new_list(st, [('tup', T.C(b'*H*'), T.S('H%d' % n)),
                             ('tup', T.C(b'*S*'), T.S('S%d' % n))] +
                        [('tup', T.C(b'clue%d' % i), T.S('prob of clue%d' % i))
                         for i in range(clues)])
        st.event('scored', n, pr, r, None if xs is None else tuple(xs))
        for s, b in ip.truth(full, st):
            yield s, ('tup', pr, r) if b else pr
    base_class = p.cls('Classifier').name
    ip.call_override[p.find_method(base_class, 'spamprob').fid] = scored
    for m in p.modules.values():
        if 'MAX_DISCRIMINATORS' in m.bindings:
            ip.const_override[(m.name, 'MAX_DISCRIMINATORS')] = T.C(LIMIT)
        if 'X_ONLY_SLURP_BASE' in m.bindings:
            ip.const_override[(m.name, 'X_ONLY_SLURP_BASE')] = T.C(base)
    return d, ip


def start(ip):
    st = St()
    ip.files.install(st, {}, ('/', '/cwd', '/tmp'))
    return st


def interrupted(r):
    return isinstance(r, Exc) and r.name in ('KeyboardInterrupt', 'SystemExit')


def network(s, since=0):
    """The requests among the events: (what, name or URL)."""
    out = []
    for e in s.events[since:]:
        if e[0] == 'lookup':
            out.append(('lookup', e[2][0] if e[2] else T.unk('host')))
        elif e[0] == 'fetch':
            out.append(('fetch', e[1]))
    return out


def mentions(t, x):
    return t == x or isinstance(t, tuple) and any(mentions(y, x) for y in t)


def text_of(t):
    """The constant text, or None."""
    return t[2] if t[0] == 'c' and isinstance(t[2], str) else None


#: Links: a symbol, and texts of special forms.
LINKS = (T.S('guts'), T.C(''), T.C('www.host.example.com/a/b?c=d'), T.C('host.co.uk:81/x.html'),
         T.C('example.com/pic.jpg'), T.C('/x'), T.C('localhost'))


def check_C29(ctx):
    ctx.explanation = (
        'Abstract interpretation of scoring, learning and unlearning by the classifier that '
        'follows links, together with a modelled network: name lookups and requests answer and '
        'fail in every way, with symbols for the link, the status, the type and the text of the '
        'page. The probabilities before and after are symbols. On each path on which something is '
        'requested, the facts have to say that the score is strictly between the cutoffs, that '
        'fewer clues than the maximum were listed and that there is a link. Sequences of two '
        'operations, also by another classifier that reads the caches of the first from disk, '
        'must not request a link again that failed, nor a page in the cache. Nothing is run.')
    ctx.assumptions += [
        'requests.get() raises nothing but its own exceptions',
        'the cache of pages is the subject of C14 to C16; its expiry is left out here',
        'a maximum of 4 clues stands for any maximum']
    ctx.rule('asked', 'the network is used in scoring only if the score is undecided, there are '
             'fewer clues than the maximum, and there is a link')
    ctx.rule('result', 'the result is the first score with its clues, or the second with its '
             'clues if that one is decided')
    ctx.rule('one link', 'an operation requests only the link of its message, once')
    ctx.rule('failed once', 'a link that failed is not requested again')
    ctx.rule('kept', 'a page that was fetched is not fetched again while it is in the cache')
    ctx.rule('survives', 'a failure of the network does not raise')
    tasks = [('once', how, clues, link) for how in ('evidence', 'keyword', 'score')
             for clues in range(LIMIT + 1) for link in (None, 0, 2)]
    tasks += [('twice', first, second, link, base, new)
              for first in ('score', 'train', 'untrain') for second in ('score', 'train')
              for link in range(len(LINKS)) for base in (False, True) for new in (False, True)
              if not (base and link == 0)]
    ctx.parallel(tasks, lambda c, t: once(c, *t[1:]) if t[0] == 'once' else twice(c, *t[1:]))


def linked(link):
    return T.NONE if link is None else ('tup', T.C('http'), LINKS[link])


def once(ctx, how, clues, link):
    d, ip = world(ctx, clues)
    loc = where(ctx.p, ctx.p.cls('SlurpingClassifier').name, 'spamprob')
    st = start(ip)
    cut = [v[1:] for _s, v in d.run(st.copy(), 'cutoffs')][0]
    for s0, c in d.run(st, 'made'):
        for s1, _r in d.run(s0, 'link', linked(link)):
            s1.events = ()
            words = ip.new_list(s1, [T.S('word')])
            for s, r in d.run(s1, how, c, words):
                if interrupted(r):
                    continue
                ctx.count('paths')
                judge(ctx, ip, s, r, how, clues, link, cut, loc)
    ctx.functions |= d.functions()


def unsure(ip, s, p, cut):
    """Whether the probability is strictly between the cutoffs; None if the
    path does not tell."""
    a = ip.decide(('le', True, cut[0], p), s)
    b = ip.decide(('le', True, p, cut[1]), s)
    if a is False or b is False:
        return False
    return True if a and b else None


def judge(ctx, ip, s, r, how, clues, link, cut, loc):
    if s.notes:
        ctx.undecided('asked', loc, s.notes)
        return
    asked = network(s)
    scores = [e for e in s.events if e[0] == 'scored']
    if isinstance(r, Exc):
        ctx.violation('survives', loc, '%s is raised at %s' % (r.name, at(r)))
        return
    ctx.holds('survives')
    if not scores:
        ctx.undecided('asked', loc, 'the score without the link is not computed by spamprob() of '
                      'the base class')
        return
    first = scores[0]
    # The first request in the events must come after the first score.
    kinds = [e[0] for e in s.events if e[0] in ('scored', 'lookup', 'fetch')]
    why = None
    if asked:
        if kinds[0] != 'scored':
            why = 'the network is used before the message is scored'
        elif link is None:
            why = 'the network is used for a message without a link'
        elif unsure(ip, s, first[2], cut) is not True:
            why = 'the network is used for a score of which the path does not tell that it is ' \
                'strictly between the cutoffs'
        elif clues + 2 >= LIMIT:
            why = 'the network is used although %d clues of at most %d are listed' % (
                clues + 2, LIMIT)
        if why:
            ctx.violation('asked', loc, why)
        else:
            ctx.holds('asked')
    else:
        ctx.holds('asked')
    one_link(ctx, s, 0, link, loc)
    # The result.
    pair = how != 'score'
    if pair and (r[0] != 'tup' or len(r) != 3):
        ctx.undecided('result', loc, 'the result is %s' % T.show(r)[:60])
        return
    if not pair and r[0] == 'tup':
        ctx.violation('result', loc, 'evidence is given without being asked for')
        return
    p = r[1] if pair else r
    if T.is_unk(p):
        ctx.undecided('result', loc, 'the score is not known')
        return
    from_ = [e for e in scores if e[2] == p]
    if not from_:
        ctx.violation('result', loc, 'the score is %s' % T.show(p)[:60])
        return
    e = from_[0]
    if pair and r[2] != e[3] and ip.exact_items(s, r[2]) != ip.exact_items(s, e[3]):
        ctx.violation('result', loc, 'the score and the clues are not of the same scoring')
        return
    if e is not first and unsure(ip, s, e[2], cut) is not False:
        ctx.violation('result', loc, 'the score with the tokens of the page is the result, on a '
                      'path that does not tell that it is decided')
        return
    ctx.holds('result')


def one_link(ctx, s, since, link, loc):
    asked = network(s, since)
    for what in ('lookup', 'fetch'):
        xs = [x for w, x in asked if w == what]
        if len(xs) > 1:
            ctx.violation('one link', loc, '%s of %s in one operation' % (
                what, ', '.join(T.show(x)[:40] for x in xs)))
            return
        for x in xs:
            if mentions(x, T.S('other guts')):
                ctx.violation('one link', loc, 'a link on the page is followed')
                return
            if what == 'fetch' and link is not None and LINKS[link][0] == 's' and \
                    not mentions(x, LINKS[link]):
                ctx.violation('one link', loc, '%s is fetched' % T.show(x)[:60])
                return
    ctx.holds('one link')


def failed(ip, s, since):
    """How the link failed, by the facts of the path; None if it did not."""
    for e in s.events[since:]:
        if e[0] == 'lookup' and e[4] is not None:
            return 'the lookup of its name failed'
        if e[0] == 'fetch':
            if e[2] is not None:
                return 'the request raised %s' % e[2]
            if ip.decide(('le', False, T.C(400), e[3]), s) is True:
                return 'the status was an error'
            if e[4] == T.NONE:
                return 'the page had no type'
            if ip.decide(('bool', T.app('startswith', e[4], T.C('text/html'))), s) is False:
                return 'the page was not HTML'
    return None


def twice(ctx, first, second, link, base, new):
    d, ip = world(ctx, 1, base)
    loc = where(ctx.p, ctx.p.cls('SlurpingClassifier').name, '_generate_slurp')
    st = start(ip)
    cut = [v[1:] for _s, v in d.run(st.copy(), 'cutoffs')][0]

    def operation(s0, c, how):
        s0 = s0.copy()
        words = ip.new_list(s0, [T.S('word')])
        for s, _r in d.run(s0, 'link', linked(link)):
            yield from d.run(s, how, c, words)
    for s0, c in d.run(st, 'made'):
        starts = [s0]
        if first == 'untrain' or second == 'untrain':
            starts = []
            for s, _r in d.run(s0, 'link', T.NONE):
                words = ip.new_list(s, [T.S('word')])
                starts += [x for x, _v in d.run(s, 'train', c, words)]
        for s1 in starts:
            s1.events = ()
            for s2, r in list(operation(s1, c, first)):
                if interrupted(r):
                    continue
                ctx.count('paths')
                if s2.notes:
                    ctx.undecided('failed once', loc, s2.notes)
                    continue
                if isinstance(r, Exc):
                    ctx.violation('survives', loc, '%s is raised at %s' % (r.name, at(r)))
                    continue
                ctx.holds('survives')
                one_link(ctx, s2, 0, link, loc)
                why = failed(ip, s2, 0)
                asked = network(s2)
                got = any(w == 'fetch' for w, _x in asked)
                if not asked:
                    continue
                now = [(s2, c)] if not new else list(d.run(s2, 'made'))
                for s3, c3 in now:
                    if isinstance(c3, Exc):
                        ctx.undecided('failed once', loc, 'a new classifier raises')
                        continue
                    n = len(s3.events)
                    for s4, r4 in operation(s3, c3, second):
                        if interrupted(r4):
                            continue
                        ctx.count('paths')
                        again(ctx, ip, s4, r4, n, why, got, new, link, loc)
    ctx.functions |= d.functions()


def again(ctx, ip, s, r, n, why, got, new, link, loc):
    if s.notes:
        ctx.undecided('failed once', loc, s.notes)
        return
    if isinstance(r, Exc):
        ctx.violation('survives', loc, '%s is raised at %s' % (r.name, at(r)))
        return
    ctx.holds('survives')
    asked = network(s, n)
    if why:
        if asked:
            ctx.violation('failed once', loc, '%s of %s again%s, although %s before' % (
                asked[0][0], 'the link' if link == 0 else repr(text_of(LINKS[link])),
                ' by another classifier' if new else '', why))
        else:
            ctx.holds('failed once')
    elif got and not new:
        if any(w == 'fetch' for w, _x in asked):
            ctx.violation('kept', loc, 'the page is fetched again')
        else:
            ctx.holds('kept')
