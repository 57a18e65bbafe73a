"""A file system of constant paths, for the interpreter; and signals.

Files have terms as content. Everything that touches a file is also recorded
as an event, so that a check can look at which paths were touched.
"""
import posixpath

from . import terms as T
from .reach import Files

DISK = ('ref', -11)


class Disk(Files):
    listing = True
    cwd = '/cwd'
    #: Whether what is written reaches the file only when it is flushed or closed.
    buffering = False
    #: Paths of which all contents they ever had are kept.
    watched = ()

    def install(self, st, files=(), dirs=()):
        from .state import Obj
        st.heap[DISK] = Obj('ext', type='disk', data={
            'files': tuple(sorted(dict(files).items())), 'dirs': tuple(dirs), 'signals': ()})

    @staticmethod
    def path(t):
        if t[0] == 'c' and isinstance(t[2], str):
            return posixpath.normpath(posixpath.join(Disk.cwd, t[2]))
        return None

    def known(self, st, t):
        """Whether all is known about the path."""
        p = self.path(t)
        if p is None:
            st.note('a path that is not a constant: %s' % T.show(t))
        return p is not None

    def files(self, st):
        return dict(st.heap[DISK].data['files'])

    def dirs(self, st):
        return st.heap[DISK].data['dirs']

    def set(self, st, **kw):
        st.upd(DISK, data=dict(st.heap[DISK].data, **kw))

    def get(self, st, path):
        return self.files(st).get(self.path(path)) if self.known(st, path) else None

    def put(self, st, path, v):
        if not self.known(st, path):
            return
        d = self.files(st)
        if v is None:
            d.pop(self.path(path), None)
        else:
            d[self.path(path)] = v
        self.set(st, files=tuple(sorted(d.items(), key=repr)))
        if self.path(path) in self.watched:
            h = st.heap[DISK].data.get('history', ())
            self.set(st, history=h + ((self.path(path), v),))

    def history(self, st):
        return st.heap[DISK].data.get('history', ())

    def write(self, st, path, v):
        """Something is written to an open file."""
        old = self.get(st, path)
        if old not in (T.C('empty'), None):
            if old[0] == 'app' and old[1] == 'buffered':
                old = old[2]
            v = T.app('joined', old, v)
        self.put(st, path, T.app('buffered', v) if self.buffering else v)

    def settle(self, st, path):
        """A file is flushed."""
        if self.path(path) is None:
            return
        v = self.get(st, path)
        if v is not None and v[0] == 'app' and v[1] == 'buffered':
            self.put(st, path, v[2])

    def is_dir(self, st, path):
        return self.path(path) in self.dirs(st)

    def make_dir(self, st, path, parents):
        """Yields (state, whether the directory was made; None if it was there)."""
        if not self.known(st, path):
            yield st, True
            return
        p = self.path(path)
        if p in self.dirs(st) or p in self.files(st):
            yield st, None
            return
        new = [p]
        while posixpath.dirname(new[-1]) not in self.dirs(st) and new[-1] != '/':
            new.append(posixpath.dirname(new[-1]))
        if len(new) > 1 and not parents and posixpath.dirname(p) != '/':
            yield st, False
            return
        self.set(st, dirs=tuple(sorted(set(self.dirs(st)) | set(new))))
        yield st, True

    def parent_exists(self, st, path):
        p = self.path(path)
        return p is not None and posixpath.dirname(p) in self.dirs(st)

    def names(self, st, d):
        """The names in a directory, or None."""
        if not self.known(st, d) or not self.is_dir(st, d):
            return None
        d = self.path(d)
        return sorted({posixpath.basename(p) for p in list(self.files(st)) + list(self.dirs(st))
                       if posixpath.dirname(p) == d and p != d})


def connect(st, signal, receiver, sender, weak=True):
    d = st.heap[DISK].data
    st.upd(DISK, data=dict(d, signals=d['signals'] + ((signal, receiver, sender, weak),)))


def connected(st, signal, sender):
    if DISK not in st.heap:
        return []
    out = []
    for s, r, who, weak in st.heap[DISK].data['signals']:
        if s == signal and (who is None or who == sender):
            if not (weak and forgotten(st, r)):
                if r not in out:
                    out.append(r)
    return out


def forgotten(st, r):
    """Whether a receiver that is not kept alive by its signal is gone: a
    function or partial made on the fly that nothing else refers to."""
    if r[0] == 'partial' or r[0] == 'fn' and r[2] is not None and r[2] in st.heap:
        def refers(t):
            return t == r or isinstance(t, tuple) and any(refers(x) for x in t) or \
                isinstance(t, (dict, frozenset)) and any(
                    refers(x) for x in (t.values() if isinstance(t, dict) else t))
        return not any(refers(o.d.get('attrs', {})) or refers(o.d.get('items', ()))
                       for ref, o in st.heap.items()
                       if ref != DISK and o.kind in ('inst', 'list', 'dict', 'set'))
    return False


def disconnect(st, signal, receiver, sender):
    d = st.heap[DISK].data
    st.upd(DISK, data=dict(d, signals=tuple(
        x for x in d['signals'] if not (x[0] == signal and x[1] == receiver and
                                        (sender is None or x[2] == sender)))))
