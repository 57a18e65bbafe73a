"""The program under analysis: modules, classes, functions, name resolution.

Everything is read from the source files of /repo on every run; nothing of
/repo is imported or executed.
"""
import ast
import os

from .sugar import rewrite

REPO = os.environ.get('SBCHECK_REPO', '/repo')
PACKAGE = 'sbclassifier'


class AnchorMissing(Exception):
    """A public name the properties are about does not exist (any more)."""


class Function:
    def __init__(self, fid, node, module, cls=None, qual=''):
        self.fid = fid
        self.node = node
        self.module = module
        self.cls = cls                 # ClassInfo in whose body it is defined
        self.qual = qual
        self._gen = None
        self._locals = None

    @property
    def name(self):
        return getattr(self.node, 'name', '<lambda>')

    def where(self):
        return '%s:%s' % (self.module.rel, self.qual)

    def own_nodes(self):
        """All nodes of the body, without those of nested functions."""
        body = self.node.body if isinstance(self.node.body, list) else [self.node.body]
        todo = list(body)
        while todo:
            n = todo.pop(0)
            yield n
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda,
                              ast.ClassDef)):
                continue
            for c in ast.iter_child_nodes(n):
                todo.append(c)

    @property
    def is_generator(self):
        if self._gen is None:
            self._gen = any(isinstance(n, (ast.Yield, ast.YieldFrom))
                            for n in self.own_nodes())
        return self._gen

    @property
    def local_names(self):
        if self._locals is None:
            a = self.node.args
            names = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}
            if a.vararg:
                names.add(a.vararg.arg)
            if a.kwarg:
                names.add(a.kwarg.arg)
            out = set()
            comp = set()
            for n in self.own_nodes():
                if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp,
                                  ast.GeneratorExp)):
                    for g in n.generators:
                        for x in ast.walk(g.target):
                            comp.add(id(x))
            for n in self.own_nodes():
                if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    if id(n) not in comp:
                        names.add(n.id)
                elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                    names.add(n.name)
                elif isinstance(n, (ast.Import, ast.ImportFrom)):
                    for al in n.names:
                        names.add((al.asname or al.name).split('.')[0])
                elif isinstance(n, ast.ExceptHandler) and n.name:
                    names.add(n.name)
                elif isinstance(n, (ast.Global, ast.Nonlocal)):
                    out.update(n.names)
            self._locals = names - out
        return self._locals


class ClassInfo:
    def __init__(self, name, node, module):
        self.name = name               # 'module:Class'
        self.node = node
        self.module = module
        self.methods = {}              # name -> Function
        self.attrs = {}                # name -> expression node
        self.base_terms = []           # ('cls', name) or ('ext', dotted)

    @property
    def short(self):
        return self.node.name


class Module:
    def __init__(self, name, path, rel, tree, source):
        self.name = name
        self.path = path
        self.rel = rel
        self.tree = tree
        self.source = source
        self.bindings = {}             # name -> list of (kind, node)
        self.is_package = os.path.basename(path) == '__init__.py'


class Program:
    def __init__(self, root=None):
        self.root = root or REPO
        self.modules = {}
        self.functions = {}
        self.classes = {}
        self.by_node = {}
        self._load()

    # -- loading ---------------------------------------------------------------
    def _load(self):
        top = os.path.join(self.root, PACKAGE)
        if not os.path.isdir(top):
            raise AnchorMissing('package %s' % PACKAGE)
        for d, dirs, files in os.walk(top):
            dirs[:] = sorted(x for x in dirs if x != '__pycache__')
            for f in sorted(files):
                if not f.endswith('.py'):
                    continue
                path = os.path.join(d, f)
                rel = os.path.relpath(path, self.root)
                name = rel[:-3].replace(os.sep, '.')
                if name.endswith('.__init__'):
                    name = name[:-9]
                with open(path, 'rb') as fp:
                    source = fp.read()
                self.add_module(name, path, rel, source)
        for ci in self.classes.values():
            ci.base_terms = [self.static_name(
                ci.module, b.value if isinstance(b, ast.Subscript) else b) or ('ext', '?base')
                for b in ci.node.bases]

    def add_module(self, name, path, rel, source):
        tree = rewrite(ast.parse(source, path))
        m = Module(name, path, rel, tree, source)
        self.modules[name] = m
        self._collect(m, tree.body)
        for node in ast.walk(tree):
            for child in ast.iter_child_nodes(node):
                child._parent = node
        self._functions(m, tree, None, '')
        return m

    def _collect(self, m, body):
        def bind(name, kind, node):
            m.bindings.setdefault(name, []).append((kind, node))
        for n in body:
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                bind(n.name, 'def', n)
            elif isinstance(n, ast.ClassDef):
                bind(n.name, 'class', n)
            elif isinstance(n, ast.Import):
                for a in n.names:
                    if a.asname:
                        bind(a.asname, 'import', a.name)
                    else:
                        bind(a.name.split('.')[0], 'import', a.name.split('.')[0])
            elif isinstance(n, ast.ImportFrom):
                base = self.abs_import(m, n)
                for a in n.names:
                    bind(a.asname or a.name, 'from', (base, a.name))
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        bind(t.id, 'assign', n.value)
                    elif isinstance(t, (ast.Tuple, ast.List)):
                        for i, e in enumerate(t.elts):
                            if isinstance(e, ast.Name):
                                bind(e.id, 'unpack', (n.value, i, len(t.elts)))
            elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name):
                if n.value is not None:
                    bind(n.target.id, 'assign', n.value)
            elif isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name):
                bind(n.target.id, 'other', n)
            elif isinstance(n, (ast.If, ast.Try, ast.For, ast.While, ast.With)):
                sub = Module(m.name, m.path, m.rel, m.tree, m.source)
                for field in ('body', 'orelse', 'finalbody'):
                    self._collect_into(sub, getattr(n, field, []) or [])
                for h in getattr(n, 'handlers', []):
                    self._collect_into(sub, h.body)
                for x in ast.walk(getattr(n, 'target', ast.Pass())):
                    if isinstance(x, ast.Name):
                        bind(x.id, 'other', n)
                for k, v in sub.bindings.items():
                    for b in v:
                        m.bindings.setdefault(k, []).append(
                            b if isinstance(n, ast.Try) or b[0] in ('def', 'class')
                            else ('maybe', b))
            elif isinstance(n, ast.Delete):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        bind(t.id, 'del', n)

    def _collect_into(self, sub, body):
        self._collect(sub, body)

    def abs_import(self, m, n):
        base = n.module or ''
        if n.level:
            parts = m.name.split('.')
            if not m.is_package:
                parts = parts[:-1]
            parts = parts[:len(parts) - (n.level - 1)]
            base = '.'.join(parts + ([n.module] if n.module else []))
        return base

    def _functions(self, m, node, cls, qual):
        for child in ast.iter_child_nodes(node):
            if isinstance(child, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
                name = getattr(child, 'name', '<lambda@%d>' % getattr(child, 'lineno', 0))
                q = (qual + '.' if qual else '') + name
                fid = '%s:%s' % (m.name, q)
                base = fid
                i = 2
                while fid in self.functions:
                    fid = '%s#%d' % (base, i)
                    i += 1
                direct = cls if isinstance(node, ast.ClassDef) else None
                f = Function(fid, child, m, cls, q)
                self.functions[fid] = f
                self.by_node[id(child)] = f
                if direct is not None and not isinstance(child, ast.Lambda):
                    direct.methods[child.name] = f
                self._functions(m, child, cls, q)
            elif isinstance(child, ast.ClassDef):
                q = (qual + '.' if qual else '') + child.name
                ci = ClassInfo('%s:%s' % (m.name, q), child, m)
                self.classes[ci.name] = ci
                self.by_node[id(child)] = ci
                for s in child.body:
                    if isinstance(s, ast.Assign):
                        for t in s.targets:
                            if isinstance(t, ast.Name):
                                ci.attrs[t.id] = s.value
                    elif isinstance(s, ast.AnnAssign) and s.value is not None \
                            and isinstance(s.target, ast.Name):
                        ci.attrs[s.target.id] = s.value
                self._functions(m, child, ci, q)
            else:
                self._functions(m, child, cls, qual)

    # -- names -------------------------------------------------------------------
    def static_name(self, m, node, depth=0):
        """('cls', name), ('fn', fid), ('mod', name), ('ext', dotted) or None."""
        if isinstance(node, ast.Name):
            return self.binding(m, node.id, depth)
        if isinstance(node, ast.Attribute):
            b = self.static_name(m, node.value, depth)
            if b is None:
                return None
            return self.member(b, node.attr, depth)
        return None

    def member(self, b, attr, depth=0):
        if b[0] == 'ext':
            return ('ext', b[1] + '.' + attr)
        if b[0] == 'mod':
            m = self.modules[b[1]]
            if attr in m.bindings:
                return self.binding(m, attr, depth + 1)
            if b[1] + '.' + attr in self.modules:
                return ('mod', b[1] + '.' + attr)
        return None

    def binding(self, m, name, depth=0):
        if depth > 12:
            return None
        bs = m.bindings.get(name)
        if not bs:
            import builtins
            if hasattr(builtins, name):
                return ('ext', 'builtins.' + name)
            return None
        kind, node = bs[-1]
        if kind == 'def':
            return ('fn', self.by_node[id(node)].fid)
        if kind == 'class':
            return ('cls', self.by_node[id(node)].name)
        if kind == 'import':
            return self.module_term(node)
        if kind == 'from':
            base, n = node
            if base in self.modules:
                if n in self.modules[base].bindings:
                    return self.binding(self.modules[base], n, depth + 1)
                if base + '.' + n in self.modules:
                    return ('mod', base + '.' + n)
                return None
            return ('ext', base + '.' + n)
        if kind == 'assign' and isinstance(node, (ast.Name, ast.Attribute)):
            return self.static_name(m, node, depth + 1)
        return None

    def module_term(self, dotted):
        if dotted in self.modules:
            return ('mod', dotted)
        return ('ext', dotted)

    # -- classes ---------------------------------------------------------------------
    def mro(self, clsname):
        """Class names (or ('ext', dotted) terms) in method resolution order."""
        def merge(seqs):
            out = []
            seqs = [list(s) for s in seqs if s]
            while seqs:
                for s in seqs:
                    h = s[0]
                    if not any(h in t[1:] for t in seqs):
                        break
                else:
                    h = seqs[0][0]
                out.append(h)
                seqs = [[x for x in t if x != h] for t in seqs]
                seqs = [t for t in seqs if t]
            return out
        ci = self.classes[clsname]
        bases = [b for b in ci.base_terms if b is not None]
        lin = []
        for b in bases:
            lin.append(self.mro(b[1]) if b[0] == 'cls' else [b])
        return [clsname] + merge(lin + [[b[1] if b[0] == 'cls' else b for b in bases]])

    def find_method(self, clsname, name, after=None):
        """The Function (or expression, or ext term) `name` in the class."""
        seq = self.mro(clsname)
        if after is not None and after in seq:
            seq = seq[seq.index(after) + 1:]
        for c in seq:
            if isinstance(c, tuple):
                if c[1] == 'builtins.object' and not hasattr(object, name):
                    continue
                return ('ext', c[1] + '.' + name)
            ci = self.classes[c]
            if name in ci.methods:
                return ci.methods[name]
            if name in ci.attrs:
                return ('expr', ci, ci.attrs[name])
        return None

    def subclasses(self, clsname):
        return [c for c in self.classes if clsname in self.mro(c)]

    def is_subclass(self, a, b):
        return b in self.mro(a)

    def cls(self, short):
        """The one class with this name, defined anywhere in the package."""
        found = [c for c in self.classes.values() if c.short == short]
        if not found:
            raise AnchorMissing('class %s' % short)
        if len(found) > 1:
            # Prefer one that others import.
            found.sort(key=lambda c: (c.name.count('.'), c.name))
        return found[0]

    def func(self, short):
        """The module-level function with this name."""
        found = [f for f in self.functions.values()
                 if f.cls is None and f.qual == short]
        if not found:
            raise AnchorMissing('function %s' % short)
        return found[0]

    def method(self, clsname, name):
        f = self.find_method(clsname, name)
        if not isinstance(f, Function):
            raise AnchorMissing('method %s of %s' % (name, clsname))
        return f
