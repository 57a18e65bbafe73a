"""C27: names, attributes and signatures that are used exist."""
import ast

from ..bound import Attributes, Variables, foreign_attributes
from ..flow import Flow, Frame, V, VANY, kind

NODE = ast.parse('use(x)').body[0].value


def whole_library(ctx):
    """The analysis of all functions of the library, with any arguments."""
    p = ctx.p
    fl = Flow(p)
    fl.whole = True
    used = {'functions': 0, 'classes': 0}

    def both_ways(fr, f, fv, skip):
        """Calls with arguments for all parameters, and for the necessary ones only."""
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args][skip:]
        needed = names[:len(names) - len(a.defaults)] if a.defaults else names
        kw = {x.arg: VANY for x in a.kwonlyargs}
        kw_needed = {x.arg: VANY for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is None}
        ways = [(names, kw)]
        if (len(needed), kw_needed) != (len(names), kw):
            ways.append((needed, kw_needed))
        for ns, k in ways:
            args = [(False, VANY)] * len(ns)
            if a.vararg:
                args.append((True, VANY))
            if a.kwarg:
                k = dict(k, **{'**': VANY})
            r = fl.call(fr, NODE, fv, args, k, star=True)
            fl.iterate(fr, NODE, r)

    def entry(fl):
        used['functions'] = used['classes'] = used['unreached'] = 0
        for m in fl.module_order():
            fr = Frame(fl, None, 'entry', p.modules[m], 0, {})
            for name, v in sorted(fl.globals.get(m, {}).items()):
                for a in sorted(v, key=str):
                    if a[0] == 'fn' and p.functions[a[1]].module.name == m \
                            and p.functions[a[1]].cls is None:
                        used['functions'] += 1
                        both_ways(fr, p.functions[a[1]], V(a), 0)
        for c in sorted(p.classes):
            if is_enum(p, c):
                continue
            ci = p.classes[c]
            fr = Frame(fl, None, 'entry', ci.module, 0, {})
            used['classes'] += 1
            me = fl.new(fr, NODE, 'inst', cls=c, tag='user of ' + c)
            names = {n for b in p.mro(c) if isinstance(b, str) for n in p.classes[b].methods}
            # What is private gets its arguments from the methods that use it.
            for name in sorted(names, key=lambda n: (n != '__init__', n)):
                if name.startswith('_') and not name.endswith('__'):
                    continue
                f = p.find_method(c, name)
                if isinstance(f, tuple):
                    continue
                used['functions'] += 1
                for x in fl.class_attr(c, name) or ():
                    for y in fl.bind_self(fr, NODE, V(x), me):
                        if x[0] == 'property':
                            continue
                        if y[0] == 'bm':
                            both_ways(fr, f, V(y), 1)
                        elif y[0] == 'fn':
                            both_ways(fr, f, V(y), 0)
        # What nothing above uses: with any arguments and any object.
        if fl.collect or unreached:
            if not unreached:
                unreached.update(f for f in p.functions
                                 if f not in fl.per_fid and not nested(p, f))
                if unreached:
                    fl.changed = True
            for f in sorted(unreached):
                fn = p.functions[f]
                fr = Frame(fl, None, 'entry', fn.module, 0, {})
                used['unreached'] += 1
                a = fn.node.args
                given = (VANY,) * (len(a.defaults) + len(a.kw_defaults))
                both_ways(fr, fn, V(('fn', f, None, given)), 0)
    unreached = set()
    fl.run([entry])
    ctx.functions |= fl.functions
    ctx.count('passes until the fixpoint', fl.rounds)
    ctx.count('functions called with any arguments', used['functions'])
    ctx.count('functions that nothing uses', used['unreached'])
    ctx.count('classes whose objects are used', used['classes'])
    ctx.count('functions in contexts', len(fl.ctxs))
    return fl


def nested(p, fid):
    f = p.functions[fid]
    if isinstance(f.node, ast.Lambda):
        return True
    outer = fid.rsplit('.', 1)[0]
    return outer != fid and outer in p.functions


def is_enum(p, c):
    return any(isinstance(b, tuple) and b[1].startswith('enum.') for b in p.mro(c))


BUILTIN = ('str', 'bytes', 'int', 'float', 'bool', 'tup', 'obj', 'x')


def own_object(fl, a):
    return a[0] == 'obj' and fl.obj(a).kind == 'inst'


def check_C27(ctx):
    ctx.explanation = (
        'Inference of the kinds of values on all paths of all functions of the library: each '
        'function is entered with any arguments, each method with an object of each class that '
        'has it. Every name, every attribute of a module, class or object whose class is known, '
        'and every argument list of a function that is known has to exist. Nothing is run.')
    ctx.assumptions += ['the names of the standard library are those of the installed one',
                        'modules that are not installed have any names']
    for k, t in (('name', 'each name is bound where it is read'),
                 ('attr', 'each attribute of a module, class or object of known class exists'),
                 ('bound', 'no variable is read after an exception that came before its binding'),
                 ('assigned', 'an attribute that is read was assigned by the construction of the '
                              'object or earlier in the method, if it is not set up lazily'),
                 ('call', 'each argument list fits the function that is called')):
        ctx.rule(k, t)
    fl = whole_library(ctx)
    bad = set()
    for k, e in sorted(fl.events.items(), key=lambda x: str(x[0])):
        if e.kind not in ('name', 'attr', 'call'):
            continue
        if e.kind == 'attr' and fl.on.get(k, ('cls',))[0] not in ('mod', 'ext', 'cls', 'super') \
                and not own_object(fl, fl.on[k]):
            # That a value can be None, or text, says too little.
            if not e.certain or kind(fl.on[k]) not in BUILTIN:
                continue
        bad.add((e.fid, k[2]))
        f = ctx.p.functions.get(e.fid)
        where = f.where() if f is not None else e.fid
        ctx.violation(e.kind, '%s (%s)' % (where, e.text),
                      '%s line %d: %s' % (where, k[2][0], e.text))
    for fid, at, what in fl.ops:
        if (fid, at) not in bad and what in ('attribute', 'call', 'name'):
            ctx.holds({'attribute': 'attr'}.get(what, what))
    p = ctx.p
    for fid, f in sorted(p.functions.items()):
        if isinstance(f.node, ast.Lambda):
            continue
        v = Variables(f.node)
        for (name, line), _n in sorted(v.found.items()):
            ctx.violation('bound', '%s (%s)' % (f.where(), name),
                          '%s line %d: %s is not bound if an exception came before' % (
                              f.where(), line, name))
        ctx.holds('bound', v.reads - len(v.found))
    foreign = foreign_attributes(p)
    seen = set()
    for c in sorted(p.classes):
        if is_enum(p, c) or fl.dynamic(c):
            continue
        a = Attributes(p, c, foreign)
        a.run()
        for (fid, name), n in sorted(a.found.items()):
            # Something has to assign it; that nothing does is told above.
            f = p.functions[fid]
            if (fid, name) not in seen and fl.stored_somewhere(c, name):
                seen.add((fid, name))
                ctx.violation('assigned', '%s (%s)' % (f.where(), name),
                              '%s line %d: attribute %s of a %s may not be assigned yet' % (
                                  f.where(), n.lineno, name, p.classes[c].short))
        ctx.holds('assigned', a.reads - len(a.found))
    for (fid, text), line in fl.notes.items():
        ctx.undecided('name', '%s line %d' % (fid, line), text)
