"""C23 and C24: kinds of values, and effects, of tokenizing."""
import ast

from ..flow import Flow, Frame, V, STR, VBOOL, VSTR, VANY, kind

MESSAGE = ('x', 'Message', 'msg')
NODE = ast.parse('tokenize(message)').body[0].value


def flow_of(ctx):
    """The analysis of a tokenizer that gets any message, with any options."""
    p = ctx.p
    cls = p.cls('Tokenizer')
    p.method(cls.name, '__call__')
    fl = Flow(p)
    own = [c for c in p.classes if ('ext', 'email.message.Message') in p.mro(c)]
    fl.tokens = {}

    def entry(fl):
        fr = Frame(fl, None, 'entry', cls.module, 0, {})
        fr.is_module = False
        # The tokenizer lives longer than the call.
        fl.owner = 'glob'
        t = fl.call(fr, NODE, V(('cls', cls.name)), [], {})
        messages = [V(MESSAGE), VSTR]
        for c in own:
            messages.append(V(fl.new(fr, NODE, 'inst', cls=c, tag='message', owner='msg')))
        f = p.find_method(cls.name, '__call__').node.args
        options = len(f.args) + len(f.posonlyargs) - 2
        fl.owner = 'own'
        # The result of one call: whether the options are given or not.
        for m in messages:
            for args in ([m], [m] + [VBOOL] * options):
                r = fl.call(fr, NODE, t, args, {})
                e = fl.iterate(fr, NODE, r, ordered=True)
                for a in e:
                    fl.tokens[kind(a)] = a
                if not r:
                    fl.tokens['nothing'] = ('none',)
    fl.run([entry])
    ctx.functions |= fl.functions
    ctx.count('passes until the fixpoint', fl.rounds)
    ctx.count('functions in contexts', len(fl.ctxs))
    ctx.count('places where objects are made', len(fl.heap))
    return fl


def place(fr_or_fid, node, p):
    fid = fr_or_fid
    f = p.functions.get(fid)
    if f is not None:
        return f.where()
    return fid


def check_C23(ctx):
    ctx.explanation = (
        'Inference of the kinds of values on all paths of the tokenizer, the strippers and what '
        'they call: text, bytes, numbers, None, headers, matches with their groups, lists and '
        'tuples of those. Options have any value of their kind; the message is any message, '
        'whose headers are text or header objects and whose payloads are bytes or None. Every '
        'operator, comparison, call, item, attribute and iteration is checked against what the '
        'kinds of its operands allow; every token has to be bytes. Nothing is run.')
    ctx.assumptions += ['the email package gives the kinds of values that it documents']
    ctx.rule('kinds', 'each operation gets operands of the kinds that it works on')
    ctx.rule('tokens', 'every token is bytes')
    fl = flow_of(ctx)
    bad = set()
    for k, e in sorted(fl.events.items(), key=lambda x: str(x[0])):
        if e.kind not in ('type', 'attr'):
            continue
        bad.add((e.fid, k[2]))
        ctx.violation('kinds', '%s (%s)' % (place(e.fid, e.node, ctx.p), e.text),
                      '%s line %d: %s' % (place(e.fid, e.node, ctx.p), k[2][0], e.text))
    ops = {}
    for fid, at, what in fl.ops:
        if what == 'name':
            continue
        if (fid, at) not in bad:
            ctx.holds('kinds')
        ops[what] = ops.get(what, 0) + 1
    for w, n in sorted(ops.items()):
        ctx.count('operations checked: ' + w, n)
    for k, a in sorted(fl.tokens.items()):
        if k == 'bytes':
            ctx.holds('tokens')
        elif k in ('any', 'nothing'):
            ctx.undecided('tokens', 'the tokens', 'a token of unknown kind')
        else:
            ctx.violation('tokens', 'Tokenizer.__call__ (%s)' % k,
                          'a token can be %s instead of bytes' % fl.show(a))
    for (fid, text), line in fl.notes.items():
        ctx.undecided('kinds', '%s line %d' % (fid, line), text)


def check_C24(ctx):
    ctx.explanation = (
        'Effects on all paths of the tokenizer and of what it calls: every write to an object, '
        'with the places where the objects can have been made. What is written has to be made '
        'by the same tokenization; the message, the tokenizer, modules, classes, default '
        'arguments and results of caches are not. Nothing may be read that is not a function of '
        'the message, and no result may be in the order of a set of texts or objects, which '
        'differs from run to run. Nothing is run.')
    ctx.assumptions += [
        'regular expressions, and modules of the standard library, keep no state that shows',
        'remembered answers of name lookups are in %s' % LOOKUPS]
    ctx.rule('writes', 'what tokenizing changes was made by the same tokenization')
    ctx.rule('reads', 'nothing but the message, constants and options is read')
    ctx.rule('order', 'no tokens come in the order of a set')
    fl = flow_of(ctx)
    lookups = {f for f in ctx.p.functions if f.startswith(LOOKUPS + ':')}
    bad = set()
    for k, (fr, node, owner, what, how) in sorted(fl.writes.items(), key=lambda x: str(x[0])):
        if fr.fid in lookups:
            continue
        bad.add(k[:2])
        where = place(fr.fid, node, ctx.p)
        ctx.violation('writes', '%s (%s of %s)' % (where, how, what),
                      '%s line %d: %s of %s' % (where, getattr(node, 'lineno', 0), how,
                                                'the message' if owner == 'msg' else what))
    for c in fl.changes:
        if c[:2] not in bad:
            ctx.holds('writes')
    for k, (fr, node, what) in sorted(fl.impure.items(), key=lambda x: str(x[0])):
        if fr.fid in lookups:
            continue
        where = place(fr.fid, node, ctx.p)
        ctx.violation('reads', '%s (%s)' % (where, what),
                      '%s line %d uses %s' % (where, getattr(node, 'lineno', 0), what))
    ctx.holds('reads', sum(1 for o in fl.ops if o[2] == 'call' and o[0] not in lookups))
    for k, (fr, node, made, how) in sorted(fl.order.items(), key=lambda x: str(x[0])):
        where = place(fr.fid, node, ctx.p)
        ctx.violation('order', '%s (set of %s)' % (where, made),
                      '%s line %d: %s in the order of a set, made in %s' % (
                          where, getattr(node, 'lineno', 0), how, made))
    ctx.holds('order', sum(1 for o in fl.ops if o[2] == 'iteration'))
    for (fid, text), line in fl.notes.items():
        ctx.undecided('writes', '%s line %d' % (fid, line), text)
    ctx.count('writes found', len(fl.changes))


LOOKUPS = 'sbclassifier.dnsutils'
