"""C01, C02, C03, C09, C10: the states of classifiers reached by histories of
learning, unlearning, scoring, storing and loading."""
import time

from ..reach import Reach

#: class, options, the properties it is run for (thorough only: in capitals)
CONFIGS = [
    ('Classifier', {}, 'C01 C02 C03 C10'),
    ('Classifier', {'alone': False}, 'C01 C02'),
    ('Classifier', {'bigrams': True}, 'C01 C02 C03'),
    ('PickleClassifier', {}, 'C01 C02 C03 C10'),
    ('PickleClassifier', {'sort': 'str'}, 'C10'),
    ('PickleClassifier', {'alone': False}, 'C10'),
    ('CDBClassifier', {}, 'C01 C02 C03 C10'),
    ('CDBClassifier', {'sort': 'str'}, 'C10'),
    ('ShelveClassifier', {}, 'C01 C02 C03 C09 C10'),
    ('ShelveClassifier', {'sort': 'str'}, 'C09 C10'),
    ('ShelveClassifier', {'alone': False}, 'C01 C02 C09 C10'),
    ('ShelveClassifier', {'sort': 'str', 'alone': False}, 'T09'),
    ('SlurpingClassifier', {'slurp': 'none'}, 'C01 C02 C03'),
    ('SlurpingClassifier', {'slurp': 'url'}, 'C01 C02 C03'),
]

METHODS = {
    'C01': ('learn', '__init__'),
    'C02': ('unlearn',),
    'C03': ('spamprob', 'probability'),
    'C10': ('load', '__getstate__', 'store', '__init__'),
}

RULES = {
    'total': 'nspam and nham equal the numbers the operations lead to',
    'no-total': 'nspam and nham are set',
    'count': 'spamcount and hamcount of a token equal the counts the operations lead to',
    'token-lost': 'a token with counts is known',
    'token-kept': 'a token without counts is not known',
    'lookup-fails': 'looking up a token raises nothing',
    'fails': 'the operation raises nothing for a permitted argument',
    'not-refused': 'unlearning is refused when no message of the class was learned',
    'database-changed': 'scoring does not write to the database',
    'store-fails': 'storing raises nothing',
    'load-fails': 'loading what was stored raises nothing',
    'pickle-fails': 'pickling raises nothing',
    'unpickle-fails': 'unpickling raises nothing',
    'cannot-create': 'creating a classifier raises nothing',
    'lookup': 'the lookup gives a record of counts',
    'not-synced': 'storing ends by synchronizing the database after the last write',
    'shared-key': 'different tokens have different keys',
}


def applies(prop, f):
    if prop == 'C09':
        return f['class'] == 'ShelveClassifier'
    if f['property'] == prop:
        return True
    if f['where'].split(':')[-1].split('.')[-1] in METHODS[prop] or \
            f.get('method') in METHODS[prop]:
        return prop != 'C10' or f['property'] in ('C09', 'C10')
    return False


def run(ctx, prop):
    ctx.explanation = (
        'Abstract interpretation of the syntax tree of the classifiers. For every class the '
        'set of abstract states that histories of learn, unlearn, spamprob, probability, '
        'store, load, reopening and pickling can lead to is computed to a fixpoint: one '
        'arbitrary token is followed exactly, its counts and the totals are symbols, what is '
        'stored in dictionaries, sets, the shelf and files is part of the state. After every '
        'operation the counts and totals in the object, and those found by looking the token '
        'up, are compared with those that the history should have led to. Nothing is run.')
    ctx.assumptions += [
        'one token at a time; other tokens are summarised (the configurations with '
        'alone=False) or absent',
        'the operating system, dbm and pickle store and return what they are given',
        'one process and one thread use the database',
    ]
    ctx.rule('counts', 'after every operation: ' + '; '.join(RULES.values()))
    t0 = time.time()
    totals = [0, 0, 0]
    configs = []
    for cls, kw, props in CONFIGS:
        if prop not in props and not (ctx.thorough and prop.replace('C', 'T') in props):
            continue
        name = ctx.p.cls(cls).name
        if ctx.findings and not ctx.thorough:
            ctx.counts['configurations not analysed after a violation'] = True
            break
        left = (600 if not ctx.thorough else 6000) - (time.time() - t0)
        if left < 0:
            ctx.undecided('time', '%s %s' % (cls, kw), 'no time left')
            continue

        def enough(findings):
            return not ctx.thorough and any(applies(prop, f) for f in findings.values())
        r = Reach(ctx.p, name, **kw).run(deadline=left, enough=enough)
        configs.append({'class': cls, 'options': kw, 'abstract states': r.states,
                        'transitions': r.transitions, 'comparisons': r.checked,
                        'loop heads given up': r.ip.dropped,
                        'values widened': r.ip.widened,
                        'unmodelled calls': sorted(map(str, r.ip.unmodelled))})
        totals[0] += r.states
        totals[1] += r.transitions
        totals[2] += r.checked
        ctx.functions |= r.ip.visited['functions']
        n = 0
        for key, f in sorted(r.findings.items(), key=lambda x: repr(x[0])):
            f.setdefault('method', key[3])
            if applies(prop, f):
                n += 1
                ctx.rule(f['rule'], RULES.get(f['rule'], f['rule']))
                ctx.violation(f['rule'], '%s (%s)' % (f['where'], cls), f['detail'],
                              options=kw, known=f['known'], history=f.get('history'))
        for key, (why, notes) in sorted(r.undecided.items(), key=lambda x: repr(x[0])):
            if key[0] in ('*', prop):
                ctx.undecided(key[1], '%s.%s %s' % (cls, key[3], kw), '%s %s' % (why, notes))
        ctx.holds('counts', r.checked - n)
        ctx.sample({'class': cls, 'options': kw, 'a history': r.sample})
    ctx.counts['configurations'] = configs
    ctx.counts['abstract_states'] = totals[0]
    ctx.counts['abstract_transitions'] = totals[1]
    ctx.counts['comparisons'] = totals[2]


def check_C01(ctx):
    run(ctx, 'C01')


def check_C02(ctx):
    run(ctx, 'C02')


def check_C03(ctx):
    run(ctx, 'C03')


def check_C09(ctx):
    run(ctx, 'C09')


def check_C10(ctx):
    run(ctx, 'C10')
