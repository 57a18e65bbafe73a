"""Runs the check of one property: python3 -m sbcheck.run C01"""
import importlib
import json
import os
import sys
import time
import traceback

from .program import AnchorMissing

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(HERE, 'known-findings.txt')

#: property -> module in sbcheck.checks
CHECKS = {
    'C01': 'training', 'C02': 'training', 'C03': 'training', 'C09': 'training',
    'C10': 'training',
    'C04': 'probability', 'C05': 'probability', 'C06': 'score',
    'C07': 'selection', 'C08': 'selection', 'C13': 'caches',
    'C11': 'pickles', 'C12': 'pickles',
    'C17': 'messages', 'C18': 'messages', 'C19': 'headers', 'C20': 'headers', 'C21': 'headers',
    'C22': 'headers',
    'C28': 'database', 'C29': 'slurps', 'C25': 'strips', 'C26': 'lookups', 'C30': 'lookups',
    'C23': 'tokens', 'C24': 'tokens', 'C27': 'names',
    'C14': 'corpora', 'C15': 'corpora', 'C16': 'corpora',
}

TRUSTED = [
    'CPython grammar as implemented by the ast module',
    'the models of the standard library and of built-in types in sbcheck/models.py',
    'the transfer functions of the abstract interpreter in sbcheck/interp.py',
]


class Ctx:
    def __init__(self, prop, tier, seed):
        from .program import Program
        self.prop = prop
        self.tier = tier
        self.seed = seed
        self.p = Program()
        self.findings = {}
        self.unclear = {}
        self.obligations = 0
        self.discharged = 0
        self.counts = {}
        self.samples = []
        self.rules = {}
        self.assumptions = []
        self.functions = set()
        self.explanation = ''

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def rule(self, name, text):
        """Declares a rule that the check applies."""
        self.rules.setdefault(name, {'rule': text, 'obligations': 0, 'discharged': 0})

    def holds(self, rule, n=1):
        self.obligations += n
        self.discharged += n
        if rule in self.rules:
            self.rules[rule]['obligations'] += n
            self.rules[rule]['discharged'] += n

    def violation(self, rule, where, detail, **more):
        """The construct `where` breaks the property."""
        self.obligations += 1
        if rule in self.rules:
            self.rules[rule]['obligations'] += 1
        f = dict(rule=rule, where=where, detail=detail)
        f.update(more)
        self.findings.setdefault('%s|%s' % (rule, where), f)

    def undecided(self, rule, where, why):
        self.obligations += 1
        if rule in self.rules:
            self.rules[rule]['obligations'] += 1
        self.unclear.setdefault('%s|%s' % (rule, where), str(why))

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def data(self):
        return {'findings': self.findings, 'unclear': self.unclear,
                'obligations': self.obligations, 'discharged': self.discharged,
                'rules': self.rules, 'counts': self.counts, 'samples': self.samples,
                'functions': self.functions}

    def clear(self):
        self.findings, self.unclear, self.counts = {}, {}, {}
        self.obligations = self.discharged = 0
        self.samples, self.functions = [], set()
        for r in self.rules.values():
            r['obligations'] = r['discharged'] = 0

    def merge(self, d):
        for k, v in d['findings'].items():
            self.findings.setdefault(k, v)
        for k, v in d['unclear'].items():
            self.unclear.setdefault(k, v)
        self.obligations += d['obligations']
        self.discharged += d['discharged']
        for k, v in d['rules'].items():
            self.rule(k, v['rule'])
            self.rules[k]['obligations'] += v['obligations']
            self.rules[k]['discharged'] += v['discharged']
        for k, v in d['counts'].items():
            if isinstance(v, (int, float)):
                self.counts[k] = self.counts.get(k, 0) + v
            else:
                self.counts.setdefault(k, v)
        for x in d['samples']:
            self.sample(x)
        self.functions |= d['functions']

    def parallel(self, tasks, fn):
        """Runs fn(ctx, task) for every task in several processes."""
        from . import par
        from .interp import Stop

        def do(task):
            sub = Ctx.__new__(Ctx)
            sub.__dict__.update(self.__dict__)
            sub.rules = {k: dict(v) for k, v in self.rules.items()}
            sub.clear()
            try:
                fn(sub, task)
            except Stop as e:
                sub.undecided('analysis', str(task), e)
            except Exception as e:
                # The analysis does not understand the code: no answer for this part.
                tb = traceback.extract_tb(e.__traceback__)[-1]
                sub.undecided('analysis', str(task), 'internal error: %s: %s (%s:%s)' % (
                    type(e).__name__, e, os.path.basename(tb.filename), tb.lineno))
            return sub.data()
        for _i, d in par.run(list(tasks), do, lambda: None)[0]:
            self.merge(d)

    def sample(self, x, limit=12):
        if len(self.samples) < limit:
            self.samples.append(x)


def known_findings(prop):
    out = {}
    try:
        with open(KNOWN) as fp:
            for line in fp:
                line = line.strip()
                if line.startswith('known: property=%s ' % prop):
                    rest = line.split(' ', 2)[2]
                    if rest.startswith('key="'):
                        key, _, text = rest[5:].partition('" ')
                        out[key] = text
    except FileNotFoundError:
        pass
    return out


def jsonable(x):
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple, set, frozenset)):
        return [jsonable(v) for v in x]
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    return str(x)


def main(argv):
    prop = argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if len(argv) > 2:
        tier = argv[2]
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    sys.setrecursionlimit(20000)
    t0 = time.time()
    ctx = Ctx(prop, tier, seed)
    mod = importlib.import_module('sbcheck.checks.' + CHECKS[prop])
    try:
        getattr(mod, 'check_' + prop)(ctx)
    except AnchorMissing:
        raise
    except Exception as e:
        # The analysis does not understand some of the code. What it found before holds.
        if not ctx.discharged:
            raise
        tb = traceback.extract_tb(e.__traceback__)[-1]
        ctx.undecided('analysis', 'the rest', 'internal error: %s: %s (%s:%s)' % (
            type(e).__name__, e, os.path.basename(tb.filename), tb.lineno))
    known = known_findings(prop)
    new = {}
    old = {}
    for k, f in sorted(ctx.findings.items()):
        (old if k in known else new)[k] = f
    edir = os.path.join(HERE, 'evidence')
    os.makedirs(edir, exist_ok=True)
    coverage = {
        'explanation': ctx.explanation,
        'rules': ctx.rules,
        'obligations': ctx.obligations,
        'discharged': ctx.discharged,
        'functions_analysed': sorted(ctx.functions),
        'samples': ctx.samples,
        'undecided': ctx.unclear,
        'trusted_base': TRUSTED,
    }
    coverage.update(ctx.counts)
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'other',
        'coverage': coverage, 'assumptions': ctx.assumptions,
        'wall_s': round(time.time() - t0, 3), 'violations': len(new),
        'known_findings': sorted(old), 'findings': new,
    }
    with open(os.path.join(edir, prop + '.json'), 'w') as fp:
        json.dump(jsonable(ev), fp, indent=1)
        fp.write('\n')
    for k in sorted(old):
        print('KNOWN-FINDING: property=%s %s %s' % (prop, k, known[k]))
    for k, why in sorted(ctx.unclear.items()):
        print('UNDECIDED property=%s %s: %s' % (prop, k, why[:300]))
    print('%s: %d obligations, %d discharged, %d undecided, %d violations, %.1f s' % (
        prop, ctx.obligations, ctx.discharged, len(ctx.unclear), len(new), time.time() - t0))
    if not new:
        return 0
    replay = os.path.join('evidence', prop + '.violation.json')
    with open(os.path.join(HERE, replay), 'w') as fp:
        json.dump(jsonable({'property': prop, 'violations': new}), fp, indent=1)
        fp.write('\n')
    for k, f in sorted(new.items()):
        print('%s: %s: %s' % (f['where'], f['rule'], f['detail']))
    print('VIOLATION property=%s replay=%s' % (prop, replay))
    return 1


if __name__ == '__main__':
    try:
        code = main(sys.argv)
    except Exception:
        traceback.print_exc()
        code = 2
    sys.stdout.flush()
    sys.exit(code)
