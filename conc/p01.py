"""P01: rule combining, against an independent statement of XACML C.1-C.5."""
import itertools
from ndg.xacml.core.rule import Rule, Effect
from ndg.xacml.core.target import Target
from ndg.xacml.core.context.request import Request
from ndg.xacml.core.context.result import Decision
from ndg.xacml.core import rule_combining_alg as M
from dress import dress, code

FILES = ['ndg/xacml/core/rule_combining_alg.py',
         'ndg/xacml/core/context/result.py', 'ndg/xacml/core/rule.py']
RULE = ('lists of rules given as (decision, effect, id) triples: all lists up '
        'to length 4 over distinct decision/effect kinds, then random longer '
        'ones, lengths and ids drawn from the literals in the code; a case is '
        'non-trivial when the list is not empty')
ALGS = {'deny-overrides': M.DenyOverridesRuleCombiningAlg,
        'permit-overrides': M.PermitOverridesRuleCombiningAlg,
        'first-applicable': M.FirstApplicableRuleCombiningAlg}
# (decision, effect): a Permit rule never yields Deny and vice versa
KINDS = [('Permit', 'Permit'), ('Deny', 'Deny'), ('NotApplicable', 'Permit'),
         ('NotApplicable', 'Deny'), ('Indeterminate', 'Permit'),
         ('Indeterminate', 'Deny')]


class StubRule(Rule):
    def evaluate(self, context):
        return {'Permit': Decision.PERMIT, 'Deny': Decision.DENY,
                'NotApplicable': Decision.NOT_APPLICABLE,
                'Indeterminate': Decision.INDETERMINATE}[self.d]


class FreshRule(StubRule):
    def evaluate(self, context):
        return Decision(self.d)


def gen(rng, hints, tier):
    for n in range(0, 5 if tier == 'thorough' else 4):
        for combo in itertools.product(range(6), repeat=n):
            for a in ALGS:
                yield dict(alg=a, rules=[list(KINDS[i]) + ['r%d' % k]
                                         for k, i in enumerate(combo)],
                           fresh=(sum(combo) % 2 == 1))
    cnt = 3000 if tier == 'quick' else 60000
    for _ in range(cnt):
        n = rng.choice(hints.sizes) if rng.random() < .3 else rng.randint(
            4, 9)
        pool = rng.sample(KINDS, rng.randint(1, 3))
        rules = [list(rng.choice(pool)) + [
            rng.choice(hints.strs) if rng.random() < .3 and hints.strs
            else 'r%d' % k] for k in range(n)]
        if rules and rng.random() < .5:
            rules[rng.randrange(n)][:2] = list(rng.choice(KINDS))
        yield dict(alg=rng.choice(sorted(ALGS)), rules=rules,
                   fresh=rng.random() < .5,
                   z=[code(rng, hints) for _ in range(4)])


def oracle(alg, rules):
    ds = [r[0] for r in rules]
    if alg == 'first-applicable':
        for d in ds:
            if d != 'NotApplicable':
                return d
        return 'NotApplicable'
    win, lose = ('Deny', 'Permit') if alg == 'deny-overrides' else (
        'Permit', 'Deny')
    if win in ds:
        return win
    if any(r[0] == 'Indeterminate' and r[1] == win for r in rules):
        return 'Indeterminate'
    if lose in ds:
        return lose
    return 'Indeterminate' if 'Indeterminate' in ds else 'NotApplicable'


def check(case):
    rules = []
    z = case.get('z') or [None] * 4
    for d, e, i in case['rules']:
        r = (FreshRule if case['fresh'] else StubRule)()
        r.id = i
        r.effect = Effect(e)
        r.d = d
        dress(r, z[len(rules) % 3])
        rules.append(r)
    want = oracle(case['alg'], case['rules'])
    try:
        got = ALGS[case['alg']]().evaluate(
            rules, dress(Request(), z[3]))
        got = got.value
    except Exception as e:
        return '%s raised %r, expected %s' % (case['alg'], e, want)
    if got != want:
        return '%s gives %s, expected %s' % (case['alg'], got, want)
