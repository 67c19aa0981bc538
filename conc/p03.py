"""P03: sequences of combining algorithm id assignments, algorithms told apart
by what they decide."""
import itertools
from ndg.xacml.core.policy import Policy
from ndg.xacml.core.policyset import PolicySet
from ndg.xacml.core.rule import Rule, Effect
from ndg.xacml.core.context.request import Request
from ndg.xacml.core import rule_combining_alg as R, policy_combining_alg as P
from stubs import *         # noqa

FILES = ['ndg/xacml/core/policy.py', 'ndg/xacml/core/policyset.py',
         'ndg/xacml/core/rule_combining_alg.py',
         'ndg/xacml/core/policy_combining_alg.py']
RULE = ('every sequence of up to three assignments from a pool of accepted, '
        'standard but unimplemented, misspelt, other-kind and non-string ids '
        'on policies and policy sets, then random longer ones; the algorithm '
        'in force is identified by its decisions on probe members')
N = 'urn:oasis:names:tc:xacml:'
NAMES = ['deny-overrides', 'permit-overrides', 'first-applicable']
OK = {0: {N + '1.0:rule-combining-algorithm:' + n: n for n in NAMES},
      1: {N + '1.0:policy-combining-algorithm:' + n: n for n in NAMES}}
STD = [N + '1.1:rule-combining-algorithm:ordered-deny-overrides',
       N + '1.1:policy-combining-algorithm:ordered-deny-overrides',
       N + '1.1:rule-combining-algorithm:ordered-permit-overrides',
       N + '1.1:policy-combining-algorithm:ordered-permit-overrides',
       N + '1.0:policy-combining-algorithm:only-one-applicable',
       N + '1.0:rule-combining-algorithm:only-one-applicable',
       N + '2.0:rule-combining-algorithm:deny-overrides',
       N + '1.1:rule-combining-algorithm:deny-overrides',
       N + '1.1:policy-combining-algorithm:permit-overrides']


class ProbeRule(Rule):
    def evaluate(self, context):
        return DEC[self.d]


class ProbePolicy(Policy):
    def evaluate(self, context):
        return DEC[self.d]


def odd(rng, hints):
    k = rng.choice(sorted(OK[0]) + sorted(OK[1]) + STD)
    r = rng.random()
    if r < .2:
        return k
    if r < .4:
        return rng.choice([k + ' ', ' ' + k, k.upper(), k[:-1], k + 's', '',
                           k.split(':')[-1], k + '\n', k.replace('urn', 'URN'),
                           k.replace('1.0', '1.1'), k.replace('1.0', '3.0')])
    if r < .6 and hints.strs:
        return rng.choice(hints.strs)
    if r < .75:
        return rng.choice([None, 1, 0, True, ['list'], {'d': 1}, 1.5])
    return rng.choice(sorted(OK[0]) + sorted(OK[1]))


def gen(rng, hints, tier):
    pool = sorted(OK[0]) + sorted(OK[1]) + STD[:2] + STD[4:5] + ['x', '',
                                                                None, 7]
    for k in (0, 1):
        for i in STD:
            yield dict(k=k, ops=[i])
        for ops in itertools.product(pool, repeat=2):
            yield dict(k=k, ops=list(ops))
    for _ in range(1500 if tier == 'quick' else 20000):
        yield dict(k=rng.randint(0, 1), ops=[
            odd(rng, hints) for _ in range(rng.randint(1, 5))])


def behaves(alg, k):
    """name of the algorithm by its decisions on probes"""
    def members(ds):
        l = []
        for d in ds:
            m = (ProbePolicy if k else ProbeRule)()
            m.d = d
            if not k:
                m.effect = Effect('Deny' if d == 'Deny' else 'Permit')
                m.id = 'r'
            l.append(m)
        return l
    req = Request()
    sig = tuple(alg.evaluate(members(ds), req).value for ds in (
        ['Permit', 'Deny'], ['Deny', 'Permit'], [], ['NotApplicable', 'Permit'],
        ['Permit', 'NotApplicable', 'Deny', 'Permit']))
    return {('Deny', 'Deny', 'NotApplicable', 'Permit', 'Deny'): NAMES[0],
            ('Permit', 'Permit', 'NotApplicable', 'Permit', 'Permit'):
            NAMES[1], ('Permit', 'Deny', 'NotApplicable', 'Permit', 'Permit'):
            NAMES[2]}.get(sig, sig)


def check(case):
    k = case['k']
    p = PolicySet() if k else Policy()
    idn, an = ('policyCombiningAlgId', 'policyCombiningAlg') if k else (
        'ruleCombiningAlgId', 'ruleCombiningAlg')
    if k:
        p.policySetId = 'p'
    else:
        p.policyId = 'p'
    cur = None
    if getattr(p, idn) is not None or getattr(p, an) is not None:
        return 'a new policy has an algorithm'
    for v in case['ops']:
        ok = isinstance(v, str) and v in OK[k]
        before = getattr(p, an)
        try:
            setattr(p, idn, v)
        except Exception as e:
            if ok:
                return '%r refused: %r' % (v, e)
            if getattr(p, an) is not before:
                return 'refused id %r changed the algorithm' % (v,)
        else:
            if not ok:
                return '%r accepted' % (v,)
            cur = v
        if getattr(p, idn) != cur or type(getattr(p, idn)) is not type(cur):
            return 'after %r the id is %r, the algorithm that of %r' % (
                v, getattr(p, idn), cur)
        a = getattr(p, an)
        if (a is None) != (cur is None):
            return 'id %r algorithm %r' % (cur, a)
        if cur is not None and behaves(a, k) != OK[k][cur]:
            return 'id %r combines as %s' % (cur, behaves(a, k))
        other = p.policySetId if k else p.policyId
        if other != 'p':
            return 'policy id changed'
