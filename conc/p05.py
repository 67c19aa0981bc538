"""P05: Policy / PolicySet evaluation with scripted target and algorithm."""
import itertools
from ndg.xacml.core.policy import Policy
from ndg.xacml.core.policyset import PolicySet
from ndg.xacml.core.rule import Rule, Effect
from ndg.xacml.core.context.request import Request
from ndg.xacml.core.context.result import Decision
from ndg.xacml.core.rule_combining_alg import RuleCombiningAlgInterface
from ndg.xacml.core.policy_combining_alg import PolicyCombiningAlgInterface
from stubs import *         # noqa
from dress import dress, code

FILES = ['ndg/xacml/core/policybase.py', 'ndg/xacml/core/policy.py',
         'ndg/xacml/core/policyset.py', 'ndg/xacml/core/context/result.py']
RULE = ('every combination of target absent/true/false/raises with a combining '
        'algorithm giving each decision or raising, for policies and policy '
        'sets, every exception class of the list; members with and without targets, '
        'effects and ids of their own; the members and request '
        'handed to the algorithm are checked; sequences of evaluations')
# members: every kind of target and effect, ids that coincide, nested sets
MTARGETS = [None, None, True, False, '!ValueError', '!KeyError']
MEFFECTS = ['Permit', 'Deny', None]
DS = ['Permit', 'Deny', 'Indeterminate', 'NotApplicable']


class RAlg(RuleCombiningAlgInterface):
    def evaluate(self, rules, context):
        self.seen.append((list(rules), context))
        if self.out.startswith('!'):
            return outcome(self.out)
        return decision(self.out, self.fresh)


class PAlg(PolicyCombiningAlgInterface):
    def evaluate(self, policies, context):
        self.seen.append((list(policies), context))
        if self.out.startswith('!'):
            return outcome(self.out)
        return decision(self.out, self.fresh)


def gen(rng, hints, tier):
    outs = [None, True, False] + ['!' + e for e in EXCNAMES]
    algs = DS + ['!' + e for e in EXCNAMES]
    for t, a, k in itertools.product(outs, algs, (0, 1)):
        yield dict(kind=k, steps=[[t, a]], n=2, id='p', fresh=0)
    for t, k in itertools.product(outs[:4], (0, 1)):
        yield dict(kind=k, steps=[[t, None]], n=1, id='p', fresh=0)
    for _ in range(1500 if tier == 'quick' else 30000):
        ht = rng.random() < .8
        steps = [[rng.choice(outs[1:]) if ht else None, rng.choice(algs)]
                 for _ in range(rng.randint(1, 4))]
        yield dict(kind=rng.randint(0, 1), steps=steps,
                   n=rng.choice([0, 1, 2, 3, 5, rng.choice(hints.sizes)]),
                   id=pick_str(rng, hints), fresh=rng.randint(0, 1),
                   desc=[pick_str(rng, hints) for _ in range(2)],
                   z=code(rng, hints),
                   ms=[[rng.choice(MTARGETS), rng.choice(MEFFECTS),
                        rng.randint(0, 3), rng.random() < .3]
                       for _ in range(5)])


def check(case):
    k = case['kind']
    p = PolicySet() if k else Policy()
    ms = []
    spec = case.get('ms') or [[None, 'Permit', None, False]]
    for i in range(case['n']):
        t, eff, j, nested = spec[i % len(spec)]
        j = i if j is None else j
        if k and nested:
            m = PolicySet()
            m.policySetId = 'm%d' % j
            p.policies.append(m)
        elif k:
            m = Policy()
            m.policyId = 'm%d' % j
            p.policies.append(m)
        else:
            m = Rule()
            m.id = 'm%d' % j
            if eff is not None:
                m.effect = Effect(eff)
            p.rules.append(m)
        if t is not None:
            m.target = mk_target(t)
        ms.append(m)
    if k:
        p.policySetId = case['id']
    else:
        p.policyId = case['id']
    if case.get('desc'):
        p.description, p.version = case['desc']
    alg = None
    if case['steps'][0][1] is not None:
        alg = (PAlg if k else RAlg)()
        alg.seen = []
        setattr(p, '_%s__%s' % (('PolicySet', 'policyCombiningAlg') if k else
                                ('Policy', 'ruleCombiningAlg')), alg)
    if case['steps'][0][0] is not None:
        p.target = mk_target(case['steps'][0][0])
    if alg is not None and (p.policyCombiningAlg if k else
                            p.ruleCombiningAlg) is not alg:
        alg = None           # representation changed: cannot script it
        return None
    for t, a in case['steps']:
        if t is not None:
            p.target.out = t
        if alg is not None:
            alg.out, alg.fresh = a, case['fresh']
            alg.seen[:] = []
        if isinstance(t, str):
            want = 'Indeterminate'
        elif t is False:
            want = 'NotApplicable'
        else:
            want = a if a in DS else 'Indeterminate'
        req = dress(Request(), case.get('z'))
        try:
            got = p.evaluate(req)
            v = got.value
        except Exception as x:
            return 'target %s algorithm %s: raised %r, expected %s' % (
                t, a, x, want)
        if not isinstance(got, Decision) or v != want:
            return 'target %s algorithm %s: %s, expected %s' % (t, a, v, want)
        for mem, c in (alg.seen if alg is not None else ()):
            if c is not req:
                return 'algorithm asked about another request'
            if len(mem) != len(ms) or any(x is not y
                                          for x, y in zip(mem, ms)):
                return 'algorithm was not given exactly the own members'
    return constants_ok()
