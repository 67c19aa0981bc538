"""P06: the PDP's response."""
from ndg.xacml.core.policy import Policy
from ndg.xacml.core.policyset import PolicySet
from ndg.xacml.core.context.request import Request
from ndg.xacml.core.context.response import Response
from ndg.xacml.core.context.result import Decision, Result
from ndg.xacml.core.context.pdp import PDP
from ndg.xacml.core.rule_combining_alg import RuleCombiningAlgInterface
from stubs import *         # noqa
from dress import dress, code

FILES = ['ndg/xacml/core/context/pdp.py', 'ndg/xacml/core/policybase.py',
         'ndg/xacml/core/context/result.py',
         'ndg/xacml/core/context/response.py']
RULE = ('sequences of 1-12 evaluations on one PDP (policy or policy set, '
        'scripted decision, a new request each time or the same, shared constants or fresh objects; the PDP or '
        'the policy is asked), keeping all responses and re-checking them at '
        'the end; between calls the caller may append to an earlier response')
DS = ['Permit', 'Deny', 'Indeterminate', 'NotApplicable']


class StubPolicy(Policy):
    def evaluate(self, context):
        self.seen.append(context)
        return decision(self.d, self.fresh)


class StubPolicySet(PolicySet):
    def evaluate(self, context):
        self.seen.append(context)
        return decision(self.d, self.fresh)


def gen(rng, hints, tier):
    for d in DS:
        for k in (0, 1):
            for f in (0, 1):
                yield dict(kind=k, steps=[[d, f, 0]] * 2)
                yield dict(kind=k, steps=[[d, f, 0]] * 2, req=1)
    for _ in range(2500 if tier == 'quick' else 50000):
        yield dict(kind=rng.randint(0, 1), req=rng.randint(0, 1),
                   z=[code(rng, hints) for _ in range(2)], steps=[
            [rng.choice(DS), rng.randint(0, 1), rng.randint(0, 3)]
            for _ in range(rng.randint(1, 12))])
    if tier == 'thorough' or hints.ints:
        for n in hints.sizes:
            if n <= 130:
                yield dict(kind=0, steps=[[rng.choice(DS), 1, 0]
                                          for _ in range(n)])


def check(case):
    p = (StubPolicySet if case['kind'] else StubPolicy)()
    if case['kind']:
        p.policySetId = 's'
    else:
        p.policyId = 'p'
    z = case.get('z') or [None, None]
    dress(p, z[0])
    p.seen = []
    pdp = PDP(p)
    kept, results = [], []
    same = dress(Request(), z[1])
    for d, f, poke in case['steps']:
        p.d, p.fresh = d, f
        req = same if case.get('req') else \
            dress(Request(), z[1])
        p.seen[:] = []
        try:
            r = (p.evaluateResponse if poke == 2 else pdp.evaluate)(req)
        except Exception as x:
            return 'raised %r for policy decision %s' % (x, d)
        if not isinstance(r, Response):
            return 'not a response: %r' % (r,)
        if len(r.results) != 1 or not isinstance(r.results[0], Result):
            return 'response with %d results' % len(r.results)
        v = r.results[0].decision.value
        if v != d:
            return 'decision %s, policy says %s' % (v, d)
        if any(x is not req for x in p.seen):
            return 'policy asked about another request'
        for r0, _, _ in kept:
            if r is r0:
                return 'same response object returned twice'
        if any(r.results[0] is x for x in results):
            return 'result object shared with an earlier response'
        if any(r.results is x.results for x, _, _ in kept):
            return 'results list shared with an earlier response'
        kept.append((r, r.results[0], d))
        results.append(r.results[0])
        if poke == 1:
            r.results.append(Result())
        elif poke == 3:
            r.results[0].decision = Decision('Deny')
            kept[-1] = (r, r.results[0], 'Deny')
    for r, res, d in kept:
        if r.results[0] is not res or res.decision.value != d:
            return 'an earlier response changed'
    return constants_ok()
