"""P02: policy combining, against an independent statement of XACML C.2-C.6."""
import itertools
from ndg.xacml.core.policy import Policy
from ndg.xacml.core.policyset import PolicySet
from ndg.xacml.core.context.request import Request
from ndg.xacml.core.context.result import Decision
from ndg.xacml.core import policy_combining_alg as M
from stubs import *         # noqa
from dress import dress, code

FILES = ['ndg/xacml/core/policy_combining_alg.py',
         'ndg/xacml/core/context/result.py', 'ndg/xacml/core/policybase.py',
         'ndg/xacml/core/policy.py', 'ndg/xacml/core/policyset.py']
RULE = ('lists of members given as (decision, kind, id): all lists up to '
        'length 4 (5 thorough), then random longer ones with lengths and ids '
        'from the literals in the code; members are policies or policy sets')
ALGS = {'deny-overrides': M.DenyOverridesPolicyCombiningAlg,
        'permit-overrides': M.PermitOverridesPolicyCombiningAlg,
        'first-applicable': M.FirstApplicablePolicyCombiningAlg}
DS = ['Permit', 'Deny', 'Indeterminate', 'NotApplicable']


class StubPolicy(Policy):
    def evaluate(self, context):
        return decision(self.d, self.fresh)


class StubPolicySet(PolicySet):
    def evaluate(self, context):
        return decision(self.d, self.fresh)


def gen(rng, hints, tier):
    for n in range(0, 6 if tier == 'thorough' else 5):
        for combo in itertools.product(DS, repeat=n):
            for a in ALGS:
                yield dict(alg=a, members=[[d, k % 2, 'p%d' % k]
                                           for k, d in enumerate(combo)],
                           fresh=hash(combo) % 2 == 1)
    for _ in range(3000 if tier == 'quick' else 60000):
        n = rng.choice(hints.sizes) if rng.random() < .3 else rng.randint(
            4, 9)
        pool = rng.sample(DS, rng.randint(1, 3))
        ms = [[rng.choice(pool), rng.randint(0, 1), pick_str(rng, hints)]
              for _ in range(n)]
        if ms and rng.random() < .5:
            ms[rng.randrange(n)][0] = rng.choice(DS)
        yield dict(alg=rng.choice(sorted(ALGS)), members=ms,
                   fresh=rng.random() < .5,
                   z=[code(rng, hints) for _ in range(4)])


def oracle(alg, ds):
    if alg == 'first-applicable':
        for d in ds:
            if d != 'NotApplicable':
                return d
        return 'NotApplicable'
    if alg == 'deny-overrides':
        if 'Deny' in ds or 'Indeterminate' in ds:
            return 'Deny'
        return 'Permit' if 'Permit' in ds else 'NotApplicable'
    for d in ('Permit', 'Deny', 'Indeterminate'):
        if d in ds:
            return d
    return 'NotApplicable'


def check(case):
    ms = []
    z = case.get('z') or [None] * 4
    for d, k, i in case['members']:
        m = (StubPolicySet if k else StubPolicy)()
        if k:
            m.policySetId = i
        else:
            m.policyId = i
        m.d, m.fresh = d, case['fresh']
        dress(m, z[len(ms) % 3])
        ms.append(m)
    want = oracle(case['alg'], [x[0] for x in case['members']])
    try:
        got = ALGS[case['alg']]().evaluate(
            ms, dress(Request(), z[3])).value
    except Exception as e:
        return '%s raised %r, expected %s' % (case['alg'], e, want)
    if got != want:
        return '%s gives %s, expected %s' % (case['alg'], got, want)
    return constants_ok()
