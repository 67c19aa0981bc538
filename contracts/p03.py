"""P03: combining algorithm identifiers select the algorithm they name."""
from .common import *           # noqa
from .setters import *          # noqa
from ndg.xacml.core import rule_combining_alg as R
from ndg.xacml.core import policy_combining_alg as P
from pyvc.verify import Target as T

RP = 'urn:oasis:names:tc:xacml:1.0:rule-combining-algorithm:'
PP = 'urn:oasis:names:tc:xacml:1.0:policy-combining-algorithm:'
# the classes proved by P01 and P02 to implement these algorithms
RULE = {RP + 'deny-overrides': R.DenyOverridesRuleCombiningAlg,
        RP + 'permit-overrides': R.PermitOverridesRuleCombiningAlg,
        RP + 'first-applicable': R.FirstApplicableRuleCombiningAlg}
POLICY = {PP + 'deny-overrides': P.DenyOverridesPolicyCombiningAlg,
          PP + 'permit-overrides': P.PermitOverridesPolicyCombiningAlg,
          PP + 'first-applicable': P.FirstApplicablePolicyCombiningAlg}


def target(cls, kind, table):
    f = kind + 'CombiningAlg'
    live = getattr(cls(), f + 'Factory')

    def init(eng, st, self_, val):
        field_is(eng, st, self_, f + 'Factory', live)
    return setter_target(cls, f + 'Id', one_of(*table), init=init,
                         sets={f: instance_for(table)})


def fresh(cls, kind):
    """a new policy has no algorithm and the standard factory"""
    f = kind + 'CombiningAlg'

    def build(cx):
        eng = cx.engine(TYPES, [], GHOSTS)
        st = eng.start()
        outs = eng.call(st, Con(cls), [], {})
        for i, (s, r) in enumerate(outs):
            h = list(s.facts) + list(s.pc)
            cx.oblige('path %d constructs' % i, h,
                      z3.BoolVal(not isinstance(r, Raise)), eng)
            if isinstance(r, Raise):
                continue
            for n in (f + 'Id', f):
                for s2, a in eng.getattr_(s.copy(), r, n):
                    cx.oblige('path %d %s is None' % (i, n),
                              list(s2.facts) + list(s2.pc),
                              FALSE if isinstance(a, Raise) else
                              eng.lift(a) == Val.vnone, eng)
            for s2, a in eng.getattr_(s.copy(), r, f + 'Factory'):
                c, exact = eng.cls_of(s2, a)
                live = getattr(cls(), f + 'Factory')
                cx.oblige('path %d factory class' % i, list(s2.facts),
                          z3.BoolVal(c is type(live)), eng)
            cx.reach.append(('path %d' % i, [], eng.axioms, h))
        cx.paths += len(outs)
    return T('%s()' % cls.__name__, build)


def targets(tier):
    return [target(Policy, 'rule', RULE), target(PolicySet, 'policy', POLICY),
            fresh(Policy, 'rule'), fresh(PolicySet, 'policy')]
