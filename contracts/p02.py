"""P02: policy-combining algorithms (XACML 2.0 appendix C)."""
from .common import *           # noqa
from pyvc.verify import Target as T
from ndg.xacml.core import policy_combining_alg as M


def deny_overrides(self, policies, context):
    if any(decision_of(p, context) == 'Deny' or
           decision_of(p, context) == 'Indeterminate' for p in policies):
        return 'Deny'
    if any(decision_of(p, context) == 'Permit' for p in policies):
        return 'Permit'
    return 'NotApplicable'


def permit_overrides(self, policies, context):
    if any(decision_of(p, context) == 'Permit' for p in policies):
        return 'Permit'
    if any(decision_of(p, context) == 'Deny' for p in policies):
        return 'Deny'
    if any(decision_of(p, context) == 'Indeterminate' for p in policies):
        return 'Indeterminate'
    return 'NotApplicable'


def first_applicable(self, policies, context):
    for p in policies:
        if decision_of(p, context) != 'NotApplicable':
            return decision_of(p, context)
    return 'NotApplicable'


ALGS = (
    ('deny-overrides', M.DenyOverridesPolicyCombiningAlg, deny_overrides),
    ('permit-overrides', M.PermitOverridesPolicyCombiningAlg,
     permit_overrides),
    ('first-applicable', M.FirstApplicablePolicyCombiningAlg,
     first_applicable),
)


def target(name, cls, spec):
    def build(cx):
        eng = cx.engine(TYPES, [POLICY_EVALUATE], GHOSTS)
        st = eng.start()
        self_ = eng.inst(st, 'self', cls)
        ps = eng.param(st, 'policies', SeqT(Inst(PolicyBase)))
        ctx = eng.param(st, 'context', Inst(Request))
        cx.refine(eng, st, cls.evaluate, spec, [self_, ps, ctx],
                  cmp_decision, frame=no_writes)
    return T(name, build)


def targets(tier):
    return [target(*a) for a in ALGS]
