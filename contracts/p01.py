"""P01: rule-combining algorithms (XACML 2.0 appendix C.1, C.3, C.5)."""
from .common import *           # noqa
from pyvc.verify import Target as T
from ndg.xacml.core import rule_combining_alg as M


def deny_overrides(self, rules, context):
    if any(decision_of(r, context) == 'Deny' for r in rules):
        return 'Deny'
    if any(decision_of(r, context) == 'Indeterminate' and
           r.effect.value == 'Deny' for r in rules):
        return 'Indeterminate'
    if any(decision_of(r, context) == 'Permit' for r in rules):
        return 'Permit'
    if any(decision_of(r, context) == 'Indeterminate' for r in rules):
        return 'Indeterminate'
    return 'NotApplicable'


def permit_overrides(self, rules, context):
    if any(decision_of(r, context) == 'Permit' for r in rules):
        return 'Permit'
    if any(decision_of(r, context) == 'Indeterminate' and
           r.effect.value == 'Permit' for r in rules):
        return 'Indeterminate'
    if any(decision_of(r, context) == 'Deny' for r in rules):
        return 'Deny'
    if any(decision_of(r, context) == 'Indeterminate' for r in rules):
        return 'Indeterminate'
    return 'NotApplicable'


def first_applicable(self, rules, context):
    for r in rules:
        if decision_of(r, context) != 'NotApplicable':
            return decision_of(r, context)
    return 'NotApplicable'


ALGS = (
    ('deny-overrides', M.DenyOverridesRuleCombiningAlg, deny_overrides),
    ('permit-overrides', M.PermitOverridesRuleCombiningAlg, permit_overrides),
    ('first-applicable', M.FirstApplicableRuleCombiningAlg, first_applicable),
)

TY = dict(TYPES)
TY[Rule] = {'effect': Inst(Effect), 'id': STR}


def target(name, cls, spec):
    def build(cx):
        eng = cx.engine(TY, [RULE_EVALUATE], GHOSTS)
        st = eng.start()
        self_ = eng.inst(st, 'self', cls)
        rules = eng.param(st, 'rules', SeqT(Inst(Rule)))
        ctx = eng.param(st, 'context', Inst(Request))
        cx.refine(eng, st, cls.evaluate, spec, [self_, rules, ctx],
                  cmp_decision, frame=no_writes)
    return T(name, build)


def targets(tier):
    return [target(*a) for a in ALGS]
