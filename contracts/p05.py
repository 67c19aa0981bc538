"""P05: Policy.evaluate and PolicySet.evaluate."""
from .common import *           # noqa
from pyvc.verify import Target as T


def policy_evaluate(self, context):
    try:
        if self.target is not None and not target_match(self.target, context):
            return 'NotApplicable'
        return combined(self.ruleCombiningAlg, self.rules, context)
    except Exception:
        return 'Indeterminate'


def policyset_evaluate(self, context):
    try:
        if self.target is not None and not target_match(self.target, context):
            return 'NotApplicable'
        return combined(self.policyCombiningAlg, self.policies, context)
    except Exception:
        return 'Indeterminate'


def target(cls, spec):
    def build(cx):
        eng = cx.engine(TYPES, [TARGET_MATCH, RULE_ALG, POLICY_ALG], GHOSTS)
        st = eng.start()
        self_ = eng.inst(st, 'self', cls)
        ctx = eng.param(st, 'context', Inst(Request))
        cx.refine(eng, st, cls.evaluate, spec, [self_, ctx],
                  cmp_decision, frame=no_writes)
    return T('%s.evaluate' % cls.__name__, build)


def targets(tier):
    return [target(Policy, policy_evaluate),
            target(PolicySet, policyset_evaluate)]
