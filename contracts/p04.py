"""P04: Rule.evaluate."""
from .common import *           # noqa
from pyvc.verify import Target as T


def rule_evaluate(self, context):
    try:
        if self.target is not None and not target_match(self.target, context):
            return 'NotApplicable'
        if self.condition is not None and not condition_holds(
                self.condition, context):
            return 'NotApplicable'
        return self.effect.value
    except Exception:
        return 'Indeterminate'


def build(cx):
    eng = cx.engine(TYPES, [TARGET_MATCH, CONDITION_EVALUATE], GHOSTS)
    st = eng.start()
    self_ = eng.inst(st, 'self', Rule)
    ctx = eng.param(st, 'context', Inst(Request))
    cx.refine(eng, st, Rule.evaluate, rule_evaluate, [self_, ctx],
              cmp_decision, frame=no_writes)


def targets(tier):
    return [T('Rule.evaluate', build)]
