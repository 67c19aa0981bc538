"""P08: MatchBase.evaluate and the designator / selector exclusivity."""
from .common import *           # noqa
from .setters import setter_target
from pyvc.verify import Target as T


class NoSource(Exception):
    pass


def match_evaluate(self, context):
    if self.attributeDesignator is not None:
        bag = bag_of(self.attributeDesignator, context)
    elif self.attributeSelector is not None:
        bag = bag_of(self.attributeSelector, context)
    else:
        raise NoSource()
    f = self.function
    pv = self.attributeValue
    return (some(lambda v: func_is(f, pv, v, 'true'), bag),
            some(lambda v: func_is(f, pv, v, 'fails'), bag))


def compare(eng, st, code, spec):
    if isinstance(spec, Raise):
        return isinstance(code, Raise)
    t, x = [zb(eng, st, i) for i in spec.items]
    if isinstance(code, Raise):
        return x
    code = eng.norm(st, code)
    if isinstance(code, Con) and isinstance(code.o, bool):
        b = z3.BoolVal(code.o)
    elif isinstance(code, Sym) and code.ty.kind == 'bool':
        b = eng.bt(code.t)
    else:
        return False
    return z3.And(z3.Not(x), b == t)


def target(cls):
    def build(cx):
        eng = cx.engine(TYPES, [DESIGNATOR_EVALUATE, SELECTOR_EVALUATE,
                                FUNC2_EVALUATE], GHOSTS)
        st = eng.start()
        self_ = eng.inst(st, 'self', cls)
        ctx = eng.param(st, 'context', Inst(Request))
        cx.refine(eng, st, cls.evaluate, match_evaluate, [self_, ctx],
                  compare, frame=no_writes)
    return T('%s.evaluate' % cls.__name__, build)


def targets(tier):
    out = [target(c) for c in (SubjectMatch, ResourceMatch, ActionMatch,
                               EnvironmentMatch)]
    for c in (SubjectMatch, ResourceMatch, ActionMatch, EnvironmentMatch):
        out.append(setter_target(c, 'attributeDesignator',
                                 AttributeDesignator,
                                 clears=('attributeSelector',)))
        out.append(setter_target(c, 'attributeSelector', AttributeSelector,
                                 clears=('attributeDesignator',)))
    return out
