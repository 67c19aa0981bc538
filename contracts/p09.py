"""P09: attribute designators."""
from .common import *           # noqa
from .bags import seqeq, seq_of
from pyvc.verify import Target as T


class Missing(Exception):
    pass


def matching(self, members):
    """values of the members' attributes with the designator's id, data type
    and, if it names one, issuer: in document order"""
    bag = []
    for m in members:
        for a in m.attributes:
            if (a.attributeId == self.attributeId and
                    a.dataType == self.dataType and
                    (self.issuer is None or a.issuer == self.issuer)):
                for v in a.attributeValues:
                    if v.dataType == self.dataType:
                        bag.append(v)
    return bag


def resource_bag(self, context):
    return matching(self, context.resources)


def action_bag(self, context):
    return matching(self, [context.action])


def environment_bag(self, context):
    return matching(self, [context.environment])


def subject_bag(self, context):
    return matching(self, context.subjects)


def compare(eng, st, code, spec):
    want = seq_of(eng, st.spec, spec)
    empty = z3.Not(eng.seq_exists(st, want, lambda s, x: TRUE))
    must = zb(eng, st, eng.getattr_(st, st.self_, 'mustBePresent')[0][1])
    if isinstance(code, Raise):
        return z3.And(must, empty)
    got = seq_of(eng, st, code)
    if got is None:
        return False
    return z3.And(z3.Not(z3.And(must, empty)), seqeq(eng, st, got, want))


def c_class(eng, st, recv, args, kw):
    """the class registered for a data type: one class per identifier"""
    t = eng.lift(arg(args, kw, 0, 'identifier'))
    return [(st, Sym(fn('CLASS_FOR', Val, Val)(t), Inst(type)))]


CLASS_FOR = CallContract(AttributeValueClassFactory, '__call__', c_class)


def welltyped(eng, st, d):
    """every value that states data type d is of the class for d (P16)"""
    o = z3.Int('o!wt')
    dt = fn('F:dataType:v', I, Val)(o)
    st.fact(z3.ForAll([o], z3.Implies(
        dt == d, fn('ISINST', Val, Val, B)(
            Val.vobj(o), fn('CLASS_FOR', Val, Val)(d)))))


# ---- with an information point
def pip_says(eng, st, recv, args, kw):
    """answers that it has nothing, or fails"""
    outs = ghost_call(eng, st, 'PIP', [recv, arg(args, kw, 0, 'request'),
                                       arg(args, kw, 1, 'designator')], NONE)
    return [(s, v if isinstance(v, Raise) else Con(None)) for s, v in outs]


PIP_QUERY = CallContract(CtxHandlerInterface, 'pipQuery', pip_says)


def pip_fails(h, context, d):
    """asking the information point fails"""


def subject_pip(self, context):
    if len(context.subjects) > 0:
        pip_fails(context.ctxHandler, context, self)
    return matching(self, context.subjects)


def compare_pip(eng, st, code, spec):
    if isinstance(spec, Raise):
        return isinstance(code, Raise)
    return compare(eng, st, code, spec)


def subject_with_pip(cx):
    """an information point that has no values to add changes nothing"""
    eng = cx.engine(TYPES, [CLASS_FOR, PIP_QUERY], GHOSTS)
    eng.fcontracts[pip_fails] = lambda e, st, a, kw: pip_says(
        e, st, a[0], a[1:], kw)
    st = eng.start()
    self_ = eng.inst(st, 'self', SubjectAttributeDesignator)
    ctx = eng.param(st, 'context', Inst(Request,
                                        ctxHandler=Inst(CtxHandlerInterface)))
    d = eng.lift(eng.getattr_(st, self_, 'dataType')[0][1])
    welltyped(eng, st, d)

    def cmp(e, s, c, sp):
        s.self_, s.ctx_ = self_, ctx
        return compare_pip(e, s, c, sp)
    cx.refine(eng, st, SubjectAttributeDesignator.evaluate, subject_pip,
              [self_, ctx], cmp, frame=no_writes)


# ---- and one that has values
def pip_values(eng, st, recv, args, kw):
    """answers with any list of values of the data type, nothing or fails"""
    outs = ghost_call(eng, st, 'PIP', [recv, arg(args, kw, 0, 'request'),
                                       arg(args, kw, 1, 'designator')],
                      Opt(SeqT(Inst(AttributeValue))))
    eng.assumptions.add('an information point answers with values of the '
                        'data type asked for')
    d = eng.lift(eng.getattr_(st, arg(args, kw, 1, 'designator'),
                              'dataType')[0][1])
    for s, v in outs:
        if not isinstance(v, Raise):
            l = Sym(v.t, SeqT(Inst(AttributeValue)))
            s.fact(z3.Not(eng.seq_exists(
                s, eng.content(s, l), lambda s2, x: z3.And(
                    z3.Not(Val.is_vnone(v.t)), eng.lift(
                        eng.getattr_(s2, x, 'dataType')[0][1]) != d))))
    return outs


PIP_VALUES = CallContract(CtxHandlerInterface, 'pipQuery', pip_values)


def ask(h, context, d):
    """what the information point answers"""


def subject_more(self, context):
    bag = matching(self, context.subjects)
    more = ask(context.ctxHandler, context, self)
    if more is None:
        return bag
    if len(bag) == 0:                   # then none is already present
        return bag + list(more)
    return bag + [v for v in more if v not in bag]


def subject_with_values(cx):
    """of one subject: what the information point adds"""
    eng = cx.engine(TYPES, [CLASS_FOR, PIP_VALUES], GHOSTS)
    eng.fcontracts[ask] = lambda e, st, a, kw: pip_values(
        e, st, a[0], a[1:], kw)
    st = eng.start()
    self_ = eng.inst(st, 'self', SubjectAttributeDesignator)
    ctx = eng.param(st, 'context', Inst(Request,
                                        ctxHandler=Inst(CtxHandlerInterface)))
    one = eng.fresh_typed(st, 'subject', Inst(CSubject))
    st.over.setdefault('subjects', []).append(
        (oid(eng, ctx), eng.newlist(st, SList([one]), TypedList)))
    d = eng.lift(eng.getattr_(st, self_, 'dataType')[0][1])
    welltyped(eng, st, d)

    def cmp(e, s, c, sp):
        s.self_, s.ctx_ = self_, ctx
        return compare_pip(e, s, c, sp)
    cx.refine(eng, st, SubjectAttributeDesignator.evaluate, subject_more,
              [self_, ctx], cmp, frame=no_writes)


def target(cls, spec, section):
    def build(cx):
        eng = cx.engine(TYPES, [CLASS_FOR], GHOSTS)
        st = eng.start()
        self_ = eng.inst(st, 'self', cls)
        fields = dict(section)
        ctx = eng.param(st, 'context', Inst(Request, **fields))
        d = eng.getattr_(st, self_, 'dataType')[0][1]
        welltyped(eng, st, eng.lift(d))
        st.self_ = self_
        def cmp(e, s, c, sp):
            s.self_ = self_
            return compare(e, s, c, sp)
        cx.refine(eng, st, cls.evaluate, spec, [self_, ctx], cmp,
                  frame=no_writes)
    return T('%s.evaluate' % cls.__name__, build)


def targets(tier):
    return [target(SubjectAttributeDesignator, subject_bag,
                   {'ctxHandler': NONE}),
            T('SubjectAttributeDesignator.evaluate with an information point that has nothing',
              subject_with_pip),
            T('SubjectAttributeDesignator.evaluate of one subject with an information point', subject_with_values),
            target(ResourceAttributeDesignator, resource_bag, {}),
            target(ActionAttributeDesignator, action_bag,
                   {'action': Inst(CAction)}),
            target(EnvironmentAttributeDesignator, environment_bag,
                   {'environment': Inst(CEnvironment)})]
