"""P11: Apply.evaluate and Condition.evaluate."""
from .common import *           # noqa
from .funcs import *            # noqa
from .bags import seqeq, seq_of
from ndg.xacml.core.apply import Apply

ATYPES = dict(TYPES)
ATYPES[Apply] = {'expressions': SeqT(Inst(Expression), TypedList),
                 'function': Opt(Inst(AbstractFunction)),
                 'functionId': Opt(STR), 'loadFunctionFromId': BOOL}
ATYPES[Condition] = {'expression': Opt(Inst(Expression))}
ATYPES[AttributeValue] = {'value': ANY, 'dataType': Opt(STR)}


def c_expr(eng, st, recv, args, kw):
    """the value of an expression for the request; may fail"""
    return ghost_call(eng, st, 'EXPR', [recv, arg(args, kw, 0, 'context')],
                      ANY)


EXPR_EVALUATE = CallContract(Expression, 'evaluate', c_expr)


def apply_evaluate(cx):
    eng = cx.engine(ATYPES, [], GHOSTS)
    log = []

    def c_func(eng, st, recv, args, kw):
        """applies the function to exactly these arguments; may fail"""
        if kw:
            raise Unsupported('function called with keywords')
        q = SList([])
        for a in args:
            q = eng.cat(q, a.seq if isinstance(a, Star) else SList([a]))
        n = len(log)
        r = z3.Bool('FUNC!%d:raises' % n)
        v = Sym(z3.Const('FUNC!%d' % n, Val), ANY)
        log.append((recv, q, r, v))
        return [(s, Raise(Exc(Exception, False)) if b else v)
                for s, b in eng.branch(st, r)]
    eng.contracts.extend([EXPR_EVALUATE, CallContract(
        AbstractFunction, 'evaluate', c_func)])
    st = eng.start()
    self_ = eng.inst(st, 'self', Apply)
    ctx = eng.param(st, 'context', Inst(Request))
    f = eng.getattr_(st, self_, 'function')[0][1]
    exprs = eng.content(st, eng.getattr_(st, self_, 'expressions')[0][1])
    raises = fn('EXPR:raises', I, I, B)
    bad = eng.seq_exists(st, exprs, lambda s, x: raises(
        oid(eng, x), oid(eng, ctx)))
    none = Val.is_vnone(eng.lift(f))

    def value_of(eng, st, x, y):
        return eng.lift(x) == eng.lift(eng.ap(st, 'EXPR', [
            oid(eng, y), oid(eng, ctx)], ANY))

    def compare(eng, st, code, spec):
        alts = []
        for recv, q, r, v in log:
            same = z3.And(eng.lift(recv) == eng.lift(f),
                          seqeq(eng, st, q, exprs, same=value_of))
            if isinstance(code, Raise):
                alts.append(z3.And(r, same))
            else:
                alts.append(z3.And(z3.Not(r), same,
                                   eng.lift(code) == eng.lift(v)))
        if isinstance(code, Raise):
            return z3.Or([bad, none] + alts)
        return z3.And(z3.Not(bad), z3.Not(none), z3.Or(alts + [FALSE]))
    cx.refine(eng, st, Apply.evaluate, [(st.copy(), None)], [self_, ctx],
              compare, frame=no_writes)


def expression_value(e, context):
    """value of the expression; may fail"""


def condition(self, context):
    if self.expression is None:
        raise Refused()
    v = expression_value(self.expression, context)
    if isinstance(v, AttributeValue):
        v = v.value
    if v is not True and v is not False:
        raise Refused()
    return v


def condition_evaluate(cx):
    eng = cx.engine(ATYPES, [EXPR_EVALUATE], GHOSTS)
    eng.fcontracts[expression_value] = lambda e, st, a, kw: ghost_call(
        e, st, 'EXPR', a, ANY)
    st = eng.start()
    self_ = eng.inst(st, 'self', Condition)
    ctx = eng.param(st, 'context', Inst(Request))
    cx.refine(eng, st, Condition.evaluate, condition, [self_, ctx],
              cmp_value, frame=no_writes)


def value_itself(self, context):
    return self


def value_evaluate(cx):
    """an attribute value stands for itself"""
    eng = cx.engine(ATYPES, [], GHOSTS)
    st = eng.start()
    self_ = eng.inst(st, 'self', AttributeValue, exact=False)
    ctx = eng.param(st, 'context', Inst(Request))
    cx.refine(eng, st, AttributeValue.evaluate, value_itself, [self_, ctx],
              cmp_value, frame=no_writes)


def targets(tier):
    return [T('Apply.evaluate', apply_evaluate),
            T('Condition.evaluate', condition_evaluate),
            T('AttributeValue.evaluate', value_evaluate)]
