"""P13: bag, one-and-only and at-least-one-member-of functions."""
from .common import *           # noqa
from .funcs import *            # noqa
from .bags import seqeq, seq_of
from ndg.xacml.utils import TypedList


def target_bag(fid, cls, ty):
    def build(cx):
        eng = cx.engine(FTYPES, [], GHOSTS)
        st = eng.start()
        self_ = eng.inst(st, 'self', cls)
        q = SBase(z3.Int('args'), ANY)
        bad = eng.seq_exists(st, q, lambda s, x: z3.Not(zf(eng.isinst(
            s, x, Con(ty)))))

        def compare(eng, st, code, spec):
            if isinstance(code, Raise):
                return bad
            c, exact = eng.cls_of(st, code)
            if c is not TypedList:
                return False
            et = eng.getattr_(st, code, 'elementType')[0][1]
            return z3.And(z3.Not(bad), eng.lift(et) == eng.lift(Con(ty)),
                          seqeq(eng, st, seq_of(eng, st, code), q))
        cx.refine(eng, st, cls.evaluate, [(st.copy(), None)],
                  [self_, Star(q)], compare, frame=no_writes)
    return T(fid.split(':')[-1], build)


KINDS = ('own', 'foreign', 'other')


def bag_arg(eng, st, name, ty, kind):
    """own: a bag of the function's type; foreign: a bag of any other element
    type; other: no bag"""
    if kind == 'own':
        v = eng.param(st, name, SeqT(Inst(ty, True), TypedList, True,
                                     elementType=Inst(type)))
        et = eng.getattr_(st, v, 'elementType')[0][1]
        st.fact(eng.lift(et) == eng.lift(Con(ty)))
        return v
    if kind == 'foreign':
        v = eng.param(st, name, SeqT(Inst(AttributeValue), TypedList, True,
                                     elementType=Inst(type)))
        et = eng.getattr_(st, v, 'elementType')[0][1]
        st.add(z3.Not(eng.lift(et) == eng.lift(Con(ty))))
        return v
    v = eng.param(st, name, ANY)
    st.add(z3.Not(zf(eng.isinst(st, v, Con(TypedList)))))
    return v


def zf(r):
    return z3.BoolVal(r) if isinstance(r, bool) else r


def only_member(self, bag):
    if len(bag) != 1:
        raise Refused()
    return bag[0]


def share_a_value(self, a, b):
    return some(lambda x: some(lambda y: x.value == y.value, b), a)


def target_args(fid, cls, ty, nargs, spec):
    import itertools

    def build(cx):
        combos = [c for c in itertools.product(KINDS, repeat=nargs)]
        combos += [(), ('own',) * (nargs + 1)]
        if nargs > 1:
            combos.append(('own',))
        for kinds in combos:
            eng = cx.engine(FTYPES, [], GHOSTS)
            eng.no_nan = True
            eng.assumptions.add('precondition: double values are not NaN')
            st = eng.start()
            self_ = eng.inst(st, 'self', cls)
            args = [bag_arg(eng, st, 'arg%d' % i, ty, k)
                    for i, k in enumerate(kinds)]
            good = len(kinds) == nargs and set(kinds) == {'own'}
            cx.refine(eng, st, cls.evaluate, spec if good else refuse,
                      [self_] + args, cmp_value,
                      sargs=[self_] + (args if good else []),
                      frame=no_writes, label='(%s) ' % ', '.join(kinds))
    return T(fid.split(':')[-1], build)


def targets(tier):
    out = [target_bag(*f) for f in typed('-bag')]
    out += [target_args(*f, 1, only_member) for f in typed('-one-and-only')]
    out += [target_args(*f, 2, share_a_value)
            for f in typed('-at-least-one-member-of')]
    return out
