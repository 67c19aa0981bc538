"""P12: and, not, typed equality and match functions."""
from .common import *           # noqa
from .funcs import *            # noqa


def target_and(cls):
    def build(cx):
        eng = cx.engine(FTYPES, [], GHOSTS)
        st = eng.start()
        self_ = eng.inst(st, 'self', cls)
        q = SBase(z3.Int('args'), ANY)
        bad = eng.seq_exists(st, q, lambda s, x: z3.Not(Val.is_vbool(
            eng.lift(x))))
        fls = eng.seq_exists(st, q, lambda s, x: eng.lift(x) == Val.vbool(
            FALSE))

        def compare(eng, st, code, spec):
            if isinstance(code, Raise):
                return bad
            return z3.And(z3.Not(bad), eng.lift(code) == Val.vbool(
                z3.Not(fls)))
        cx.refine(eng, st, cls.evaluate, [(st.copy(), None)],
                  [self_, Star(q)], compare, frame=no_writes)
    return T('and', build)


def target_not(cls):
    def build(cx):
        eng = cx.engine(FTYPES, [], GHOSTS)
        st = eng.start()
        self_ = eng.inst(st, 'self', cls)
        q = SBase(z3.Int('args'), ANY)
        x = eng.lift(eng.elem(st, q, z3.IntVal(0)))
        ok = z3.And(eng.seqlen(st, q) == 1, Val.is_vbool(x))

        def compare(eng, st, code, spec):
            if isinstance(code, Raise):
                return z3.Not(ok)
            return z3.And(ok, eng.lift(code) == Val.vbool(z3.Not(Val.b(x))))
        cx.refine(eng, st, cls.evaluate, [(st.copy(), None)],
                  [self_, Star(q)], compare, frame=no_writes)
    return T('not', build)


class BadArgument(Exception):
    pass


def equal_values(self, a, b):
    T_ = type_of(self)
    if not isinstance(a, T_) or not isinstance(b, T_):
        raise BadArgument()
    return a.value == b.value


def target_equal(fid, cls, ty):
    def build(cx):
        for kinds in ((), ('own',), ('own', 'own'), ('own', 'other'),
                      ('other', 'own'), ('other', 'other'),
                      ('own', 'own', 'own')):
            eng = cx.engine(FTYPES, [], GHOSTS)
            eng.fcontracts[type_of] = lambda e, st, a, kw: [(st, Con(ty))]
            st = eng.start()
            self_ = eng.inst(st, 'self', cls)
            args = [own_or_other(eng, st, 'arg%d' % i, ty, k)
                    for i, k in enumerate(kinds)]
            spec = equal_values if len(kinds) == 2 else refuse
            cx.refine(eng, st, cls.evaluate, spec, [self_] + args, cmp_value,
                      sargs=[self_] + (args if len(args) == 2 else []),
                      frame=no_writes, label='(%s) ' % ', '.join(kinds))
    return T(fid.split(':')[-1], build)


def targets(tier):
    out = [target_and(resolve(V1 + 'and')), target_not(resolve(V1 + 'not'))]
    for suffix in ('-equal', '-match'):
        for fid, cls, ty in typed(suffix):
            out.append(target_equal(fid, cls, ty))
    return out
