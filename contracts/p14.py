"""P14: concatenate, regexp-match and round."""
import re
from .common import *           # noqa
from .funcs import *            # noqa
from ndg.xacml.core.functions import FunctionMap

CONCAT = [(V2 + 'string-concatenate', 'string'),
          (V2 + 'url-string-concatenate', 'anyURI')]
REGEXP = [(V1 + 'string-regexp-match', 'string')] + [
    (V2 + n + '-regexp-match', n) for n in (
        'anyURI', 'ipAddress', 'dnsName', 'rfc822Name', 'x500Name')]


def zf(r):
    return z3.BoolVal(r) if isinstance(r, bool) else r


def joined(*args):
    """the arguments' texts, one after the other"""
    return ''.join([a.value for a in args])


def concatenate(fid, tn):
    ty, rest = CLASSES[tn], CLASSES['string']

    def build(cx):
        cls = resolve(fid)
        for n in ('some', 0, 1):
            eng = cx.engine(FTYPES, [], GHOSTS)
            st = eng.start()
            self_ = eng.inst(st, 'self', cls)
            q = SBase(z3.Int('args'), ANY)
            ln = eng.seqlen(st, q)
            if n != 'some':
                st.add(ln == n)
                cx.refine(eng, st, cls.evaluate, refuse, [self_, Star(q)],
                          cmp_value, sargs=[self_], frame=no_writes,
                          label='(%d arguments) ' % n)
                continue
            st.add(ln >= 2)
            a0 = eng.elem(st, q, z3.IntVal(0))
            bad = z3.Or(
                z3.Not(zf(eng.isinst(st, a0, Con(ty)))),
                eng.seq_exists(st, SSlice(q, 1), lambda s, x: z3.Not(zf(
                    eng.isinst(s, x, Con(rest))))))

            def compare(eng, st, code, spec):
                if isinstance(code, Raise) or isinstance(spec, Raise):
                    return isinstance(code, Raise) and isinstance(spec, Raise)
                c, exact = eng.cls_of(st, code)
                if c is not ty or not exact:
                    return FALSE
                v = eng.getattr_(st, code, 'value')[0][1]
                return eng.lift(v) == eng.lift(spec)
            good = st.copy()
            good.add(z3.Not(bad))
            outs = eng.call_function(good, joined, [Star(q)], {},
                                     nocontract=True)
            b = st.copy()
            b.add(bad)
            outs.append((b, Raise(Exc(Refused))))
            cx.refine(eng, st, cls.evaluate, outs, [self_, Star(q)],
                      compare, frame=no_writes)
    return T(fid.split(':')[-1], build)


def matches(self, pattern, text):
    T_ = type_of(self)
    if not isinstance(pattern, T_) or not isinstance(text, T_):
        raise Refused()
    return bool(re.compile(pattern.value).match(text.value))


def regexp(fid, tn):
    ty = CLASSES[tn]

    def build(cx):
        cls = resolve(fid)
        for kinds in ((), ('own',), ('own', 'own'), ('own', 'other'),
                      ('other', 'own'), ('other', 'other'),
                      ('own', 'own', 'own')):
            eng = cx.engine(FTYPES, [], GHOSTS)
            eng.fcontracts[type_of] = lambda e, st, a, kw: [(st, Con(ty))]
            st = eng.start()
            self_ = eng.inst(st, 'self', cls)
            args = [own_or_other(eng, st, 'arg%d' % i, ty, k)
                    for i, k in enumerate(kinds)]
            spec = matches if len(kinds) == 2 else refuse
            cx.refine(eng, st, cls.evaluate, spec, [self_] + args, cmp_value,
                      sargs=[self_] + (args if len(args) == 2 else []),
                      frame=None, label='(%s) ' % ', '.join(kinds))
    return T(fid.split(':')[-1], build)


def rounded(self, num):
    return round(num)


def round_(cx):
    cls = resolve(V1 + 'round')
    for ty in (INT, FLT, ANY):
        eng = cx.engine(FTYPES, [], GHOSTS)
        st = eng.start()
        self_ = eng.inst(st, 'self', cls)
        x = eng.param(st, 'num', ty)
        cx.refine(eng, st, cls.evaluate, rounded, [self_, x], cmp_value,
                  frame=no_writes, label='(%s) ' % ty.kind)


def targets(tier):
    return [concatenate(*c) for c in CONCAT] + [
        regexp(*c) for c in REGEXP] + [T('round', round_)]
