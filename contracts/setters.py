"""Generic contract of a model attribute setter.

For every instance and every value: if the value is acceptable the assignment
returns normally, the attribute reads back that very value, and every other
observable attribute reads as before (or None for those the contract says are
cleared); otherwise it raises and every observable attribute reads as before."""
from .common import *           # noqa
from pyvc.verify import Target as T


def properties(cls):
    out = []
    for k in cls.__mro__:
        for n, f in k.__dict__.items():
            if isinstance(f, property) and n not in out and \
                    f.fget is not None:
                out.append(n)
    return sorted(out)


def read(eng, st, obj, name):
    """[(state, value | Raise)] of obj.name"""
    return eng.getattr_(st.copy(), obj, name)


def same(eng, a, b):
    if isinstance(a, Raise) or isinstance(b, Raise):
        return isinstance(a, Raise) and isinstance(b, Raise)
    if isinstance(a, (Tup, SeqV, Rec)) or isinstance(b, (Tup, SeqV, Rec)):
        return eng.same_shape(a, b) if hasattr(eng, 'same_shape') else \
            repr(a) == repr(b)
    return eng.lift(a) == eng.lift(b)


def acceptance(eng, st, v, accept):
    if callable(accept) and not isinstance(accept, type):
        return accept(eng, st, v)
    r = eng.isinst(st, v, Tup(list(accept)) if isinstance(accept, tuple)
                   else Con(accept))
    return z3.BoolVal(r) if isinstance(r, bool) else r


def oblige_setter(cx, eng, label, st0, outs, obj, attr, val, ok, clears=(),
                  skip=(), readback=None, names=None, sets=None):
    """obligations for the outcomes of one assignment"""
    sets = sets or {}
    cls, _ = eng.cls_of(st0, obj)
    names = [n for n in (names or properties(cls)) if n not in skip]
    if attr not in names:
        names.append(attr)
    for i, (s, r) in enumerate(outs):
        bad = isinstance(r, Raise)
        nm = '%spath %d (%s)' % (label, i, 'refuses' if bad else 'accepts')
        n0 = len(s.facts)
        hyps = list(s.facts) + list(s.pc)
        cx.oblige('%s: %s' % (nm, 'only unacceptable values are refused'
                              if bad else 'only acceptable values are stored'),
                  hyps, z3.Not(ok) if bad else ok, eng)
        for n in names:
            s1 = st0.copy()
            s1.facts, s1.pc = list(s.facts), list(s.pc)
            before = eng.getattr_(s1, obj, n)
            for sb, b in before:
                s2 = s.copy()
                s2.facts, s2.pc = list(sb.facts), list(sb.pc)
                for k in sb.refine:
                    s2.refine.setdefault(k, sb.refine[k])
                for sa, a in eng.getattr_(s2, obj, n):
                    h = list(sa.facts) + list(sa.pc)
                    if not bad and n in sets:
                        g = sets[n](eng, sa, a, val)
                        what = '%s as specified' % n
                    elif bad or (n != attr and n not in clears):
                        g = same(eng, a, b)
                        what = '%s unchanged' % n
                    elif n in clears:
                        g = eng.lift(a) == Val.vnone if not isinstance(
                            a, Raise) else False
                        what = '%s cleared' % n
                    elif readback is not None:
                        g = readback(eng, sa, a, val)
                        what = '%s set' % n
                    else:
                        g = same(eng, a, val)
                        what = '%s reads back the value' % n
                    cx.oblige('%s: %s' % (nm, what), h, z3.BoolVal(g)
                              if isinstance(g, bool) else g, eng)
        for w in s.writes:
            if w[0] == 'class attribute':
                cx.oblige('%s: writes %s' % (nm, w[1]), hyps, FALSE, eng)
    cx.paths += len(outs)
    for i, (s, r) in enumerate(outs):
        cx.reach.append(('%spath %d' % (label, i), [], eng.axioms,
                         list(s.facts) + list(s.pc)))


def setter_target(cls, attr, accept, clears=(), skip=(), contracts=(),
                  types=None, readback=None, name=None, sets=None,
                  init=None, **fields):
    def build(cx):
        eng = cx.engine(types or TYPES, list(contracts), GHOSTS)
        st = eng.start()
        self_ = eng.inst(st, 'self', cls, **fields)
        val = eng.param(st, 'value', ANY)
        if init is not None:
            init(eng, st, self_, val)
        ok = acceptance(eng, st, val, accept)
        outs = eng.setattr_(st.copy(), self_, attr, val)
        oblige_setter(cx, eng, '', st, outs, self_, attr, val, ok, clears,
                      skip, readback, sets=sets)
    return T(name or '%s.%s = value' % (cls.__name__, attr), build)


def field_is(eng, st, obj, name, value):
    """fix the field name of a symbolic object to a concrete object"""
    st.over.setdefault(name, []).append((eng.oid(eng.lift(obj)), Con(value)))


def one_of(*vals):
    """accept exactly these values"""
    def accept(eng, st, v):
        t = eng.lift(v)
        return z3.Or([t == eng.lift(Con(x)) for x in vals])
    return accept


def instance_for(table):
    """reads back an instance of exactly the class the table gives"""
    def goal(eng, st, a, val):
        if isinstance(a, Raise):
            return FALSE
        cls, exact = eng.cls_of(st, a)
        if not exact:
            return FALSE
        t = eng.lift(val)
        ks = [k for k, c in table.items() if c is cls]
        return z3.Or([t == eng.lift(Con(k)) for k in ks] or [FALSE])
    return goal
