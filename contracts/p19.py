"""P19: decisions and effects stay within their vocabulary; the shared
constants never change."""
from .common import *           # noqa
from ndg.xacml.core import rule as RU
from ndg.xacml.core import obligation as OB
from ndg.xacml.core.context import result as RE
from pyvc.verify import Target as T

EFFECTS = ('Permit', 'Deny')
# class -> (vocabulary, {constant name: its class})
VOC = {
    RE.Decision: (DECISIONS, {'PERMIT': 'Permit', 'DENY': 'Deny',
                              'INDETERMINATE': 'Indeterminate',
                              'NOT_APPLICABLE': 'NotApplicable'}),
    RU.Effect: (EFFECTS, {'PERMIT': 'Permit', 'DENY': 'Deny'}),
    OB.Effect: (EFFECTS, {}),
}


def do_make(cls, x):
    return cls(x)


def do_default(cls):
    return cls()


def do_read(d):
    return d.value


def do_set(d, x):
    d.value = x


def do_del(d):
    del d.value


def do_eq(d, x):
    return d == x


def do_ne(d, x):
    return d != x


def do_req(d, x):
    return x == d


def do_str(d):
    return str(d)


def do_repr(d):
    return repr(d)


def do_bool(d):
    return bool(d)


# -- what each does to a thing of value v, given something of value x.  The
#    first component is the value afterwards, the second what is returned.
def s_set(v, x, voc):
    if x not in voc:
        raise ValueError()
    return x, None


def s_const_set(v, x, voc):
    if x not in voc:
        raise ValueError()
    return v, None


def s_eq(v, x, voc):
    if x not in voc:
        raise ValueError()
    return v, v == x


def s_ne(v, x, voc):
    if x not in voc:
        raise ValueError()
    return v, v != x


def s_read(v, voc):
    return v, v


def s_bool(v, voc):
    return v, v == 'Permit'


def s_del(v, voc):
    raise AttributeError()


UNARY = [('value', do_read, s_read), ('str()', do_str, s_read),
         ('del value', do_del, s_del)]
BINARY = [('value = x', do_set, s_set), ('== x', do_eq, s_eq),
          ('!= x', do_ne, s_ne), ('x ==', do_req, s_eq)]


def value_of(e, s, d):
    """[(state, value)]"""
    return e.getattr_(s.copy(), d, 'value')


def holds(e, s, d, f):
    """f(value of d in state s), for every way reading it may go"""
    fs = []
    for s2, v in value_of(e, s, d):
        g = FALSE if isinstance(v, Raise) else f(e.lift(v))
        fs.append(z3.Implies(z3.And(s2.pc[len(s.pc):] +
                                    s2.facts[len(s.facts):]), g))
    return z3.And(fs)


def operand(eng, st, cls, kind, k=0):
    """[(label, state, the operand, a string or None when it is neither a
    string nor one of cls)]"""
    voc, consts = VOC[cls]
    if kind == 'text':
        x = eng.param(st, 'x%d' % k, STR)
        return [(st, x, x)]
    if kind == 'foreign':
        x = eng.param(st, 'x%d' % k, ANY)
        for c in (str, cls):
            b = eng.isinst(st, x, Con(c))
            st.add(z3.Not(zf(b)))
        return [(st, x, Con(None))]
    out = []
    if kind == 'same class':
        v = eng.param(st, 'xv%d' % k, StrIn(*voc))
        for s, o in eng.call(st, Con(cls), [v], {}):
            if not isinstance(o, Raise):
                out.append((s, o, v))
        return out
    o = getattr(cls, kind)
    for s, x in eng.call(st, Con(type(o)), [], {}):
        if not isinstance(x, Raise):
            out.append((s, x, Con(consts[kind])))
    return out


def zf(b):
    return z3.BoolVal(b) if isinstance(b, bool) else b


def kinds(cls):
    return ['text', 'foreign', 'same class'] + sorted(VOC[cls][1])


def is_plain(cls):
    return lambda k: k == 'same class'


def make(cls):
    """cls(x): refuses anything outside the vocabulary"""
    voc, consts = VOC[cls]

    def build(cx):
        for kind in kinds(cls):
            eng = cx.engine({}, [], GHOSTS)
            for st, x, xv in operand(eng, eng.start(), cls, kind):
                def spec(st):
                    return [(st.copy(), None)]
                ok = z3.Or([eng.lift(xv) == eng.lift(Con(w)) for w in voc])

                def compare(e, s, code, sp):
                    if isinstance(code, Raise):
                        return z3.And(z3.Not(ok), z3.BoolVal(refused(code)))
                    c, exact = e.cls_of(s, code)
                    return z3.And(ok, z3.BoolVal(c is cls), holds(
                        e, s, code, lambda v: v == e.lift(xv)))
                cx.refine(eng, st, do_make, spec(st), [Con(cls), x], compare,
                          label='x: %s ' % kind)
        if cls is not OB.Effect:
            eng = cx.engine({}, [], GHOSTS)
            st = eng.start()

            def within(e, s, code, sp):
                if isinstance(code, Raise):
                    return FALSE
                return holds(e, s, code, lambda v: z3.Or(
                    [v == e.lift(Con(w)) for w in voc]))
            cx.refine(eng, st, do_default, [(st.copy(), None)], [Con(cls)],
                      within, label='no argument ')
    return T('%s.%s()' % (cls.__module__.split('.')[-1], cls.__name__),
             build)


def subject(eng, st, cls, which):
    """[(state, a thing of the class, its value)]"""
    return operand(eng, st, cls, which, 9)


def ops(cls, which):
    """every public operation on a thing that is not (which: 'same class')
    or is (which: its name) a constant"""
    voc, consts = VOC[cls]

    def one(cx, label, driver, spec, xkind):
        eng = cx.engine({}, [], GHOSTS)
        for st, d, v in subject(eng, eng.start(), cls, which):
            xs = [(st, None, None)] if xkind is None else \
                [(st, d, v)] if xkind == 'itself' else \
                operand(eng, st, cls, xkind)
            for s, x, xv in xs:
                args, sargs = [d], [v]
                if xkind is not None:
                    args.append(x)
                    sargs.append(xv)
                sargs.append(Con(voc))

                def compare(e, s, code, sp):
                    if isinstance(code, Raise) or isinstance(sp, Raise):
                        return z3.And(
                            z3.BoolVal(refused(code) and (
                                isinstance(sp, Raise) or
                                spec is s_const_set)),
                            holds(e, s, d, lambda w: w == e.lift(v)))
                    return z3.And(
                        holds(e, s, d, lambda w: w == e.lift(sp.items[0])),
                        TRUE if driver is do_repr else
                        e.lift(code) == e.lift(sp.items[1]))
                cx.refine(eng, s, driver, spec, args, compare, sargs=sargs,
                          label='%s%s ' % (label, ' x: ' + xkind if xkind
                                           else ''))

    def build(cx):
        const = which != 'same class'
        for label, driver, spec in UNARY + (
                [('bool()', do_bool, s_bool)] if cls is RU.Effect else []):
            one(cx, label, driver, spec, None)
        for label, driver, spec in BINARY:
            if const and driver is do_set:
                spec = s_const_set
            for k in kinds(cls) + ['itself']:
                if driver is do_req and k in ('text', 'foreign'):
                    continue        # decided by the other operand
                one(cx, label, driver, spec, k)
    return T('%s.%s: operations on %s' % (
        cls.__module__.split('.')[-1], cls.__name__,
        'any other' if which == 'same class' else which), build)


def refused(o):
    """a deliberate refusal, not an accident inside the code"""
    return isinstance(o, Raise) and issubclass(
        o.exc.cls, (TypeError, AttributeError, ValueError))


def constants(cls):
    """the live constants have the classes and values their names say"""
    voc, consts = VOC[cls]

    def build(cx):
        eng = cx.engine({}, [], GHOSTS)
        for n, w in consts.items():
            o = cls.__dict__.get(n)
            cx.oblige('%s exists' % n, [], z3.BoolVal(isinstance(o, cls) and
                                                      type(o) is not cls),
                      eng)
            if not isinstance(o, cls):
                continue
            st = eng.start()
            for s, x in eng.call(st, Con(type(o)), [], {}):
                cx.oblige('%s is made with its value' % n,
                          list(s.facts) + list(s.pc),
                          FALSE if isinstance(x, Raise) else
                          holds(eng, s, x, lambda v: v == eng.lift(Con(w))),
                          eng)
            for s, v in value_of(eng, st, Con(o)):
                cx.oblige('%s has its value' % n, list(s.facts) + list(s.pc),
                          FALSE if isinstance(v, Raise) else
                          eng.lift(v) == eng.lift(Con(w)), eng)
        cx.oblige('as many constants as values', [], z3.BoolVal(
            len({id(cls.__dict__.get(n)) for n in consts}) == len(consts)),
            eng)
        cx.paths += 1
    return T('%s.%s: the constants' % (cls.__module__.split('.')[-1],
                                       cls.__name__), build)


def targets(tier):
    out = []
    for cls, (voc, consts) in VOC.items():
        out.append(make(cls))
        for which in ['same class'] + sorted(consts):
            out.append(ops(cls, which))
        if consts:
            out.append(constants(cls))
    return out
