"""P16: attribute values hold their data type and compare by value; the
table of attribute value classes."""
from .common import *           # noqa
from .funcs import DATATYPES, TYOF, FACTORY, refuse
from .p17 import symbolic_dict, content_of, same_map, zf
from ndg.xacml.core import attributevalue as AV
from ndg.xacml.core.attributevalue import (AttributeValue,
                                           AttributeValueClassMap,
                                           AttributeValueClassFactory)
from pyvc.verify import Target as T


class Native(object):
    """A native type the code knows nothing about."""


class CustomAttributeValue(AttributeValue):
    """A custom data type."""
    TYPE = Native
    IDENTIFIER = 'urn:example:custom'


class NoTypeAttributeValue(AttributeValue):
    """Lacks its TYPE."""


class NotAnAttributeValue(object):
    pass


NATIVES = dict((n, (u, t, TYOF[t])) for n, (u, t) in DATATYPES.items())
BASE64 = AttributeValue.BASE64BINARY_TYPE_URI


def cases():
    """(name, class, identifier, native type, its type term)"""
    for n, (u, t, ty) in NATIVES.items():
        yield n, FACTORY(u), u, t, ty
    yield 'custom', CustomAttributeValue, CustomAttributeValue.IDENTIFIER, \
        Native, Inst(Native)


def do_make(cls, *a):
    return cls(*a)


def do_set(a, x):
    a.value = x


def do_eq(a, b):
    return a == b


def do_ne(a, b):
    return a != b


def do_find(f, i):
    return f(i)


def do_factory(*a):
    return AttributeValueClassFactory(*a)


def do_add(i, c):
    AttributeValueClassFactory.addClass(i, c)


def do_add_over(i, c):
    AttributeValueClassFactory.addClass(i, c, overwrite=True)


def do_add_flag(i, c, f):
    AttributeValueClassFactory.addClass(i, c, f)


def reads(e, s, a, name, want):
    """a.name is want, for every way reading it may go"""
    fs = []
    for s2, v in e.getattr_(s.copy(), a, name):
        g = FALSE if isinstance(v, Raise) else \
            e.lift(v) == e.lift(want)
        fs.append(z3.Implies(z3.And(s2.pc[len(s.pc):] +
                                    s2.facts[len(s.facts):]), g))
    return z3.And(fs)


def given(eng, st, ty, native, kind, name):
    """[(state, value)] for a value of the native type, nothing, or any
    other value"""
    if kind == 'native':
        return eng.param(st, name, ty)
    if kind == 'none':
        return Con(None)
    v = eng.param(st, name, ANY)
    st.add(z3.Not(zf(eng.isinst(st, v, Con(native)))))
    if kind == 'other':
        st.add(eng.lift(v) != Val.vnone)
    return v


def held(eng, st, cls, v):
    """[(state, a value of the class holding v)], constructed by the code"""
    return [(s, o) for s, o in eng.call(st, Con(cls), [v], {})
            if not isinstance(o, Raise)]


def one(name, cls, uri, native, ty):
    def build(cx):
        cx.oblige('a class is registered', [], z3.BoolVal(
            isinstance(cls, type) and issubclass(cls, AttributeValue)))
        if not isinstance(cls, type):
            return
        # construction
        for kind in ('native', 'none', 'other', 'no argument'):
            eng = cx.engine({}, [], GHOSTS)
            st = eng.start()
            args = [] if kind == 'no argument' else [
                given(eng, st, ty, native, kind, 'x')]

            def made(e, s, code, sp):
                if isinstance(code, Raise):
                    return z3.BoolVal(kind == 'other')
                c, exact = e.cls_of(s, code)
                return z3.And(
                    z3.BoolVal(kind != 'other' and c is cls),
                    reads(e, s, code, 'value', args[0] if args else
                          Con(None)),
                    reads(e, s, code, 'dataType', Con(uri)))
            cx.refine(eng, st, do_make, [(st.copy(), None)],
                      [Con(cls)] + args, made, label='made with %s ' % kind)
        # assignment, whatever it held before
        for before in ('native', 'none'):
            for kind in ('native', 'none', 'other'):
                eng = cx.engine({}, [], GHOSTS)
                st = eng.start()
                old = given(eng, st, ty, native, before, 'old')
                x = given(eng, st, ty, native, kind, 'x')
                for s, a in held(eng, st, cls, old):
                    def put(e, s, code, sp):
                        ok = kind == 'native'
                        return z3.And(
                            z3.BoolVal(ok != isinstance(code, Raise)),
                            reads(e, s, a, 'value', x if ok else old),
                            reads(e, s, a, 'dataType', Con(uri)))
                    cx.refine(eng, s, do_set, [(s.copy(), None)], [a, x], put,
                              label='%s over %s ' % (kind, before))
        # comparison
        for k1 in ('native', 'none'):
            for k2 in ('native', 'none', 'itself', 'foreign'):
                for driver in (do_eq, do_ne):
                    eng = cx.engine({}, [], GHOSTS)
                    st = eng.start()
                    v1 = given(eng, st, ty, native, k1, 'v1')
                    v2 = v1
                    if k2 in ('native', 'none'):
                        v2 = given(eng, st, ty, native, k2, 'v2')
                    for s, a in held(eng, st, cls, v1):
                        if k2 == 'itself':
                            bs = [(s, a)]
                        elif k2 == 'foreign':
                            b = eng.param(s, 'b', ANY)
                            s.add(z3.Not(zf(eng.isinst(s, b, Con(cls)))))
                            bs = [(s, b)]
                        else:
                            bs = held(eng, s, cls, v2)
                        for s2, b in bs:
                            def cmp_(e, s, code, sp):
                                if isinstance(code, Raise) or k2 == 'foreign':
                                    return z3.BoolVal(
                                        isinstance(code, Raise) and
                                        k2 == 'foreign')
                                return e.lift(code) == e.lift(sp)
                            cx.refine(eng, s2, driver, [(s2.copy(), None)]
                                      if k2 == 'foreign' else driver, [a, b],
                                      cmp_, sargs=[v1, v2],
                                      label='%s of %s and %s ' % (
                                          driver.__name__, k1, k2))
    return T('%s values' % name, build)


def base64(cx):
    """the type has no native kind: nothing can be held"""
    cls = FACTORY(BASE64)
    cx.oblige('a class is registered', [], z3.BoolVal(
        isinstance(cls, type) and issubclass(cls, AttributeValue)))
    if not isinstance(cls, type):
        return
    eng = cx.engine({}, [], GHOSTS)
    st = eng.start()
    x = eng.param(st, 'x', ANY)
    st.add(eng.lift(x) != Val.vnone)
    cx.refine(eng, st, do_make, [(st.copy(), None)], [Con(cls), x],
              lambda e, s, c, sp: isinstance(c, Raise), label='made with x ')
    eng = cx.engine({}, [], GHOSTS)
    st = eng.start()
    x = eng.param(st, 'x', ANY)
    for s, a in held(eng, st, cls, Con(None)):
        cx.refine(eng, s, do_set, [(s.copy(), None)], [a, x],
                  lambda e, s, c, sp: z3.And(
                      z3.BoolVal(isinstance(c, Raise)),
                      reads(e, s, a, 'value', Con(None))),
                  label='value = x ')


def abstract(cx):
    """no value of a class without a type can be made"""
    for cls in (AttributeValue, NoTypeAttributeValue):
        eng = cx.engine({}, [], GHOSTS)
        st = eng.start()
        x = eng.param(st, 'x', ANY)
        cx.refine(eng, st, do_make, [(st.copy(), None)], [Con(cls), x],
                  lambda e, s, c, sp: isinstance(c, Raise),
                  label='%s ' % cls.__name__)


# ------------------------------------------------------------------ classes
def live(cx):
    """the default table has exactly the standard identifiers, each with the
    class of its type"""
    m = AttributeValueClassFactory.IDENTIFIER2CLASS_MAP
    want = dict((u, t) for u, t, ty in NATIVES.values())
    want[BASE64] = NotImplemented
    keys = list(m.keys())
    cx.oblige('the standard identifiers', [], z3.BoolVal(
        len(keys) == len(want) and set(keys) == set(want)))
    for u, t in want.items():
        c = m.get(u)
        cx.oblige('class of %s' % u, [], z3.BoolVal(
            isinstance(c, type) and issubclass(c, AttributeValue) and
            c.TYPE is t and c.IDENTIFIER == u))
    cx.oblige('one class each', [], z3.BoolVal(
        len(set(map(id, (m.get(u) for u in want)))) == len(want)))
    cx.paths += 1


def a_map(eng, st, name):
    """a class map of arbitrary content"""
    (s, r), = eng.call(st, Con(AttributeValueClassMap), [], {})
    if isinstance(r, Raise):
        raise Unsupported('class map cannot be constructed')
    base = symbolic_dict(eng, s, r, name)
    return s, r, base


def s_find(d, i):
    return d[i] if i in d else None


def lookup(cx):
    """the class found is the one registered for exactly the identifier, or
    nothing"""
    for custom in (True, False):
        eng = cx.engine({}, [], GHOSTS)
        st, m, base = a_map(eng, eng.start(), 'classes')
        i = eng.param(st, 'identifier', ANY)
        if not custom:
            (st, r), = eng.setattr_(st, Con(AttributeValueClassFactory),
                                    'IDENTIFIER2CLASS_MAP', m)
        plain = eng.alloc(st, dict, mp=base)
        for s, f in eng.call(st, Con(AttributeValueClassFactory),
                             [m] if custom else [], {}):
            if isinstance(f, Raise):
                cx.oblige('factory can be made', list(s.facts) + list(s.pc),
                          FALSE, eng)
                continue

            def compare(e, s, code, sp):
                same = same_map(e, s, content_of(e, s, m), base)
                if isinstance(code, Raise) or isinstance(sp, Raise):
                    return FALSE
                return z3.And(same, e.lift(code) == e.lift(sp))
            eng.assumptions.add('dictionary keys are hashable')
            cx.refine(eng, s, do_find, s_find, [f, i], compare,
                      sargs=[plain, i], label='%s table ' % (
                          'given' if custom else 'default'))
    eng = cx.engine({}, [], GHOSTS)
    st = eng.start()
    x = eng.param(st, 'classMap', ANY)
    st.add(eng.lift(x) != Val.vnone)
    st.add(z3.Not(zf(eng.isinst(st, x, Con(AttributeValueClassMap)))))
    cx.refine(eng, st, do_factory, [(st.copy(), None)], [x],
              lambda e, s, c, sp: isinstance(c, Raise), label='no table ')


def s_add(d, i, c, overwrite):
    if overwrite or i not in d:
        d[i] = c


def register(kind):
    """addClass on a table of arbitrary content"""
    classes = {'a standard class': FACTORY(AttributeValue.STRING_TYPE_URI),
               'a custom class': CustomAttributeValue,
               'some other class': NotAnAttributeValue}

    def build(cx):
        for over in (False, True, 'default'):
            for ik in ('text', 'no text'):
                eng = cx.engine({}, [], GHOSTS)
                st, m, base = a_map(eng, eng.start(), 'classes')
                (st, r), = eng.setattr_(st, Con(AttributeValueClassFactory),
                                        'IDENTIFIER2CLASS_MAP', m)
                if ik == 'text':
                    i = eng.param(st, 'identifier', STR)
                else:
                    i = eng.param(st, 'identifier', ANY)
                    st.add(z3.Not(zf(eng.isinst(st, i, Con(str)))))
                if kind == 'no class':
                    c = eng.param(st, 'cls', ANY)
                    st.add(z3.Not(zf(eng.isinst(st, c, Con(type)))))
                else:
                    c = Con(classes[kind])
                ok = ik == 'text' and kind in ('a standard class',
                                               'a custom class')
                plain = eng.alloc(st, dict, mp=base)

                def compare(e, s, code, sp):
                    same = same_map(e, s, content_of(e, s, m),
                                    s.spec.heap[plain.id].mp)
                    (_, now), = e.getattr_(
                        s.copy(), Con(AttributeValueClassFactory),
                        'IDENTIFIER2CLASS_MAP')
                    return z3.And(z3.BoolVal(
                        isinstance(code, Raise) == isinstance(sp, Raise)),
                        same, e.lift(now) == e.lift(m))
                eng.assumptions.add('dictionary keys are hashable')
                driver = do_add if over == 'default' else do_add_flag
                args = [i, c] + ([] if over == 'default' else [Con(over)])
                cx.refine(eng, st, driver, s_add if ok else refuse, args,
                          compare, sargs=[plain, i, c, Con(over is True)]
                          if ok else [plain],
                          label='%s, overwrite %s ' % (ik, over))
    return T('addClass of %s' % kind, build)


def targets(tier):
    out = [one(*c) for c in cases()]
    out += [T('base64Binary values', base64), T('abstract values', abstract),
            T('the default classes', live), T('class lookup', lookup)]
    out += [register(k) for k in ('a standard class', 'a custom class',
                                  'some other class', 'no class')]
    return out
