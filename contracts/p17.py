"""P17: the typed collections of ndg.xacml.utils."""
import datetime
import types
from .common import *           # noqa
from .bags import seqeq, seq_of
from ndg.xacml.utils import (TypedList, UniqList, VettedDict,
                             RestrictedKeyNamesDict)
from ndg.xacml.core.attributevalue import AttributeValue
from pyvc.verify import Target as T
from pyvc.terms import PYEQ


class Element(object):
    """An element type the code knows nothing about."""


class Element2(object):
    """Another one."""


def zf(r):
    return z3.BoolVal(r) if isinstance(r, bool) else r


def made(eng, st, cls, *args):
    """cls(*args), which must succeed"""
    (s, r), = eng.call(st, Con(cls), list(args), {})
    if isinstance(r, Raise):
        raise Unsupported('%s cannot be constructed' % cls.__name__)
    return s, r


def do_append(l, x):
    return l.append(x)


def do_extend(l, items):
    return l.extend(items)


def do_iadd(l, items):
    l += items
    return l


DO = {'append': do_append, 'extend': do_extend, '__iadd__': do_iadd}


# what a batch of items may come as
def as_list(eng, st, q):
    return SeqV(q, list)


def as_tuple(eng, st, q):
    return SeqV(q, tuple)


def as_iterator(eng, st, q):
    """an iterator that can be consumed only once"""
    return eng.alloc(st, types.GeneratorType, src=SeqV(q, tuple), pos=0)


def as_typed(eng, st, q):
    return eng.alloc(st, TypedList, seq=q,
                     attrs={'_TypedList__elementType': Con(object)})


FORMS = [as_list, as_tuple, as_iterator, as_typed]


def elements(et):
    return {Element: 'a class', (Element, Element2): 'a tuple of classes',
            str: 'str'}[et]


def typed(op, et):
    """append / extend / += on a typed list of any content"""
    def build(cx):
        ety = Con(et) if not isinstance(et, tuple) else Tup(
            [Con(c) for c in et])
        for form in (FORMS if op != 'append' else [None]):
            for n in ('any', 'self') if form is as_list else ('any',):
                eng = cx.engine({}, [], GHOSTS)
                st = eng.start()
                old = SBase(z3.Int('old'), ANY)
                st, self_ = made(eng, st, TypedList, ety, SeqV(old, list))
                q = SBase(z3.Int('new'), ANY)
                if op == 'append':
                    x = eng.param(st, 'item', ANY)
                    arg, q = x, SList([x])
                elif n == 'self':
                    arg, q = self_, old
                    # by the invariant of the list
                    st.add(z3.Not(eng.seq_exists(st, q, lambda s, x: z3.Not(
                        zf(eng.isinst(s, x, ety))))))
                else:
                    arg = form(eng, st, q)
                bad = eng.seq_exists(st, q, lambda s, x: z3.Not(zf(
                    eng.isinst(s, x, ety))))

                def compare(eng, st, code, spec):
                    now = seq_of(eng, st, self_)
                    if isinstance(code, Raise):
                        return z3.And(bad, seqeq(eng, st, now, old))
                    r = TRUE if op != '__iadd__' else \
                        eng.lift(code) == eng.lift(self_)
                    t = eng.getattr_(st, self_, 'elementType')[0][1]
                    if not same_class(t, ety):
                        return FALSE
                    return z3.And(r, z3.Not(bad), seqeq(
                        eng, st, now, eng.cat(old, q)))
                cx.refine(eng, st, DO[op], [(st.copy(), None)], [self_, arg],
                          compare, label='(%s%s) ' % (
                              getattr(form, '__name__', 'item'),
                              ' itself' if n == 'self' else ''))
    return T('TypedList.%s of %s' % (op, elements(et)), build)


def same_class(a, b):
    if isinstance(a, Tup) and isinstance(b, Tup):
        return [x.o for x in a.items] == [x.o for x in b.items]
    return isinstance(a, Con) and isinstance(b, Con) and a.o is b.o


def not_iterable(cls, op):
    """an argument that is no iterable at all is refused, unchanged"""
    def build(cx):
        eng = cx.engine({}, [], GHOSTS)
        st = eng.start()
        old = SBase(z3.Int('old'), ANY if cls is TypedList else STR)
        st, self_ = made(eng, st, cls, *([Con(str)] if cls is TypedList
                                         else []), SeqV(old, list))
        arg = eng.param(st, 'arg', INT)

        def compare(eng, st, code, spec):
            return isinstance(code, Raise) and seqeq(
                eng, st, seq_of(eng, st, self_), old)
        cx.refine(eng, st, DO[op], [(st.copy(), None)], [self_, arg], compare)
    return T('%s.%s of no iterable' % (cls.__name__, op), build)


def grown(old, items):
    """old, then each item not yet present"""
    out = list(old)
    for i in items:
        if i not in out:
            out.append(i)
    return out


def grown_by_new(old, items):
    """the same, written with the new items on their own"""
    new = []
    for i in items:
        if i not in old and i not in new:
            new.append(i)
    return list(old) + new


def unique(op, ety, what):
    """append / extend / += on a unique list of any content"""
    def build(cx):
        for form in (FORMS if op != 'append' else [None]):
            eng = cx.engine({}, [], GHOSTS)
            st = eng.start()
            if ety in (ANY, FLT):
                v = z3.Const('v!refl', Val)
                st.fact(z3.ForAll([v], PYEQ(v, v)))
                eng.assumptions.add('the equality of the items of a unique '
                                    'list is total and an equivalence')
            old = SBase(z3.Int('old'), ety)
            st, self_ = made(eng, st, UniqList, SeqV(old, list))
            q = SBase(z3.Int('new'), ety)
            if op == 'append':
                x = eng.param(st, 'item', ety)
                arg, q = x, SList([x])
            else:
                arg = form(eng, st, q)

            def compare(eng, st, code, spec):
                now = seq_of(eng, st, self_)
                if isinstance(code, Raise) or isinstance(spec, Raise):
                    return FALSE
                r = TRUE if op != '__iadd__' else \
                    eng.lift(code) == eng.lift(self_)
                s2 = st.copy()
                s2.heap = st.spec.heap
                want = seq_of(eng, s2, spec)
                return z3.And(r, seqeq(eng, st, now, want))
            cx.refine_any(eng, st, DO[op], [grown_by_new, grown], [self_, arg], compare,
                      sargs=[SeqV(old, list), SeqV(q, list)],
                      label='(%s) ' % getattr(form, '__name__', 'item'))
    return T('UniqList.%s of %s' % (op, what), build)


# ------------------------------------------------------------ dictionaries
def do_make(*args):
    return VettedDict(*args)


def do_set(d, k, v):
    d[k] = v


def do_getitem(d, k):
    return d[k]


def do_get(d, k):
    return d.get(k)


def do_get_default(d, k, default):
    return d.get(k, default)


def do_in(d, k):
    return k in d


def do_del(d, k):
    del d[k]


def do_update(d, other):
    d.update(other)


def do_update_kw(d, other, value):
    d.update(other, name=value)


def symbolic_dict(eng, st, obj, name):
    """give the one dictionary inside obj an arbitrary content"""
    base = MapC(z3.Int(name), (), ANY, ANY)
    h = st.heap[obj.id]
    if h.mp is not None:
        h.mp = base
        return base
    inner = [x for x in h.attrs.values()
             if isinstance(x, Ref) and st.heap[x.id].mp is not None]
    if len(inner) != 1:
        raise Unsupported('which dictionary holds the content')
    st.heap[inner[0].id].mp = base
    return base


def content_of(eng, st, obj):
    h = st.heap[obj.id]
    if h.mp is not None:
        return h.mp
    inner = [x for x in h.attrs.values()
             if isinstance(x, Ref) and st.heap[x.id].mp is not None]
    if len(inner) != 1:
        raise Unsupported('which dictionary holds the content')
    return st.heap[inner[0].id].mp


def same_map(eng, st, a, b, kty=ANY):
    """a formula: a and b have the same keys with the same values"""
    k = Sym(z3.Const('somekey!%d' % eng.uid(), Val), kty)
    fs = []
    for s, x in eng.map_lookup(st.copy(), a, k):
        for s2, y in eng.map_lookup(s.copy(), b, k):
            if x is None or y is None:
                ok = z3.BoolVal(x is None and y is None)
            else:
                ok = eng.lift(x) == eng.lift(y)
            fs.append(z3.Implies(z3.And(s2.pc[len(st.pc):] +
                                        s2.facts[len(st.facts):]), ok))
    return z3.And(fs)


def refines(cx, eng, st, driver, spec, self_, args, label, extra=(),
            raises=None):
    """driver(self_, *args) does what spec(content, *args) says, where
    content is a plain dictionary with the same content"""
    base = content_of(eng, st, self_)
    plain = eng.alloc(st, dict, mp=base)

    def compare(e, s, code, sp):
        m = same_map(e, s, content_of(e, s, self_), s.spec.heap[plain.id].mp)
        if isinstance(code, Raise) or isinstance(sp, Raise):
            r = z3.BoolVal(isinstance(code, Raise) and isinstance(sp, Raise))
            if isinstance(code, Raise) and isinstance(sp, Raise) and \
                    sp.exc.cls is KeyError:
                r = z3.BoolVal(issubclass(code.exc.cls, KeyError))
        else:
            r = e.lift(code) == e.lift(sp)
        return z3.And(m, r)
    eng.assumptions.add('dictionary keys are hashable')
    cx.refine(eng, st, driver, spec, [self_] + list(args), compare,
              sargs=[plain] + list(args) + list(extra), label=label)


def stored(d, key, value, key_ok, value_ok):
    if key_ok(key) and value_ok(value):
        d[key] = value


def default_of(d, key, default):
    return d[key] if key in d else default


def nothing_of(d, key):
    return d[key] if key in d else None


def vetted(cx):
    for label, driver, spec in (
            ('d[k] = v ', do_set, stored), ('d[k] ', do_getitem, do_getitem),
            ('d.get(k) ', do_get, nothing_of),
            ('d.get(k, default) ', do_get_default, default_of),
            ('k in d ', do_in, do_in), ('del d[k] ', do_del, do_del)):
        eng = cx.engine({}, [], GHOSTS)
        st = eng.start()
        kf, vf = eng.param(st, 'keyFilter', ANY), eng.param(
            st, 'valueFilter', ANY)
        outs = eng.call(st, Con(VettedDict), [kf, vf], {})
        good = [(s, r) for s, r in outs if not isinstance(r, Raise)]
        if not good:
            cx.oblige('can be constructed', [], FALSE, eng)
        for s, self_ in good:
            symbolic_dict(eng, s, self_, 'content')
            n = {do_set: 2, do_get_default: 2}.get(driver, 1)
            args = [eng.param(s, 'arg%d' % i, ANY) for i in range(n)]
            refines(cx, eng, s, driver, spec, self_, args, label,
                    [kf, vf] if driver is do_set else ())


def new_vetted(cx):
    """only callables are taken as filters; a new one is empty"""
    eng = cx.engine({}, [], GHOSTS)
    st = eng.start()
    args = [eng.param(st, 'keyFilter', ANY), eng.param(st, 'valueFilter',
                                                       ANY)]

    def spec(st):
        return [(st.copy(), None)]
    ok = z3.And([fn('CALLABLE', Val, B)(a.t) for a in args])

    def compare(e, s, code, sp):
        if isinstance(code, Raise):
            return z3.Not(ok)
        c, exact = e.cls_of(s, code)
        return z3.And(ok, z3.BoolVal(c is VettedDict), same_map(
            e, s, content_of(e, s, code), MapC(None)))
    cx.refine(eng, st, do_make, spec(st), args, compare)
    for n in (0, 1, 3):
        eng = cx.engine({}, [], GHOSTS)
        st = eng.start()
        cx.refine(eng, st, do_make, [(st.copy(), None)],
                  [eng.param(st, 'a%d' % i, ANY) for i in range(n)],
                  lambda e, s, c, sp: isinstance(c, Raise),
                  label='%d arguments ' % n)


def keyed(d, key, value, names):
    if key not in names:
        raise KeyError(key)
    d[key] = value


def merged(d, other, names):
    if some(lambda k: k not in names, other):
        raise KeyError()
    d.update(other)


def merged_kw(d, other, value, names):
    if some(lambda k: k not in names, other) or 'name' not in names:
        raise KeyError()
    d.update(other)
    d['name'] = value


def new_then_set(init, value, key, v):
    d = RestrictedKeyNamesDict(init, name=value)
    d[key] = v
    return d


def new_only_then_set(init, value, key, v):
    d = RestrictedKeyNamesDict(name=value)
    d[key] = v
    return d


def plain_then_set(init, value, key, v):
    d = dict(init)
    d['name'] = value
    if key not in d:
        raise KeyError(key)
    d[key] = v
    return d


def plain_only_then_set(init, value, key, v):
    d = {'name': value}
    if key not in d:
        raise KeyError(key)
    d[key] = v
    return d


def new_restricted(cx):
    """the initial set of keys is all of those it is made with"""
    for driver, spec, label in (
            (new_then_set, plain_then_set, 'from a dictionary and a name '),
            (new_only_then_set, plain_only_then_set, 'from a name ')):
        eng = cx.engine({}, [], GHOSTS)
        st = eng.start()
        init = eng.alloc(st, dict, mp=MapC(z3.Int('initial'), (), STR, ANY))

        def compare(e, s, code, sp):
            if isinstance(code, Raise) or isinstance(sp, Raise):
                return z3.BoolVal(isinstance(code, Raise) and isinstance(
                    sp, Raise) and issubclass(code.exc.cls, KeyError))
            return same_map(e, s, content_of(e, s, code),
                            s.spec.heap[sp.id].mp)
        eng.assumptions.add('dictionary keys are hashable')
        cx.refine(eng, st, driver, spec,
                  [init] + [eng.param(st, x, t) for x, t in (
                      ('value', ANY), ('key', STR), ('other', ANY))],
                  compare, label=label)


def restricted(cx):
    for label, driver, spec in (
            ('d[k] = v ', do_set, keyed), ('d[k] ', do_getitem, do_getitem),
            ('d.update(other) ', do_update, merged),
            ('d.update(other, name=v) ', do_update_kw, merged_kw)):
        eng = cx.engine({}, [], GHOSTS)
        st = eng.start()
        init = eng.alloc(st, dict, mp=MapC(z3.Int('initial'), (), ANY, ANY))
        outs = eng.call(st, Con(RestrictedKeyNamesDict), [init], {})
        for s, self_ in outs:
            if isinstance(self_, Raise):
                cx.oblige('can be constructed', list(s.facts) + list(s.pc),
                          FALSE, eng)
                continue
            names = eng.newlist(s, eng.map_keys(s, MapC(
                z3.Int('initial'), (), ANY, ANY)))
            cur = symbolic_dict(eng, s, self_, 'content')
            # class invariant: no other keys than the initial ones
            k = z3.Const('anykey', Val)
            has = fn('MAPHAS', I, Val, B)
            s.fact(z3.ForAll([k], z3.Implies(
                has(cur.base, k), has(z3.Int('initial'), k)),
                patterns=[has(cur.base, k)]))
            if driver in (do_update, do_update_kw):
                args = [eng.alloc(s, dict, mp=MapC(z3.Int('other'), (), ANY,
                                                   ANY))]
                if driver is do_update_kw:
                    args.append(eng.param(s, 'value', ANY))
            else:
                args = [eng.param(s, 'arg%d' % i, ANY)
                        for i in range(2 if driver is do_set else 1)]
            refines(cx, eng, s, driver, spec, self_, args, label,
                    [names] if driver is not do_getitem else ())


def targets(tier):
    out = [typed(op, et) for op in ('append', 'extend', '__iadd__')
           for et in (Element, (Element, Element2), str)]
    out += [not_iterable(c, op) for c in (TypedList,)
            for op in ('extend', '__iadd__')]
    for ety, what in ((STR, 'texts'), (INT, 'integers'),
                      (FLT, 'floating point numbers'),
                      (Inst(datetime.datetime), 'dates'),
                      (Opt(STR), 'texts and None'), (ANY, 'any items')):
        out += [unique(op, ety, what)
                for op in ('append', 'extend', '__iadd__')]
    out += [T('VettedDict', vetted), T('VettedDict()', new_vetted),
            T('RestrictedKeyNamesDict', restricted),
            T('RestrictedKeyNamesDict()', new_restricted)]
    return out
