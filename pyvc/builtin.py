"""Models of the Python builtins used by the code under verification."""
import ast
import builtins
import importlib
import itertools
import re
import types
import sys
import traceback
import warnings

import z3

from .terms import *          # noqa
from . import source as S
from .engine import HObj, SIMPLE, FlatSrc
from .execu import Exec, PushSrc, GenCall

LISTLIKE = (list, tuple, set, frozenset)


class Builtins(Exec):

    def __init__(self, types_=None, contracts=None):
        Exec.__init__(self, types_, contracts)
        self.fcontracts = {}
        self.folded = set()
        self.tracked = set()
        self.yields = []
        self.live_extra = []
        self.compenvs = {}
        self._models = {}
        for nm in dir(self):
            if nm.startswith('m_'):
                o = getattr(builtins, nm[2:], None)
                if o is not None:
                    self._models[id(o)] = getattr(self, nm)
        self._models[id(object)] = self.x_object
        self._models[id(re.compile)] = self.x_re_compile
        self._models[id(re.match)] = self.x_re_func('match')
        self._models[id(re.search)] = self.x_re_func('search')
        self._models[id(re.fullmatch)] = self.x_re_func('fullmatch')
        self._models[id(traceback.format_exc)] = self.x_str
        self._models[id(traceback.print_exc)] = self.x_none
        self._models[id(warnings.warn)] = self.x_none
        self._models[id(sys.exc_info)] = self.x_any
        self._models[id(importlib.import_module)] = self.x_import
        self._keep = [re.compile, re.match, re.search]
        from contracts import stdlib
        for o, f in stdlib.SUBST:
            self._models[id(o)] = self.x_stdlib(f)
        self._keep.append(stdlib)
        self._from_iterable = stdlib.from_iterable
        self.LISTS = dict(count=stdlib.count, index=stdlib.index)

    def x_stdlib(self, f):
        def call(st, args, kw):
            self.assumptions.add('functools, itertools, operator, contextlib '
                                 'and collections do what contracts/stdlib.py '
                                 'says of them')
            return self.call(st, Con(f), args, kw)
        return call

    def model(self, o):
        if isinstance(o, types.BuiltinMethodType) and \
                o.__self__ is itertools.chain and \
                o.__name__ == 'from_iterable':
            return self.x_stdlib(self._from_iterable)
        try:
            return self._models.get(id(o))
        except TypeError:
            return None

    def x_import(self, st, args, kw):
        v = self.norm(st, args[0]) if len(args) == 1 and not kw else None
        if not (isinstance(v, Con) and isinstance(v.o, str)):
            raise Unsupported('import of a computed name')
        try:
            return [(st, Con(importlib.import_module(v.o)))]
        except Exception as e:
            return self.rz(st, type(e))

    # ------------------------------------------------------------ trivia
    def x_object(self, st, args, kw):
        return [(st, self.alloc(st, object))]

    def x_str(self, st, args, kw):
        return [(st, self.fresh_typed(st, 'str', STR))]

    def x_none(self, st, args, kw):
        return [(st, Con(None))]

    def x_any(self, st, args, kw):
        return [(st, self.fresh_typed(st, 'any', ANY))]

    def arity(self, args, lo, hi):
        return lo <= len(args) <= hi and not any(
            type(a).__name__ == 'Star' for a in args)

    # ------------------------------------------------------------ types
    def m_isinstance(self, st, args, kw):
        v, C = args
        if isinstance(C, Tup):
            # nested tuples
            flat = []

            def fl(t):
                for i in t.items:
                    if isinstance(i, Tup):
                        fl(i)
                    else:
                        flat.append(i.o if isinstance(i, Con) else i)
            fl(C)
            C = Con(tuple(flat)) if all(isinstance(x, type) for x in flat) \
                else Tup(flat)
        return self.isinst_fork(st, v, C)

    def m_issubclass(self, st, args, kw):
        a, b = args
        if isinstance(b, Tup):
            b = Con(tuple(x.o for x in b.items if isinstance(x, Con)))
        if isinstance(a, Con) and isinstance(b, Con):
            try:
                return [(st, Con(issubclass(a.o, b.o)))]
            except TypeError:
                return self.rz(st, TypeError)
        if isinstance(a, ClsOf) and isinstance(b, Con) and isinstance(
                b.o, type):
            r = self.isinst(st, a.v, b.o)
            return [(st, Con(r) if isinstance(r, bool) else self.mkbool(r))]
        if isinstance(a, Sym) and isinstance(b, Con):
            # arbitrary value: TypeError unless it is a class
            isc = self.isinst(st, a, type)
            out = []
            isc = z3.BoolVal(isc) if isinstance(isc, bool) else isc
            for s, c in self.branch(st, isc):
                if c:
                    out.append((s, self.mkbool(fn('ISSUB', Val, I, B)(
                        a.t, z3.IntVal(INTERN.o(b.o))))))
                else:
                    out.extend(self.rz(s, TypeError))
            return out
        raise Unsupported('issubclass')

    def m_type(self, st, args, kw):
        if len(args) == 3 and not kw:
            return self.new_class(st, *args)
        if len(args) != 1:
            raise Unsupported('type() with %d arguments' % len(args))
        return [(st, self.class_of(st, args[0]))]

    def new_class(self, st, name, bases, ns):
        """type(name, bases, namespace) of constants"""
        name, ns = self.norm(st, name), self.concrete_map(st, ns)
        if isinstance(bases, Con) and isinstance(bases.o, tuple):
            bs = [Con(b) for b in bases.o]
        elif isinstance(bases, Tup):
            bs = [self.norm(st, b) for b in bases.items]
        else:
            raise Unsupported('class of computed bases')
        if ns is None or not all(isinstance(b, Con) for b in bs):
            raise Unsupported('class of computed parts')
        d = {}
        for k, v in ns:
            v = self.norm(st, v)
            if not isinstance(v, Con) or not isinstance(name, Con):
                # some new class
                c = self.fresh_typed(st, 'newclass', ANY)
                r = self.isinst(st, c, Con(type))
                st.add(z3.BoolVal(r) if isinstance(r, bool) else r)
                return [(st, c)]
            d[k] = v.o
        d.setdefault('__module__', 'contracts.made')
        try:
            return [(st, Con(type(name.o, tuple(b.o for b in bs), d)))]
        except Exception as e:
            return self.rz(st, type(e))

    def m_callable(self, st, args, kw):
        v = self.norm(st, args[0])
        if isinstance(v, Con):
            return [(st, Con(callable(v.o)))]
        if isinstance(v, (Closure, Bound, ClsOf)):
            return [(st, Con(True))]
        cls, exact = self.cls_of(st, v)
        if cls is not None and (exact or cls in SIMPLE):
            return [(st, Con(S.lookup(cls, '__call__')[0] is not None))]
        if isinstance(v, Sym):
            c = fn('CALLABLE', Val, B)(v.t)
            st.fact(z3.Implies(z3.Or(Val.is_vnone(v.t), Val.is_vstr(v.t),
                                     Val.is_vint(v.t), Val.is_vbool(v.t),
                                     Val.is_vflt(v.t)), z3.Not(c)))
            return [(st, self.mkbool(c))]
        raise Unsupported('callable')

    def m_getattr(self, st, args, kw):
        o, nm = args[0], self.norm(st, args[1])
        if not isinstance(nm, Con):
            raise Unsupported('getattr with symbolic name')
        outs = self.getattr_(st, o, nm.o)
        if len(args) > 2:
            res = []
            for s, v in outs:
                if isinstance(v, Raise) and issubclass(v.exc.cls,
                                                       AttributeError):
                    res.append((s, args[2]))
                else:
                    res.append((s, v))
            return res
        return outs

    def m_hasattr(self, st, args, kw):
        outs = self.m_getattr(st, args[:2], {})
        res = []
        for s, v in outs:
            if isinstance(v, Raise):
                if issubclass(v.exc.cls, AttributeError):
                    res.append((s, Con(False)))
                else:
                    res.append((s, v))
            else:
                res.append((s, Con(True)))
        return res

    def m_setattr(self, st, args, kw):
        nm = self.norm(st, args[1])
        if not isinstance(nm, Con):
            raise Unsupported('setattr with symbolic name')
        return self.bind([(s, v if isinstance(v, Raise) else Con(None))
                          for s, v in self.setattr_(st, args[0], nm.o,
                                                    args[2])],
                         lambda s, v: [(s, v)])

    def m_id(self, st, args, kw):
        return [(st, self.ap(st, 'ID', [self.lift(args[0])], INT))]

    def m_hash(self, st, args, kw):
        v = self.norm(st, args[0])
        cls, exact = self.cls_of(st, v)
        if cls is not None and S.lookup(cls, '__hash__')[0] is None:
            return self.rz(st, TypeError)
        return [(st, self.ap(st, 'HASH', [self.lift(v)], INT))]

    def m_str(self, st, args, kw):
        if not args:
            return [(st, Con(''))]
        v = self.norm(st, args[0])
        if isinstance(v, Con) and isinstance(v.o, SIMPLE):
            return [(st, Con(str(v.o)))]
        if self.kind(v) == 'str':
            return [(st, v)]
        cls, exact = self.cls_of(st, v)
        if cls is not None and not isinstance(v, Exc):
            f, k = S.lookup(cls, '__str__')
            if isinstance(f, types.FunctionType) and self.inlinable(f):
                return self.call(st, Con(f), [v], {})
        return [(st, self.fstr(st, 'str', [v]))]

    def m_repr(self, st, args, kw):
        v = self.norm(st, args[0])
        if isinstance(v, Con) and isinstance(v.o, SIMPLE):
            return [(st, Con(repr(v.o)))]
        return [(st, self.fstr(st, 'repr', [v]))]

    def m_format(self, st, args, kw):
        return [(st, self.fstr(st, 'format', args))]

    def m_bool(self, st, args, kw):
        if not args:
            return [(st, Con(False))]
        v = self.norm(st, args[0])
        if isinstance(v, Sym) and v.ty.kind == 'bool':
            return [(st, v)]
        return [(s, b if isinstance(b, Raise) else Con(b))
                for s, b in self.truth(st, v)]

    def m_int(self, st, args, kw):
        v = self.norm(st, args[0]) if args else Con(0)
        if len(args) <= 1 and self.kind(v) == 'int':
            return [(st, v)]
        if isinstance(v, Con) and isinstance(v.o, SIMPLE) and all(
                isinstance(a, Con) for a in args):
            try:
                return [(st, Con(int(*[a.o for a in args])))]
            except (TypeError, ValueError) as e:
                return self.rz(st, type(e))
        if len(args) == 1 and self.kind(v) == 'bool':
            return [(st, self.mkint(z3.If(self.bt(v.t), 1, 0)))]
        return self.conv(st, 'int', args, INT)

    def m_float(self, st, args, kw):
        v = self.norm(st, args[0]) if args else Con(0.0)
        if self.kind(v) == 'flt':
            return [(st, v)]
        if isinstance(v, Con) and isinstance(v.o, SIMPLE):
            try:
                return [(st, Con(float(v.o)))]
            except (TypeError, ValueError) as e:
                return self.rz(st, type(e))
        return self.conv(st, 'float', args, FLT)

    def conv(self, st, nm, args, ty):
        ts = [self.lift(a) for a in args]
        ok = fn('OK:%s%d' % (nm, len(ts)), *([Val] * len(ts) + [B]))(*ts)
        out = []
        for s, b in self.branch(st, ok):
            if b:
                out.append((s, self.ap(s, 'FN:%s%d' % (nm, len(ts)), ts, ty)))
            else:
                out.append((s, Raise(Exc(Exception, False))))
        return out

    def m_round(self, st, args, kw):
        v = self.norm(st, args[0])
        k = self.kind(v)
        if isinstance(v, Con) and isinstance(v.o, SIMPLE) and \
                len(args) == 1 and not isinstance(v.o, str):
            try:
                return [(st, Con(round(v.o)))]
            except Exception as e:
                return self.rz(st, type(e))
        if k in ('int', 'bool') and len(args) == 1:
            return self.m_int(st, args, kw)
        if k == 'flt' and len(args) == 1:
            # NaN and infinities are refused by round()
            return self.conv(st, 'round', args, INT)
        if k in ('str', 'none'):
            return self.rz(st, TypeError)
        return self.conv(st, 'round', args, ANY)

    def m_abs(self, st, args, kw):
        v = self.norm(st, args[0])
        if self.kind(v) == 'int':
            x = self.zint(v)
            return [(st, self.mkint(z3.simplify(z3.If(x >= 0, x, -x))))]
        return self.conv(st, 'abs', args, ANY)

    # ------------------------------------------------------------ sequences
    def m_len(self, st, args, kw):
        v = self.norm(st, args[0])
        if isinstance(v, Sym) and v.ty.kind == 'opt':
            out = []
            for s, isn in self.branch(st, Val.is_vnone(v.t)):
                if isn:
                    out.extend(self.rz(s, TypeError))
                else:
                    s.refine[v.t.get_id()] = (v.t, v.ty.inner)
                    out.extend(self.m_len(s, [Sym(v.t, v.ty.inner)], {}))
            return out
        cls, exact = self.cls_of(st, v)
        if cls is not None:
            f, k = S.lookup(cls, '__len__')
            if isinstance(f, types.FunctionType):
                return self.call(st, Con(f), [v], {})
        q = self.content(st, v)
        if q is not None and not isinstance(v, Con) and self.isset(st, v):
            l = self.aslist(q)
            if l is None or not all(isinstance(x, Con) for x in l):
                return [(st, self.mkint(self.setsize(st, q)))]
            return [(st, Con(len(set(x.o for x in l))))]
        if q is not None:
            return [(st, self.mkint(z3.simplify(self.seqlen(st, q))))]
        if isinstance(v, Ref) and st.heap[v.id].mp is not None:
            srcs = self.iter_sources(st, v)
            if all(isinstance(x, list) for x in srcs):
                return [(st, Con(sum(len(x) for x in srcs)))]
        if isinstance(v, Con) and hasattr(v.o, '__len__') and isinstance(
                v.o, (dict, str)):
            return [(st, Con(len(v.o)))]
        if self.kind(v) == 'str':
            n = STRLEN(self.stt(v.t))
            st.fact(n >= 0)
            st.fact((n == 0) == (self.stt(v.t) == INTERN.s('')))
            return [(st, self.mkint(n))]
        if self.kind(v) in ('none', 'bool', 'int', 'flt'):
            return self.rz(st, TypeError)
        if cls is not None and exact and S.lookup(cls, '__len__')[0] is None:
            return self.rz(st, TypeError)
        if isinstance(v, Sym) and v.ty.kind == 'any':
            ok = fn('HASLEN', Val, B)(v.t)
            out = []
            for s, b in self.branch(st, ok):
                if b:
                    n = fn('ANYLEN', Val, I)(v.t)
                    s.fact(n >= 0)
                    out.append((s, self.mkint(n)))
                else:
                    out.extend(self.rz(s, TypeError))
            return out
        m = self.map_of(st, v)
        if m is not None:
            n = self.fresh('maplen', I)
            st.fact(n >= 0)
            return [(st, self.mkint(n))]
        raise Unsupported('len of %r' % (v,))

    def m_iter(self, st, args, kw):
        v = self.norm(st, args[0])
        if len(args) != 1:
            raise Unsupported('iter with sentinel')
        self.ordered(st, v)
        if isinstance(v, Ref) and st.heap[v.id].src is not None:
            return [(st, v)]
        cls, _ = self.cls_of(st, v)
        if self.content(st, v) is None and cls is not None:
            f, k = S.lookup(cls, '__iter__')
            if isinstance(f, types.FunctionType):
                return self.call(st, Con(f), [v], {})
            if f is None and self.map_of(st, v) is None:
                return self.rz(st, TypeError)
        if self.content(st, v) is None:
            srcs = self.iter_sources(st, v)
            if srcs and len(srcs) == 1:
                if isinstance(srcs[0], list):
                    return [(st, self.alloc(st, types.GeneratorType,
                                            src=SeqV(SList(srcs[0])),
                                            pos=0))]
                return [(st, self.alloc(st, types.GeneratorType, src=srcs[0],
                                        pos=0))]
            raise Unsupported('iter of %r' % (v,))
        return [(st, self.alloc(st, types.GeneratorType, src=v, pos=0))]

    def m_next(self, st, args, kw):
        v = self.norm(st, args[0])
        if not isinstance(v, Ref) or st.heap[v.id].src is None:
            cls, _ = self.cls_of(st, v)
            f = S.lookup(cls, '__next__')[0] if cls else None
            if isinstance(f, types.FunctionType):
                return self.call(st, Con(f), [v], {})
            if cls is not None and f is None:
                return self.rz(st, TypeError)
            raise Unsupported('next of %r' % (v,))
        h = st.heap[v.id]

        def end(s):
            return [(s, args[1])] if len(args) > 1 else self.rz(
                s, StopIteration)
        if h.pos == 'done':
            return end(st)
        if isinstance(h.src, (GenV, GenCall, PushSrc)):
            # first item only; what remains of the generator is given up
            outs = self.iterate_value(
                st, v, lambda s, x: [(s, ('ret', x))], None)
            res = []
            for s, o in outs:
                if o is None:
                    s.heap[v.id].pos = 'done'
                    res.extend(end(s))
                elif o[0] == 'ret':
                    s.heap[v.id].pos = 'partial'
                    res.append((s, o[1]))
                else:
                    res.append((s, o[1]))
            return res
        if isinstance(h.src, IterSrc):
            n, get = h.src.n, h.src.get
        else:
            q = self.content(st, h.src)
            n, get = self.seqlen(st, q), lambda s, j: self.elem(s, q, j)
        res = []
        for s, b in self.branch(st, n > h.pos):
            if b:
                x = get(s, z3.IntVal(h.pos))
                s.heap[v.id].pos = h.pos + 1
                res.append((s, x))
            else:
                s.heap[v.id].pos = 'done'
                res.extend(end(s))
        return res

    def isset(self, st, v):
        cls = self.cls_of(st, v)[0]
        return cls is not None and issubclass(cls, (set, frozenset))

    def ordered(self, st, v):
        """refuses what depends on the order of the items of a set"""
        if self.isset(st, v):
            q = self.content(st, v)
            l = self.aslist(q) if q is not None else None
            if l is None or len(l) > 1:
                raise Unsupported('order of the items of a set')

    def setsize(self, st, q):
        """the number of items of the set kept as q"""
        n, m = self.fresh('size', I), self.seqlen(st, q)
        st.fact(z3.And(n >= 0, n <= m, (n == 0) == (m == 0)))
        return n

    def mkset(self, st, q, cls=set):
        """[(st, set | Raise)] the set of the items of a sequence; it is
        kept as the sequence, which may name an item more than once"""
        if not self.hashable(st, q):
            return self.rz(st, TypeError)
        return [(st, self.alloc(st, set, seq=q) if cls is set else
                 SeqV(q, cls))]

    def hashable(self, st, q):
        """whether the items of a sequence are hashable"""
        l = self.aslist(q)
        if l is not None:
            xs = [(x, None) for x in l]
        elif isinstance(q, SCat):
            r = [self.hashable(st, p) for p in q.parts]
            if all(r):
                return True
            raise Unsupported('items of a set')
        else:
            n = self.seqlen(st, q)
            if self.must(st, n == 0):
                return True
            if isinstance(q, SFlat):
                for _, p in q.cases:
                    if not self.hashable(st, p):
                        raise Unsupported('items of a set')
                if q.init is None and q.head is None:
                    return True
                raise Unsupported('items of a set')
            xs = [(self.elem(st, q, z3.Int('h!%d' % self.uid())), n)]
        for x, n in xs:
            x = self.norm(st, x)
            t = self.tyof(x)
            if t.kind == 'opt':
                t = t.inner
            if t.kind in self.SIMPLEKINDS:
                continue
            cls, exact = (t.cls, t.exact) if isinstance(x, Sym) and \
                t.kind == 'inst' else self.cls_of(st, x)
            if isinstance(x, Tup) or cls is None or not exact and \
                    cls.__module__ != 'datetime':
                raise Unsupported('items of a set')
            if not exact:
                self.assumptions.add('dates, times and durations are '
                                     'hashable')
            if S.lookup(cls, '__hash__')[0] is None:
                if n is None or self.must(st, n > 0):
                    return False
                raise Unsupported('items of a set')
            if isinstance(S.lookup(cls, '__hash__')[0], types.FunctionType):
                raise Unsupported('items of a set')
        return True

    def collect(self, st, v, cls=list, unordered=False):
        """[(st, Ref | Raise)] list of the items of an iterable"""
        v = self.norm(st, v)
        q = self.content(st, v)
        if not unordered and self.isset(st, v):
            l = self.aslist(q)
            if l is None or len(l) > 1:
                return [(st, self.newlist(st, self.materialise(
                    st, q, self.setsize(st, q)), cls))]
        if q is not None and not (isinstance(v, (Con,)) and isinstance(
                v.o, str)):
            cl, _ = self.cls_of(st, v)
            it = S.lookup(cl, '__iter__')[0] if cl else None
            if not isinstance(it, types.FunctionType):
                return [(st, self.newlist(st, q, cls))]
        r = self.newlist(st, SList([]), cls)

        def body(s, x):
            h = s.heap[r.id]
            h.seq = self.cat(h.seq, SList([x]))
            return [(s, None)]
        res = []
        for s, o in self.iterate_value(st, v, body, None):
            if o is None:
                res.append((s, r))
            elif o[0] == 'raise':
                res.append((s, o[1]))
            else:
                raise Unsupported('control flow in iteration')
        return res

    def m_list(self, st, args, kw):
        if not args:
            return [(st, self.newlist(st, SList([])))]
        return self.collect(st, args[0])

    def m_tuple(self, st, args, kw):
        if not args:
            return [(st, Tup([]))]
        return self.bind(self.collect(st, args[0]), lambda s, r: [
            (s, self.mktuple(s.heap[r.id].seq))])

    def mktuple(self, q):
        return Tup(q.items) if isinstance(q, SList) else SeqV(q, tuple)

    def m_set(self, st, args, kw, cls=set):
        if not args:
            return self.mkset(st, SList([]), cls)
        return self.bind(
            self.collect(st, args[0], unordered=True),
            lambda s, r: self.mkset(s, s.heap[r.id].seq, cls))

    def m_frozenset(self, st, args, kw):
        return self.m_set(st, args, kw, frozenset)

    def m_dict(self, st, args, kw):
        r = self.alloc(st, dict, mp=MapC(None))
        return self.bind(self.bmethod(st, 'update', r, args, kw),
                         lambda s, _: [(s, r)])

    def pull(self, outs, fin):
        res = []
        for s, o in outs:
            if o is None:
                res.append((s, fin))
            elif o[0] in ('ret', 'raise'):
                res.append((s, o[1]))
            else:
                raise Unsupported('control flow')
        return res

    def m_any(self, st, args, kw):
        def body(s, x):
            return [(s2, ('raise', b) if isinstance(b, Raise) else
                     ('ret', Con(True)) if b else None)
                    for s2, b in self.truth(s, x)]
        r = self._boolseq(st, args[0], True)
        if r is not None:
            return r
        return self.pull(self.iterate_value(st, args[0], body, None),
                         Con(False))

    def m_all(self, st, args, kw):
        def body(s, x):
            return [(s2, ('raise', b) if isinstance(b, Raise) else
                     None if b else ('ret', Con(False)))
                    for s2, b in self.truth(s, x)]
        r = self._boolseq(st, args[0], False)
        if r is not None:
            return r
        return self.pull(self.iterate_value(st, args[0], body, None),
                         Con(True))

    def _boolseq(self, st, v, isany):
        """any/all over an already evaluated sequence of plain booleans"""
        v = self.norm(st, v)
        if isinstance(v, Ref) and st.heap[v.id].src is not None:
            return None
        q = self.content(st, v)
        if q is None:
            return None

        def simple(q):
            if isinstance(q, SList):
                return all(self.kind(i) == 'bool' for i in q.items)
            if isinstance(q, SBase):
                return q.ety.kind == 'bool'
            if isinstance(q, STab):
                return self.kind(q.val) == 'bool'
            if isinstance(q, SCat):
                return all(simple(p) for p in q.parts)
            if isinstance(q, SFlat):
                return all(simple(p) for c, p in q.cases) and (
                    q.init is None or simple(q.init))
            return False
        if not simple(q):
            return None

        def phi(s, x):
            b = z3.BoolVal(x.o) if isinstance(x, Con) else self.bt(x.t)
            return b if isany else z3.Not(b)
        e = self.seq_exists(st, q, phi)
        return [(st, self.mkbool(z3.simplify(e if isany else z3.Not(e))))]

    def m_sum(self, st, args, kw):
        start = args[1] if len(args) > 1 else Con(0)
        v = args[0]
        q = self.content(st, self.norm(st, v))
        env = self.new_env(st)
        st.envs[env]['%sum'] = start

        def body(s, x):
            return self._lift_outs(
                self.binop(s, '+', s.envs[env]['%sum'], x),
                lambda s2, r: (s2.envs[env].__setitem__('%sum', r),
                               [(s2, None)])[1])
        res = []
        for s, o in self.iterate_value(st, v, body,
                                       lambda nm: nm == '%sum'):
            if o is None:
                res.append((s, s.envs[env].pop('%sum')))
            else:
                res.append((s, o[1]))
        return res

    def m_min(self, st, args, kw):
        return self._minmax(st, args, kw, 'min')

    def m_max(self, st, args, kw):
        return self._minmax(st, args, kw, 'max')

    def _minmax(self, st, args, kw, nm):
        if kw:
            raise Unsupported(nm + ' with keywords')
        if len(args) == 1:
            q = self.content(st, self.norm(st, args[0]))
            l = self.aslist(q) if q is not None else None
            if l is None:
                raise Unsupported(nm)
            args = l
            if not l:
                return self.rz(st, ValueError)
        r = None
        for a in args:
            a = self.norm(st, a)
            if self.kind(a) != 'int':
                raise Unsupported(nm)
            x = self.zint(a)
            r = x if r is None else (z3.If(x < r, x, r) if nm == 'min'
                                     else z3.If(x > r, x, r))
        return [(st, self.mkint(z3.simplify(r)))]

    def m_enumerate(self, st, args, kw):
        start = args[1] if len(args) > 1 else kw.get('start', Con(0))
        v = self.norm(st, args[0])
        q = self.content(st, v)
        if q is not None and not (isinstance(v, Ref) and
                                  st.heap[v.id].src is not None):
            z0 = self.zint(start)
            l = self.aslist(q)
            if l is not None:
                return [(st, Tup([Tup([self.mkint(z3.simplify(z0 + i)), x])
                                  for i, x in enumerate(l)]))]
            srcs = self._seq_sources(st, q)
            if len(srcs) == 1 and isinstance(srcs[0], IterSrc):
                src = srcs[0]
                return [(st, self.alloc(
                    st, types.GeneratorType, pos=0, src=IterSrc(
                        src.n, lambda s, j: Tup([
                            self.mkint(z3.simplify(z0 + j)),
                            src.get(s, j)]))))]
        env = self.new_env(st)
        st.envs[env]['%i'] = start

        def run(s, body):
            def step(s2, x):
                i = s2.envs[env]['%i']
                s2.envs[env]['%i'] = self.mkint(z3.simplify(
                    self.zint(i) + 1))
                return body(s2, Tup([i, x]))
            self.live_extra.append(lambda nm: nm == '%i')
            try:
                return self.iterate_value(s, v, step, lambda nm: nm == '%i')
            finally:
                self.live_extra.pop()
        return [(st, self.alloc(st, types.GeneratorType, src=PushSrc(run),
                                pos=0))]

    def m_zip(self, st, args, kw):
        if kw:
            raise Unsupported('zip with keywords')
        ns, gets = [], []
        for a in args:
            a = self.norm(st, a)
            q = self.content(st, a)
            if isinstance(a, Ref) and isinstance(st.heap[a.id].src, IterSrc):
                ns.append(st.heap[a.id].src.n)
                gets.append(st.heap[a.id].src.get)
                continue
            if q is None:
                raise Unsupported('zip of %r' % (a,))
            ns.append(self.seqlen(st, q))
            gets.append(lambda s, j, q=q: self.elem(s, q, j))
        n = ns[0]
        for m in ns[1:]:
            n = z3.If(m < n, m, n)
        n = z3.simplify(n)
        get = lambda s, j: Tup([g(s, j) for g in gets])
        if z3.is_int_value(n):
            return [(st, Tup([get(st, z3.IntVal(i))
                              for i in range(n.as_long())]))]
        return [(st, self.alloc(st, types.GeneratorType, pos=0,
                                src=IterSrc(n, get)))]

    def m_range(self, st, args, kw):
        zs = []
        for a in args:
            a = self.norm(st, a)
            if self.kind(a) not in ('int',):
                if self.kind(a) in ('str', 'none', 'flt'):
                    return self.rz(st, TypeError)
                raise Unsupported('range')
            zs.append(self.zint(a))
        lo, hi, step = (z3.IntVal(0), zs[0], z3.IntVal(1)) if len(zs) == 1 \
            else (zs[0], zs[1], zs[2] if len(zs) > 2 else z3.IntVal(1))
        step = z3.simplify(step)
        if not z3.is_int_value(step):
            raise Unsupported('range step')
        sp = step.as_long()
        lo, hi = z3.simplify(lo), z3.simplify(hi)
        if z3.is_int_value(lo) and z3.is_int_value(hi):
            return [(st, Con(range(lo.as_long(), hi.as_long(), sp)))]
        if sp == 1:
            n = hi - lo
        elif sp == -1:
            n = lo - hi
        else:
            raise Unsupported('range step')
        n = z3.simplify(z3.If(n > 0, n, z3.IntVal(0)))
        if self.must(st, n == hi - lo) and sp == 1:
            n = z3.simplify(hi - lo)
        return [(st, IterSrc(n, lambda s, j: self.mkint(
            z3.simplify(lo + sp * j))))]

    def m_reversed(self, st, args, kw):
        v = self.norm(st, args[0])
        q = self.content(st, v)
        if q is None:
            raise Unsupported('reversed')
        l = self.aslist(q)
        if l is not None:
            return [(st, Tup(l[::-1]))]
        n = self.seqlen(st, q)
        return [(st, IterSrc(n, lambda s, j: self.elem(
            s, q, z3.simplify(n - 1 - j))))]

    def m_map(self, st, args, kw):
        if len(args) != 2:
            raise Unsupported('map with several iterables')
        f, v = args

        def run(s, body):
            def step(s2, x):
                return self._lift_outs(self.call(s2, f, [x], {}), body)
            return self.iterate_value(s, v, step, None)
        return [(st, self.alloc(st, types.GeneratorType, src=PushSrc(run),
                                pos=0))]

    def m_filter(self, st, args, kw):
        f, v = args

        def run(s, body):
            def step(s2, x):
                outs = [(s2, x)] if isinstance(f, Con) and f.o is None else \
                    self.call(s2, f, [x], {})

                def g(s3, r):
                    res = []
                    for s4, b in self.truth(s3, r):
                        if isinstance(b, Raise):
                            res.append((s4, ('raise', b)))
                        elif b:
                            res.extend(body(s4, x))
                        else:
                            res.append((s4, None))
                    return res
                return self._lift_outs(outs, g)
            return self.iterate_value(s, v, step, None)
        return [(st, self.alloc(st, types.GeneratorType, src=PushSrc(run),
                                pos=0))]

    def m_sorted(self, st, args, kw):
        raise Unsupported('sorted')

    def m_super(self, st, args, kw):
        if len(args) != 2 or not isinstance(args[0], Con):
            raise Unsupported('super')
        return [(st, SuperV(args[0].o, args[1]))]

    def m_print(self, st, args, kw):
        return [(st, Con(None))]

    def m_property(self, st, args, kw):
        raise Unsupported('property()')

    # ------------------------------------------------------------ operators
    def binop(self, st, op, a, b):
        a, b = self.norm(st, a), self.norm(st, b)
        if isinstance(a, Con) and isinstance(b, Con) and isinstance(
                a.o, SIMPLE) and isinstance(b.o, SIMPLE):
            try:
                x, y = a.o, b.o
                return [(st, self.con({
                    '+': lambda: x + y, '-': lambda: x - y,
                    '*': lambda: x * y, '/': lambda: x / y,
                    '//': lambda: x // y, '%': lambda: x % y,
                    '**': lambda: x ** y, '&': lambda: x & y,
                    '|': lambda: x | y, '^': lambda: x ^ y,
                    '<<': lambda: x << y, '>>': lambda: x >> y}[op]()))]
            except Exception as e:
                return self.rz(st, type(e))
        ka, kb = self.kind(a), self.kind(b)
        if op == '%' and (ka == 'str'):
            return self.strformat(st, a, b)
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Sym) and x.ty.kind == 'opt':
                out = []
                for s, isn in self.branch(st, Val.is_vnone(x.t)):
                    if isn:
                        out.extend(self.rz(s, TypeError))
                    else:
                        s.refine[x.t.get_id()] = (x.t, x.ty.inner)
                        out.extend(self.binop(s, op, a, b))
                return out
        if ka in ('int', 'bool') and kb in ('int', 'bool'):
            x, y = self.asint(a), self.asint(b)
            if op in '+-' or (op == '*'):
                r = {'+': x + y, '-': x - y, '*': x * y}[op]
                return [(st, self.mkint(z3.simplify(r)))]
            if op in '&|^' and ka == kb == 'bool':
                x, y = self.asbool(a), self.asbool(b)
                r = {'&': z3.And(x, y), '|': z3.Or(x, y),
                     '^': z3.Xor(x, y)}[op]
                return [(st, self.mkbool(z3.simplify(r)))]
            if op in ('//', '%'):
                out = []
                for s, z in self.branch(st, y == 0):
                    if z:
                        out.extend(self.rz(s, ZeroDivisionError))
                    elif self.must(s, y > 0):
                        out.append((s, self.mkint(
                            x / y if op == '//' else x % y)))
                    else:
                        raise Unsupported('division')
                return out
        if ka == 'str' and kb == 'str' and op == '+':
            return [(st, self.strcat(a, b))]
        if op == '*' and (self.kind(b) == 'int' or self.kind(a) == 'int'):
            q, n = (a, b) if self.kind(b) == 'int' else (b, a)
            c = self.content(st, q)
            if c is not None and not isinstance(q, Con):
                return self.seqmul(st, q, c, n)
        ca = self.content(st, a)
        cb = self.content(st, b)
        if ca is not None and cb is not None and op == '+':
            la, lb = self.cls_of(st, a)[0], self.cls_of(st, b)[0]
            if issubclass(la, list) and issubclass(lb, list):
                return [(st, self.newlist(st, self.cat(ca, cb)))]
            if issubclass(la, tuple) and issubclass(lb, tuple):
                return [(st, self.mktuple(self.cat(ca, cb)))]
            return self.rz(st, TypeError)
        if ca is not None and cb is not None and op in '&|-^' and all(
                issubclass(self.cls_of(st, x)[0], (set, frozenset))
                for x in (a, b)):
            return self.setop(st, op, ca, cb, frozenset if issubclass(
                self.cls_of(st, a)[0], frozenset) else set)
        cls, _ = self.cls_of(st, a)
        nm = {'+': '__add__', '-': '__sub__', '*': '__mul__', '&': '__and__',
              '|': '__or__', '%': '__mod__'}.get(op)
        f = S.lookup(cls, nm)[0] if cls is not None and nm else None
        if isinstance(f, types.FunctionType):
            return self.call(st, Con(f), [a, b], {})
        if ka in self.SIMPLEKINDS and kb in self.SIMPLEKINDS:
            nums = ('int', 'bool', 'flt')
            if ka in nums and kb in nums:
                ts = [self.lift(a), self.lift(b)]
                return [(st, self.ap(st, 'NUM' + op, ts, FLT))]
            if not (op == '*' and 'str' in (ka, kb)):
                return self.rz(st, TypeError)
        if 'any' in (ka, kb) or 'inst' in (ka, kb):
            if cls is not None and cls not in SIMPLE and kb != 'any' and \
                    f is None and self.cls_of(st, a)[1]:
                return self.rz(st, TypeError)
            return self.conv(st, 'BIN' + op, [a, b], ANY)
        raise Unsupported('%r %s %r' % (a, op, b))

    def asint(self, v):
        if isinstance(v, Con):
            return z3.IntVal(int(v.o))
        return self.it(v.t) if v.ty.kind == 'int' else z3.If(
            self.bt(v.t), z3.IntVal(1), z3.IntVal(0))

    def asbool(self, v):
        return z3.BoolVal(v.o) if isinstance(v, Con) else self.bt(v.t)

    def strcat(self, a, b):
        if isinstance(a, Con) and a.o == '':
            return b
        if isinstance(b, Con) and b.o == '':
            return a
        return Sym(Val.vstr(self.catt(self.stt(self.lift(a)),
                                      self.stt(self.lift(b)))), STR) \
            if not (isinstance(a, Con) and isinstance(b, Con)) else \
            self.fold(a.o, b.o)

    def catt(self, x, y):
        """concatenation of two string terms: associated to the left, with
        constants merged"""
        f = fn('STRCAT', I, I, I)
        x, y = z3.simplify(x), z3.simplify(y)
        if z3.is_app(y) and y.decl().name() == 'STRCAT':
            return self.catt(self.catt(x, y.arg(0)), y.arg(1))
        k = self.const_str(y)
        if k == '':
            return x
        if k is not None:
            if self.const_str(x) is not None:
                return self.stt(self.lift(self.fold(self.const_str(x), k)))
            if z3.is_app(x) and x.decl().name() == 'STRCAT':
                m = self.const_str(x.arg(1))
                if m is not None:
                    return f(x.arg(0), self.stt(self.lift(self.fold(m, k))))
        return f(x, y)

    def const_str(self, t):
        if z3.is_int_value(t):
            return INTERN.rstr.get(t.as_long())
        return None

    def fold(self, a, b):
        r = Con(a + b)
        if (a, b) not in self.folded:
            self.folded.add((a, b))
            self.axioms.append(fn('STRCAT', I, I, I)(*[self.stt(self.lift(
                Con(x))) for x in (a, b)]) == self.stt(self.lift(r)))
        return r

    def template(self, st, parts, name):
        """the text of constants (str) and formatted values: concatenation
        when every value is a string, else a function of the values"""
        if all(isinstance(x, str) or (self.kind(self.norm(st, x)) == 'str')
               for x in parts):
            acc = Con('')
            for x in parts:
                acc = self.strcat(acc, Con(x) if isinstance(x, str)
                                  else self.norm(st, x))
            return acc
        key = '|'.join(x if isinstance(x, str) else '%' for x in parts)
        return self.fstr(st, '%s%d' % (name, INTERN.s(key)),
                         [x for x in parts if not isinstance(x, str)])

    def pct(self, st, text, vals):
        parts, vals = [], list(vals)
        for x in re.split('(%s|%%)', text):
            parts.append('%' if x == '%%' else vals.pop(0) if x == '%s'
                         else x)
        return self.template(st, parts, 'pct')

    def strformat(self, st, a, b):
        if isinstance(a, Con):
            specs = re.findall(r'%(?:\(\w+\))?[-+ #0]*[\d*]*(?:\.[\d*]+)?'
                               r'([a-zA-Z%])', a.o)
            nargs = [x for x in specs if x != '%']
            if isinstance(b, (Tup,)) and '%(' not in a.o:
                if len(b.items) != len(nargs):
                    return self.rz(st, TypeError, 'format arguments')
                for c, x in zip(nargs, b.items):
                    if c in 'dixXfFgGeE' and self.kind(
                            self.norm(st, x)) in ('str', 'none'):
                        return self.rz(st, TypeError, '%d format')
                if set(nargs) <= {'s'} and not re.search(
                        r'%[^s%]', a.o):
                    return [(st, self.pct(st, a.o, list(b.items)))]
                return [(st, self.fstr(st, 'pct%d' % INTERN.s(a.o),
                                       b.items))]
            if not isinstance(b, (SeqV,)) and '%(' not in a.o and not (
                    isinstance(b, Ref) and st.heap[b.id].mp is not None):
                if len(nargs) != 1:
                    if isinstance(b, Sym) and b.ty.kind == 'any':
                        self.assumptions.add(
                            'values formatted into messages are not tuples')
                    return self.rz(st, TypeError, 'format arguments')
                if isinstance(b, Sym) and b.ty.kind in ('any', 'opt'):
                    self.assumptions.add(
                        'values formatted into messages are not tuples')
                if nargs == ['s'] and not re.search(r'%[^s%]', a.o):
                    return [(st, self.pct(st, a.o, [b]))]
                return [(st, self.fstr(st, 'pct%d' % INTERN.s(a.o), [b]))]
        return [(st, self.fresh_typed(st, 'fmt', STR))]

    def seqmul(self, st, v, c, n):
        cls = self.cls_of(st, v)[0]
        zn = z3.simplify(self.zint(n))
        if z3.is_int_value(zn):
            q = SList([])
            for _ in range(max(0, zn.as_long())):
                q = self.cat(q, c)
        else:
            l = self.aslist(c)
            if l is None or len(l) != 1:
                raise Unsupported('sequence repetition')
            if not self.must(st, zn >= 0):
                zn = z3.If(zn >= 0, zn, z3.IntVal(0))
            q = STab(zn, z3.Int('r!%d' % self.uid()), l[0])
        if issubclass(cls, tuple):
            return [(st, self.mktuple(q))]
        return [(st, self.newlist(st, q))]

    # ------------------------------------------------------------ sets
    def eqf(self, st, a, b):
        """z3 Bool of "a is b or a == b" for plain values"""
        def eq(s):
            outs = self.eq(s, a, b)
            for _, v in outs:
                if isinstance(v, Raise) or not (isinstance(v, Con) or
                                                self.kind(v) == 'bool'):
                    raise Unsupported('user-defined equality in a set')
            return outs
        f = self.formula(st, eq)
        if not (self._scalar(a) and self._scalar(b)):
            f = z3.Or(self.lift(a) == self.lift(b), f)
        return f

    def eq_plain(self, st, a, b):
        outs = self.eq(st, a, b)
        if len(outs) != 1 or isinstance(outs[0][1], Raise):
            raise Unsupported('user-defined equality in a set')
        v = outs[0][1]
        if not (isinstance(v, Con) or self.kind(v) == 'bool'):
            raise Unsupported('equality result')
        return v

    def setop(self, st, op, a, b, cls=set):
        def filt(q, other, keep):
            def has(s, x):
                return self.seq_exists(s, other,
                                       lambda s2, y: self.eqf(s2, x, y))
            if isinstance(q, SList):
                cases = SList([])
                for x in q.items:
                    h = z3.simplify(has(st, x))
                    h = h if keep else z3.simplify(z3.Not(h))
                    if z3.is_true(h):
                        cases = self.cat(cases, SList([x]))
                    elif not z3.is_false(h):
                        k = z3.Int('k!%d' % self.uid())
                        cases = self.cat(cases, SFlat(
                            z3.IntVal(1), k, [(h, SList([x])),
                                              (z3.Not(h), SList([]))]))
                return cases
            if isinstance(q, SCat):
                r = SList([])
                for p in q.parts:
                    r = self.cat(r, filt(p, other, keep))
                return r
            if isinstance(q, (SBase, STab)):
                n = self.seqlen(st, q)
                k = z3.Int('k!%d' % self.uid())
                x = self.elem(st, q, k)
                h = self.under(st, k, z3.And(k >= 0, k < n),
                               lambda s: has(s, self.elem(s, q, k)))
                if not keep:
                    h = z3.Not(h)
                return SFlat(n, k, [(h, SList([x])),
                                    (z3.Not(h), SList([]))])
            if isinstance(q, SFlat) and q.init is None and q.head is None:
                cases = []
                for c, p in q.cases:
                    l = self.aslist(p)
                    if l is None:
                        raise Unsupported('set operation')
                    if not l:
                        cases.append((c, p))
                    elif len(l) == 1:
                        h = self.under(st, q.k, z3.And(q.k >= 0, q.k < q.n,
                                                       c),
                                       lambda s: has(s, l[0]))
                        if not keep:
                            h = z3.Not(h)
                        cases.append((z3.And(c, h), p))
                        cases.append((z3.And(c, z3.Not(h)), SList([])))
                    else:
                        raise Unsupported('set operation')
                return SFlat(q.n, q.k, cases)
            raise Unsupported('set operation')
        if op == '&':
            q = filt(a, b, True)
        elif op == '-':
            q = filt(a, b, False)
        elif op == '|':
            q = self.cat(a, b)
        else:
            q = self.cat(filt(a, b, False), filt(b, a, False))
        return [(st, self.alloc(st, set, seq=q) if cls is set else
                 SeqV(q, cls))]

    # ------------------------------------------------------------ containers
    def map_of(self, st, v):
        v = self.norm(st, v)
        if isinstance(v, Ref):
            return st.heap[v.id].mp
        if isinstance(v, Sym) and v.ty.kind == 'inst' and issubclass(
                v.ty.cls, dict):
            o = self.oid(v.t)
            r = st.omap.get(o.get_id())
            if r is not None:
                return r[1]
            kty = v.ty.fields.get('%key', ANY)
            return MapC(o, (), kty, v.ty.fields.get('%val', ANY))
        return None

    def set_map(self, st, v, m, what='dictionary'):
        v = self.norm(st, v)
        if isinstance(v, Ref):
            st.heap[v.id].mp = m
            if v.id in self.tracked:
                st.writes.append((what, what))
            return
        o = self.oid(v.t)
        st.omap[o.get_id()] = (o, m)
        st.writes.append((what, 'contents of a dictionary'))

    def keyeq(self, st, a, b):
        r = self.eq_plain(st, a, b)
        return z3.BoolVal(bool(r.o)) if isinstance(r, Con) else self.bt(r.t)

    def map_lookup(self, st, m, key):
        """[(st, value | None)]"""
        out = []
        cur = [st]
        for op, k, v in reversed(m.log):
            nxt = []
            if op == 'upd':
                for s in cur:
                    for s2, x in self.map_lookup(s, k, key):
                        if x is None:
                            nxt.append(s2)
                        else:
                            out.append((s2, x))
                cur = nxt
                continue
            for s in cur:
                for s2, b in self.branch(s, self.keyeq(s, k, key)):
                    if b:
                        out.append((s2, v if op == 'set' else None))
                    else:
                        nxt.append(s2)
            cur = nxt
            if not cur:
                return out
        for s in cur:
            if m.base is None:
                out.append((s, None))
                continue
            kt = self.lift(key)
            has = fn('MAPHAS', I, Val, B)(m.base, kt)
            for s2, b in self.branch(s, has):
                if b:
                    out.append((s2, self.ap(s2, 'MAPGET', [m.base, kt],
                                            m.vty)))
                else:
                    out.append((s2, None))
        return out

    def condict_lookup(self, st, d, key):
        """lookup in a concrete dictionary: [(st, value|None)]"""
        key = self.norm(st, key)
        if isinstance(key, Con):
            try:
                return [(st, self.con(d[key.o]) if key.o in d else None)]
            except TypeError:
                return [(st, Raise(Exc(TypeError)))]
        if isinstance(key, (Tup, Ref, SeqV)):
            raise Unsupported('dictionary key')
        out, cur = [], [st]
        if self.kind(key) not in self.SIMPLEKINDS + ('any', 'opt'):
            raise Unsupported('dictionary key %r' % (key,))
        groups = {}
        for k, v in d.items():
            groups.setdefault(id(v) if not isinstance(v, SIMPLE) else
                              (type(v).__name__, repr(v)),
                              (v, []))[1].append(k)
        for v, ks in groups.values():
            nxt = []
            for s in cur:
                c = z3.Or([self.keyeq(s, key, self.con(k)) for k in ks])
                for s2, b in self.branch(s, c):
                    if b:
                        out.append((s2, self.con(v)))
                    else:
                        nxt.append(s2)
            cur = nxt
        return out + [(s, None) for s in cur]

    def dict_lookup(self, st, v, key):
        v = self.norm(st, v)
        if isinstance(v, Con) and isinstance(v.o, (dict,
                                                   types.MappingProxyType)):
            if id(v.o) in self.memo:
                return self.memo_lookup(st, v.o, key)
            return self.condict_lookup(st, v.o, key)
        m = self.map_of(st, v)
        if m is None:
            raise Unsupported('lookup in %r' % (v,))
        return self.map_lookup(st, m, key)

    # global memo tables: invariant  cache[key] == f(key)
    def memo_lookup(self, st, d, key):
        kv, tmpl = self.memo[id(d)][1:]
        if tmpl is None:
            return [(st, None)]          # first pass: table still empty
        kt = self.lift(key)
        has = self.fresh('cached', B)
        out = []
        for s, b in self.branch(st, has):
            if not b:
                out.append((s, None))
                continue
            v = vsub(tmpl[0], [(kv, kt)])
            for c in tmpl[1]:
                s.add(ssub(c, [(kv, kt)]))
            out.append((s, v))
        return out

    def memo_store(self, st, d, key, val):
        kt = self.lift(key)
        if id(d) not in self.memo:
            self.memo[id(d)] = (d, z3.Const('memokey', Val), None)
            raise MemoRestart()
        kv, tmpl = self.memo[id(d)][1:]
        if not isinstance(val, Sym):
            raise Unsupported('memo table value')
        # conditions about the key alone hold for every cached entry
        conds = []
        gen = Sym(ssub(val.t, [(kt, kv)]), val.ty)
        for c in st.pc:
            if term_has(c, [kt]):
                c2 = ssub(c, [(kt, kv)])
                if self._only(c2, kv):
                    conds.append(c2)
        if not self._only(gen.t, kv):
            raise Unsupported('cache entry is not a function of its key')
        if tmpl is None:
            self.memo[id(d)] = (d, kv, (gen, conds))
            raise MemoRestart()
        if not tmpl[0].t.eq(gen.t):
            raise Unsupported('cache entries of several forms')
        have = set(c.get_id() for c in conds)
        for c in tmpl[1]:
            if c.get_id() not in have and not self.must(
                    st, ssub(c, [(kv, kt)])):
                raise Unsupported('cache invariant not preserved')
        self.assumptions.add('global caches are only written by the '
                             'functions under contract')
        return

    def _only(self, t, kv):
        """does t mention no uninterpreted constant but kv?"""
        todo, seen = [t], set()
        while todo:
            x = todo.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_quantifier(x):
                todo.append(x.body())
                continue
            if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED \
                    and not x.eq(kv):
                return False
            todo.extend(x.children())
        return True

    def contains(self, st, c, x):
        """[(st, bool | Raise)] of x in c"""
        c = self.norm(st, c)
        if isinstance(c, Sym) and c.ty.kind == 'opt':
            out = []
            for s, isn in self.branch(st, Val.is_vnone(c.t)):
                if isn:
                    out.extend(self.rz(s, TypeError))
                else:
                    s.refine[c.t.get_id()] = (c.t, c.ty.inner)
                    out.extend(self.contains(s, Sym(c.t, c.ty.inner), x))
            return out
        cls, _ = self.cls_of(st, c)
        if cls is not None:
            f, k = S.lookup(cls, '__contains__')
            if isinstance(f, types.FunctionType) and self.inlinable(f):
                return self.call(st, Con(f), [c, x], {})
        if isinstance(c, Con) and isinstance(c.o, (
                dict, types.MappingProxyType)):
            if not isinstance(x, Con) and id(c.o) not in self.memo and \
                    self.kind(self.norm(st, x)) in self.SIMPLEKINDS:
                f = z3.Or([self.keyeq(st, x, self.con(k)) for k in c.o] or
                          [FALSE])
                return [(st, self.mkbool(z3.simplify(f)))]
            return [(s, v if isinstance(v, Raise) else Con(v is not None))
                    for s, v in self.dict_lookup(st, c, x)]
        if self.map_of(st, c) is not None:
            return [(s, v if isinstance(v, Raise) else Con(v is not None))
                    for s, v in self.dict_lookup(st, c, x)]
        if self.kind(c) == 'str':
            x = self.norm(st, x)
            if self.kind(x) == 'opt':
                out = []
                for s, isn in self.branch(st, Val.is_vnone(x.t)):
                    out.extend(self.rz(s, TypeError) if isn else
                               self.contains(s, c, Sym(x.t, x.ty.inner)))
                return out
            if isinstance(c, Con) and isinstance(x, Con) and isinstance(
                    x.o, str):
                return [(st, Con(x.o in c.o))]
            if self.kind(x) not in ('str', 'any'):
                return self.rz(st, TypeError)
        if self.kind(c) == 'str':
            if self.kind(self.norm(st, x)) == 'str':
                return [(st, self.mkbool(fn('STRIN', I, I, B)(
                    self.stt(self.lift(x)), self.stt(self.lift(c)))))]
            raise Unsupported('in string')
        if self.kind(c) in ('none', 'bool', 'int', 'flt'):
            return self.rz(st, TypeError)
        q = self.content(st, c)
        if q is None:
            if isinstance(c, Ref) and st.heap[c.id].src is not None:
                def bodyg(s, y):
                    return self._eqbody(s, x, y)
                return self.pull(self.iterate_value(st, c, bodyg, None),
                                 Con(False))
            raise Unsupported('membership in %r' % (c,))
        if self.isset(st, c) and not self.hashable(st, SList([x])):
            return self.rz(st, TypeError)
        # plain equality: one formula
        try:
            return [(st, self.mkbool(z3.simplify(self.seq_exists(
                st, q, lambda s, y: self.eqf(s, y, x)))))]
        except Unsupported:
            pass
        return self.pull(self.iterate_many(
            st, self._seq_sources(st, q),
            lambda s, y: self._eqbody(s, x, y), None), Con(False))

    def _eqbody(self, s, x, y):
        res = []
        idn = self.identical(s, y, x)
        f = z3.BoolVal(bool(idn.o)) if isinstance(idn, Con) else \
            self.bt(idn.t)
        for s1, same in self.branch(s, f):
            if same:
                res.append((s1, ('ret', Con(True))))
                continue
            for s2, v in self.eq(s1, y, x):
                if isinstance(v, Raise):
                    res.append((s2, ('raise', v)))
                    continue
                for s3, b in self.truth(s2, v):
                    res.append((s3, ('raise', b) if isinstance(b, Raise) else
                                ('ret', Con(True)) if b else None))
        return res

    def getitem(self, st, o, i):
        o, i = self.norm(st, o), self.norm(st, i)
        if isinstance(o, Sym) and o.ty.kind == 'opt':
            out = []
            for s, isn in self.branch(st, Val.is_vnone(o.t)):
                if isn:
                    out.extend(self.rz(s, TypeError))
                else:
                    s.refine[o.t.get_id()] = (o.t, o.ty.inner)
                    out.extend(self.getitem(s, Sym(o.t, o.ty.inner), i))
            return out
        cls, exact = self.cls_of(st, o)
        if cls is not None:
            f, k = S.lookup(cls, '__getitem__')
            if isinstance(f, types.FunctionType) and self.inlinable(f):
                return self.call(st, Con(f), [o, i], {})
        return self.raw_getitem(st, o, i)

    def raw_getitem(self, st, o, i):
        if (isinstance(o, Con) and isinstance(o.o, (
                dict, types.MappingProxyType))) or \
                self.map_of(st, o) is not None:
            res = []
            for s, v in self.dict_lookup(st, o, i):
                res.extend(self.rz(s, KeyError) if v is None else [(s, v)])
            return res
        if isinstance(o, Con) and isinstance(i, Con):
            try:
                return [(st, self.con(o.o[i.o]))]
            except Exception as e:
                return self.rz(st, type(e))
        if self.kind(o) == 'str':
            if self.kind(i) not in ('int', 'bool'):
                if self.kind(i) in ('any', 'opt'):
                    raise Unsupported('index %r' % (i,))
                return self.rz(st, TypeError)
            n = self.zint(self.m_len(st, [o], {})[0][1])
            j = self.asint(i)
            out = []
            for s, b in self.branch(st, z3.And(j >= -n, j < n)):
                out.extend([(s, self.ap(s, 'STRIDX', [
                    self.lift(o), self.lift(i)], STR))] if b
                    else self.rz(s, IndexError))
            return out
        q = self.content(st, o)
        if q is None:
            if self.kind(o) in self.SIMPLEKINDS:
                return self.rz(st, TypeError)
            raise Unsupported('subscript of %r' % (o,))
        if self.kind(i) not in ('int', 'bool'):
            if self.kind(i) in ('any', 'opt'):
                raise Unsupported('index %r' % (i,))
            return self.rz(st, TypeError)
        n = self.seqlen(st, q)
        j = z3.simplify(self.asint(i))
        if z3.is_int_value(j) and j.as_long() < 0:
            j = z3.simplify(n + j)
        elif not z3.is_int_value(j) and not self.must(st, j >= 0):
            raise Unsupported('possibly negative index')
        res = []
        for s, b in self.branch(st, z3.And(j >= 0, j < n)):
            if b:
                res.append((s, self.elem(s, q, j)))
            else:
                res.extend(self.rz(s, IndexError))
        return res

    def slice_(self, st, o, lo, hi, step):
        o = self.norm(st, o)

        def cv(x):
            if x is None or (isinstance(x, Con) and x.o is None):
                return None
            return x.o if isinstance(x, Con) else x
        lo, hi, step = cv(lo), cv(hi), cv(step)
        if isinstance(o, Con) and all(x is None or isinstance(x, int)
                                      for x in (lo, hi, step)):
            try:
                return [(st, self.con(o.o[slice(lo, hi, step)]))]
            except Exception as e:
                return self.rz(st, type(e))
        if self.kind(o) == 'str':
            nm = 'STRSLICE:%s:%s:%s' % tuple(
                x if not isinstance(x, Sym) else '?' for x in (lo, hi, step))
            ts = [self.lift(o)] + [x.t for x in (lo, hi, step)
                                   if isinstance(x, Sym)]
            return [(st, self.ap(st, nm, ts, STR))]
        q = self.content(st, o)
        if q is None:
            raise Unsupported('slice of %r' % (o,))
        l = self.aslist(q)
        cls = self.cls_of(st, o)[0]
        if l is not None and all(x is None or isinstance(x, int)
                                 for x in (lo, hi, step)):
            r = SList(l[slice(lo, hi, step)])
        elif hi is None and step is None and (lo is None or (
                isinstance(lo, int) and lo >= 0)):
            r = q if not lo else SSlice(q, lo)
        elif isinstance(q, (SBase, STab, SSlice)) and step in (None, 1, -1) \
                and not (step == -1 and (lo is not None or hi is not None)):
            n = self.seqlen(st, q)
            zero = z3.IntVal(0)

            def bound(x, d):
                if x is None:
                    return d
                x = z3.IntVal(x) if isinstance(x, int) else self.it(x.t)
                return z3.simplify(z3.If(
                    x >= 0, z3.If(x > n, n, x),
                    z3.If(n + x < 0, zero, n + x)))
            if any(isinstance(x, Sym) and x.ty.kind != 'int'
                   for x in (lo, hi)):
                raise Unsupported('slice bound')
            a, b = bound(lo, zero), bound(hi, n)
            k = z3.Int('k!%d' % self.uid())
            if step == -1:
                r = STab(n, k, self.elem(st, q, z3.simplify(n - 1 - k)))
            else:
                r = STab(z3.simplify(z3.If(b > a, b - a, zero)), k,
                         self.elem(st, q, z3.simplify(a + k)))
        else:
            raise Unsupported('slice')
        return [(st, self.mktuple(r) if issubclass(cls, tuple)
                 else self.newlist(st, r))]

    def setitem(self, st, o, i, v):
        o, i = self.norm(st, o), self.norm(st, i)
        cls, exact = self.cls_of(st, o)
        if cls is not None:
            f, k = S.lookup(cls, '__setitem__')
            if isinstance(f, types.FunctionType):
                return self.call(st, Con(f), [o, i, v], {})
        return self.raw_setitem(st, o, i, v)

    def raw_setitem(self, st, o, i, v):
        if isinstance(o, Con) and isinstance(o.o, dict):
            self.memo_store(st, o.o, i, v)
            return [(st, Con(None))]
        m = self.map_of(st, o)
        if m is not None:
            self.set_map(st, o, m.put(i, v))
            return [(st, Con(None))]
        q = self.content(st, o)
        if q is None or isinstance(o, (Tup, SeqV, Con)):
            if isinstance(o, (Tup, SeqV)) or self.kind(o) in \
                    self.SIMPLEKINDS:
                return self.rz(st, TypeError)
            raise Unsupported('store into %r' % (o,))
        n = self.seqlen(st, q)
        j = z3.simplify(self.asint(i))
        if z3.is_int_value(j) and j.as_long() < 0:
            j = z3.simplify(n + j)
        elif not z3.is_int_value(j) and not self.must(st, j >= 0):
            raise Unsupported('possibly negative index')
        res = []
        for s, b in self.branch(st, z3.And(j >= 0, j < n)):
            if not b:
                res.extend(self.rz(s, IndexError))
                continue
            if isinstance(q, SList) and z3.is_int_value(j):
                l = list(q.items)
                l[j.as_long()] = v
                self.set_seq(s, o, SList(l))
            else:
                self.set_seq(s, o, SStore(q, j, v))
            res.append((s, Con(None)))
        return res

    def set_seq(self, st, o, q):
        o = self.norm(st, o)
        if isinstance(o, Ref):
            st.heap[o.id].seq = q
            if o.id in self.tracked:
                st.writes.append(('list', 'contents of a list'))
            return
        if isinstance(o, Sym):
            t = self.oid(o.t)
            st.oseq[t.get_id()] = (t, q)
            st.writes.append(('list', 'contents of %s' % t))
            return
        raise Unsupported('list update of %r' % (o,))

    def delitem(self, st, o, i):
        o, i = self.norm(st, o), self.norm(st, i)
        cls, exact = self.cls_of(st, o)
        if cls is not None:
            f, k = S.lookup(cls, '__delitem__')
            if isinstance(f, types.FunctionType):
                return self.call(st, Con(f), [o, i], {})
        m = self.map_of(st, o)
        if m is not None:
            res = []
            for s, v in self.map_lookup(st, m, i):
                if v is None:
                    res.extend(self.rz(s, KeyError))
                else:
                    self.set_map(s, o, m.rem(i))
                    res.append((s, Con(None)))
            return res
        raise Unsupported('del item of %r' % (o,))

    # ------------------------------------------------------------ methods
    def bmethod(self, st, name, v, args, kw):
        """Method of a builtin type."""
        if name.startswith('log:'):
            return self.logcall(st, name[4:], args, kw)
        v = self.norm(st, v)
        if name == 'object.__init__':
            return [(st, Con(None))] if not args and not kw else self.rz(
                st, TypeError)
        if name == 'object.__setattr__':
            self.raw_setattr = True
            try:
                return [(s, x if isinstance(x, Raise) else Con(None))
                        for s, x in self.setattr_(st, v, args[0].o, args[1])]
            finally:
                self.raw_setattr = False
        if self.kind(v) == 'str' and (isinstance(v, (Con, Sym))):
            return self.strmethod(st, name, v, args, kw)
        if isinstance(v, Con) and isinstance(v.o, types.MappingProxyType):
            return self.dictmethod(st, name, v, args, kw)
        if isinstance(v, Con) and isinstance(v.o, dict):
            return self.dictmethod(st, name, v, args, kw)
        if self.map_of(st, v) is not None:
            return self.dictmethod(st, name, v, args, kw)
        cls, exact = self.cls_of(st, v)
        if name in ('__str__', '__repr__'):
            return [(st, self.fresh_typed(st, 'repr', STR))]
        if name == '__new__':
            raise Unsupported('__new__')
        if name == '__hash__':
            return self.m_hash(st, [v], {})
        if name in ('__eq__', '__ne__') and cls is not None:
            r = [(st, self.eq_simple(st, v, args[0]))]
            return r if name == '__eq__' else self.negate(r)
        if name == '__getattribute__' and isinstance(args[0], Con):
            return self.getattr_(st, v, args[0].o)
        if name in ('__setstate__', '__getstate__', '__reduce__',
                    '__reduce_ex__', '__format__', '__init_subclass__'):
            raise Unsupported(name)
        q = self.content(st, v)
        if q is not None:
            if cls is not None and issubclass(cls, (set, frozenset)):
                return self.setmethod(st, name, v, q, args, kw)
            return self.listmethod(st, name, v, q, args, kw)
        if cls is not None and cls.__module__ == 're':
            return self.remethod(st, name, v, args)
        raise Unsupported('method %s of %r' % (name, v))

    def logcall(self, st, name, args, kw):
        if name == 'getEffectiveLevel':
            return [(st, self.fresh_typed(st, 'level', INT))]
        if name in ('isEnabledFor',):
            return [(st, self.fresh_typed(st, 'enabled', BOOL))]
        if name in ('debug', 'info', 'warning', 'warn', 'error', 'critical',
                    'exception', 'log'):
            return [(st, Con(None))]
        raise Unsupported('logger.%s' % name)

    def listmethod(self, st, name, v, q, args, kw):
        if kw:
            raise Unsupported('list.%s with keywords' % name)
        mutable = not isinstance(v, (Tup, SeqV, Con, Rec))
        N = Con(None)
        if name in ('append', 'extend', '__iadd__', 'insert', 'pop', 'clear',
                    'remove', 'reverse', 'sort', '__setitem__', '__init__',
                    '__delitem__', '%setall') and not mutable:
            if isinstance(v, (Tup, SeqV)) or isinstance(v, Con) and \
                    isinstance(v.o, tuple):
                return self.rz(st, AttributeError)
            raise Unsupported('modification of %r' % (v,))
        if name == 'append':
            if len(args) != 1:
                return self.rz(st, TypeError)
            self.set_seq(st, v, self.cat(q, SList([args[0]])))
            return [(st, N)]
        if name in ('extend', '__iadd__', '__init__', '%setall'):
            if name == '__init__' and not args:
                self.set_seq(st, v, SList([]))
                return [(st, N)]
            if len(args) != 1:
                return self.rz(st, TypeError)

            def fin(s, r):
                new = s.heap[r.id].seq
                if name in ('__init__', '%setall'):
                    self.set_seq(s, v, new)
                elif not (isinstance(new, SList) and not new.items):
                    self.set_seq(s, v, self.cat(self.content(s, v), new))
                return [(s, v if name == '__iadd__' else N)]
            return self.bind(self.collect(st, args[0]), fin)
        if name == 'insert':
            i = args[0]
            if isinstance(i, Con) and i.o == 0:
                self.set_seq(st, v, self.cat(SList([args[1]]), q))
                return [(st, N)]
            l = self.aslist(q)
            if l is not None and isinstance(i, Con):
                l = list(l)
                l.insert(i.o, args[1])
                self.set_seq(st, v, SList(l))
                return [(st, N)]
            raise Unsupported('insert')
        if name == 'pop':
            l = self.aslist(q)
            i = args[0].o if args and isinstance(args[0], Con) else -1
            if l is None or (args and not isinstance(args[0], Con)):
                raise Unsupported('pop')
            if not -len(l) <= i < len(l):
                return self.rz(st, IndexError)
            l = list(l)
            x = l.pop(i)
            self.set_seq(st, v, SList(l))
            return [(st, x)]
        if name == 'clear':
            self.set_seq(st, v, SList([]))
            return [(st, N)]
        if name in ('copy', '__copy__'):
            return [(st, self.newlist(st, q))]
        if name == '__len__':
            return [(st, self.mkint(z3.simplify(self.seqlen(st, q))))]
        if name == '__iter__':
            return [(st, self.alloc(st, types.GeneratorType, src=v, pos=0))]
        if name == '__getitem__':
            return self.raw_getitem(st, v, args[0])
        if name == '__setitem__':
            return self.raw_setitem(st, v, args[0], args[1])
        if name == '__contains__':
            return self.contains(st, SeqV(q), args[0])
        if name == '__add__':
            return self.binop(st, '+', v, args[0])
        if name == '__reversed__':
            return self.m_reversed(st, [v], {})
        if name in ('index', 'count'):
            l = self.aslist(q)
            if l is not None and name == 'index' and len(args) == 1:
                cur, res = [st], []
                for j, y in enumerate(l):
                    nxt = []
                    for s in cur:
                        for s2, b in self.branch(s, self.eqf(s, y, args[0])):
                            if b:
                                res.append((s2, Con(j)))
                            else:
                                nxt.append(s2)
                    cur = nxt
                for s in cur:
                    res.extend(self.rz(s, ValueError))
                return res
            if len(args) == 1:
                return self.call(st, Con(self.LISTS[name]), [v] + args, {})
            raise Unsupported(name)
        if name == 'reverse':
            l = self.aslist(q)
            if l is not None:
                self.set_seq(st, v, SList(l[::-1]))
                return [(st, N)]
        raise Unsupported('list method %s' % name)

    def setmethod(self, st, name, v, q, args, kw):
        if name in ('intersection', 'union', 'difference',
                    'symmetric_difference', 'isdisjoint', 'issubset',
                    'issuperset', '__and__', '__or__', '__sub__'):
            if len(args) != 1:
                raise Unsupported('set method arity')
            op = {'intersection': '&', '__and__': '&', 'union': '|',
                  '__or__': '|', 'difference': '-', '__sub__': '-',
                  'symmetric_difference': '^'}.get(name)

            def fin(s, r):
                b = s.heap[r.id].seq
                if not self.hashable(s, b):
                    return self.rz(s, TypeError)
                if op:
                    return self.setop(s, op, q, b, frozenset if issubclass(
                        self.cls_of(s, v)[0], frozenset) else set)
                if name == 'isdisjoint':
                    f = self.seq_exists(s, q, lambda s2, x: self.seq_exists(
                        s2, b, lambda s3, y: self.eqf(s3, x, y)))
                    return [(s, self.mkbool(z3.simplify(z3.Not(f))))]
                a2, b2 = (q, b) if name == 'issubset' else (b, q)
                f = self.seq_exists(s, a2, lambda s2, x: z3.Not(
                    self.seq_exists(s2, b2,
                                    lambda s3, y: self.eqf(s3, x, y))))
                return [(s, self.mkbool(z3.simplify(z3.Not(f))))]
            return self.bind(self.collect(st, args[0], unordered=True), fin)
        if name == '__contains__':
            return self.contains(st, v, args[0])
        if name == 'copy':
            return [(st, self.alloc(st, set, seq=q)
                     if isinstance(v, Ref) else v)]
        if isinstance(v, Ref) and not kw:
            N = Con(None)
            if name == 'add' and len(args) == 1:
                x = SList([args[0]])
                if not self.hashable(st, x):
                    return self.rz(st, TypeError)
                self.set_seq(st, v, self.cat(q, x))
                return [(st, N)]
            if name == 'update' and len(args) == 1:
                def upd(s, r):
                    new = s.heap[r.id].seq
                    if not self.hashable(s, new):
                        return self.rz(s, TypeError)
                    self.set_seq(s, v, self.cat(self.content(s, v), new))
                    return [(s, N)]
                return self.bind(self.collect(st, args[0], unordered=True),
                                 upd)
            if name == 'clear' and not args:
                self.set_seq(st, v, SList([]))
                return [(st, N)]
        raise Unsupported('set method %s' % name)

    def dictmethod(self, st, name, v, args, kw):
        N = Con(None)
        if name in ('get',):
            dflt = args[1] if len(args) > 1 else N
            if not 1 <= len(args) <= 2:
                return self.rz(st, TypeError)
            return [(s, dflt if x is None else x)
                    for s, x in self.dict_lookup(st, v, args[0])]
        if name == '__getitem__':
            return self.raw_getitem(st, v, args[0])
        if name in ('__contains__', 'has_key'):
            if isinstance(v, Con):
                return self.contains(st, v, args[0])
            return [(s, x if isinstance(x, Raise) else Con(x is not None))
                    for s, x in self.dict_lookup(st, v, args[0])]
        if name == '__setitem__':
            return self.raw_setitem(st, v, args[0], args[1])
        if name == '__delitem__':
            return self.delitem(st, v, args[0])
        if name == 'copy' and isinstance(v, Con):
            m = MapC(None)
            for k, x in v.o.items():
                m = m.put(self.con(k), self.con(x))
            return [(st, self.alloc(st, dict, mp=m))]
        if name == 'copy':
            return [(st, self.alloc(st, dict, mp=self.map_of(st, v)))]
        if name in ('__len__',):
            return self.m_len(st, [v], {})
        if name in ('keys', '__iter__', 'items', 'values'):
            its = self.dict_items(st, v)
            if its is None:
                m = self.map_of(st, v)
                if m is None:
                    raise Unsupported('iteration over a cache')
                forks = self.keys_forks(st, m) if name in (
                    'keys', '__iter__') else [
                        (st, self.map_values(st, m, name == 'items'))]
                if name == '__iter__':
                    return [(s, self.alloc(s, types.GeneratorType,
                                           src=SeqV(q), pos=0))
                            for s, q in forks]
                return [(s, self.newlist(s, q)) for s, q in forks]
            l = [Tup([k, x]) if name == 'items' else
                 (x if name == 'values' else k) for k, x in its]
            if name == '__iter__':
                return [(st, self.alloc(st, types.GeneratorType,
                                        src=SeqV(SList(l)), pos=0))]
            return [(st, SeqV(SList(l), tuple) if False else
                     self.newlist(st, SList(l)))]
        if name == 'setdefault':
            dflt = args[1] if len(args) > 1 else N
            res = []
            for s, x in self.dict_lookup(st, v, args[0]):
                if x is None:
                    res.extend(self.bind(
                        self.raw_setitem(s, v, args[0], dflt),
                        lambda s2, _: [(s2, dflt)]))
                else:
                    res.append((s, x))
            return res
        if name in ('update', '__init__'):
            if isinstance(v, Con):
                raise Unsupported('update of a global dictionary')
            outs = [(st, N)]
            pairs = []
            for a in args:
                its = self.dict_items(st, self.norm(st, a))
                if its is None:
                    a = self.norm(st, a)
                    q = self.content(st, a)
                    l = self.aslist(q) if q is not None else None
                    if l is None:
                        its = self.mapping_items(st, a)
                        if its is None:
                            return self.update_symbolic(st, v, a, kw)
                    else:
                        its = []
                        for x in l:
                            if not isinstance(x, Tup) or \
                                    len(x.items) != 2:
                                raise Unsupported('dict from items')
                            its.append(tuple(x.items))
                pairs.extend(its)
            pairs.extend((Con(k), x) for k, x in kw.items())
            m = self.map_of(st, v)
            for k, x in pairs:
                m = m.put(k, x)
            if pairs:
                self.set_map(st, v, m)
            return outs
        if name == 'pop':
            res = []
            for s, x in self.dict_lookup(st, v, args[0]):
                if x is None:
                    if len(args) > 1:
                        res.append((s, args[1]))
                    else:
                        res.extend(self.rz(s, KeyError))
                else:
                    m = self.map_of(s, v)
                    if m is None:
                        raise Unsupported('pop from a global dictionary')
                    self.set_map(s, v, m.rem(args[0]))
                    res.append((s, x))
            return res
        if name == 'clear' and not isinstance(v, Con):
            self.set_map(st, v, MapC(None))
            return [(st, N)]
        if name in ('__str__', '__repr__'):
            return [(st, self.fresh_typed(st, 'repr', STR))]
        raise Unsupported('dict method %s' % name)

    def mapping_items(self, st, v):
        return None

    def update_symbolic(self, st, v, a, kw):
        m = self.map_of(st, a)
        if m is None or isinstance(v, Con):
            raise Unsupported('dictionary update from %r' % (a,))
        r = self.map_of(st, v).upd(m)
        for k, x in kw.items():
            r = r.put(Con(k), x)
        self.set_map(st, v, r)
        return [(st, Con(None))]

    def dict_items(self, st, v):
        v = self.norm(st, v)
        if isinstance(v, Con) and isinstance(v.o, (dict,
                                                   types.MappingProxyType)):
            if id(v.o) in self.memo:
                raise Unsupported('iteration over a cache')
            return [(self.con(k), self.con(x)) for k, x in v.o.items()]
        m = self.map_of(st, v)
        if m is None or m.base is not None or any(
                l[0] == 'upd' for l in m.log):
            return None
        ks, d = [], []
        for op, k, x in m.log:
            hit = None
            for i, (k2, _) in enumerate(d):
                if self._samekey(k, k2):
                    hit = i
                elif not (isinstance(k, Con) and isinstance(k2, Con)):
                    raise Unsupported('iteration over symbolic keys')
            if op == 'set':
                if hit is None:
                    d.append((k, x))
                else:
                    d[hit] = (k, x)
            elif hit is not None:
                d.pop(hit)
        return d

    def strmethod(self, st, name, v, args, kw):
        if isinstance(v, Con) and all(
                isinstance(a, Con) and isinstance(a.o, SIMPLE + (tuple,))
                for a in args) and not kw and hasattr(v.o, name):
            try:
                r = getattr(v.o, name)(*[a.o for a in args])
            except Exception as e:
                return self.rz(st, type(e))
            if isinstance(r, list):
                return [(st, self.newlist(st, SList([Con(x) for x in r])))]
            return [(st, self.con(r))]
        if name == 'join':
            return self.strjoin(st, v, args[0])
        if name == 'format':
            return [(st, self.fstr(st, 'format', [v] + list(args) +
                                   list(kw.values())))]
        if not hasattr(str, name):
            return self.rz(st, AttributeError)
        if name in ('__str__',):
            return [(st, v)]
        if name in ('__len__',):
            return self.m_len(st, [v], {})
        if name in ('__eq__',):
            return [(st, self.eq_simple(st, v, args[0]))]
        ts = [self.lift(v)]
        for i, a in enumerate(args):
            a = self.norm(st, a)
            if isinstance(a, Tup):
                ts.extend(self.lift(x) for x in a.items)
            else:
                if i == 0 and name in ('startswith', 'endswith', 'replace', 'split',
                            'rsplit', 'removeprefix', 'removesuffix',
                            '__contains__', 'partition', 'rpartition'):
                    if self.kind(a) in ('none', 'bool', 'flt', 'int') and \
                            not (self.kind(a) == 'none' and 'split' in name):
                        return self.rz(st, TypeError)
                    if self.kind(a) in ('any', 'opt'):
                        raise Unsupported('string method argument')
                ts.append(self.lift(a))
        key = 'STR:%s%d' % (name, len(ts))
        if name in ('startswith', 'endswith', 'isdigit', 'isalpha',
                    'isspace', 'isupper', 'islower', '__contains__',
                    'isidentifier', 'isalnum', 'isnumeric'):
            return [(st, self.ap(st, key, ts, BOOL))]
        if name in ('strip', 'lstrip', 'rstrip', 'lower', 'upper', 'replace',
                    'title', 'capitalize', 'casefold', 'ljust', 'rjust',
                    'removeprefix', 'removesuffix', 'zfill', 'center',
                    'swapcase'):
            return [(st, self.ap(st, key, ts, STR))]
        if name in ('find', 'rfind', 'count', '__len__', '__hash__'):
            return [(st, self.ap(st, key, ts, INT))]
        if name in ('split', 'rsplit', 'splitlines', 'partition',
                    'rpartition'):
            o = self.ap(st, key, ts, Inst(list)).t
            n = LEN(self.oid(o))
            if name in ('partition', 'rpartition'):
                st.fact(n == 3)
            elif name != 'splitlines' and args:
                st.fact(n >= 1)
                if len(args) == 2 and isinstance(args[1], Con):
                    st.fact(n <= args[1].o + 1)
            else:
                st.fact(n >= 0)
            return [(st, SeqV(SBase(self.oid(o), STR),
                              tuple if 'partition' in name else list))]
        raise Unsupported('str.%s' % name)

    def strjoin(self, st, sep, it):
        def fin(s, r):
            q = s.heap[r.id].seq
            l = self.aslist(q)
            if l is not None:
                acc = None
                for x in l:
                    x = self.norm(s, x)
                    if self.kind(x) != 'str':
                        if self.kind(x) in ('any', 'opt'):
                            raise Unsupported('join of %r' % (x,))
                        return self.rz(s, TypeError)
                    if acc is None:
                        acc = x
                    else:
                        if not (isinstance(sep, Con) and sep.o == ''):
                            acc = self.strcat(acc, sep)
                        acc = self.strcat(acc, x)
                return [(s, acc if acc is not None else Con(''))]
            if not (isinstance(sep, Con) and sep.o == ''):
                return [(s, self.fresh_typed(s, 'join', STR))]
            return self.joinseq(s, q)
        return self.bind(self.collect(st, it), fin)

    def joinseq(self, st, q):
        """''.join over a symbolic sequence as the fold of concatenation"""
        env = self.new_env(st)
        st.envs[env]['%acc'] = Con('')
        bad = []

        def body(s, x):
            x = self.norm(s, x)
            if self.kind(x) != 'str':
                if self.kind(x) in ('any', 'opt'):
                    r = []
                    for s2, b in self.isinst_fork(s, x, Con(str)):
                        if b.o:
                            r.extend(body(s2, Sym(x.t, STR)))
                        else:
                            r.append((s2, ('raise', Raise(Exc(TypeError)))))
                    return r
                return [(s, ('raise', Raise(Exc(TypeError))))]
            acc = s.envs[env]['%acc']
            x2, y2 = self.stt(self.lift(acc)), self.stt(self.lift(x))
            s.envs[env]['%acc'] = Sym(Val.vstr(
                fn('STRCAT', I, I, I)(x2, y2)), STR)
            return [(s, None)]
        res = []
        for s, o in self.iterate_many(st, self._seq_sources(st, q), body,
                                      lambda nm: nm == '%acc'):
            if o is None:
                res.append((s, s.envs[env].pop('%acc')))
            else:
                res.append((s, o[1]))
        return res

    # ------------------------------------------------------------ regexps
    PATTERN = type(re.compile(''))

    def x_re_compile(self, st, args, kw):
        if kw or len(args) != 1:
            raise Unsupported('re.compile flags')
        a = self.norm(st, args[0])
        if self.kind(a) == 'opt':
            out = []
            for s, b in self.isinst_fork(st, a, Con(str)):
                out.extend(self.x_re_compile(s, [Sym(a.t, STR)], kw) if b.o
                           else self.rz(s, TypeError))
            return out
        if self.kind(a) not in ('str', 'any'):
            return self.rz(st, TypeError)
        t = self.lift(a)
        ok = fn('RE_OK', Val, B)(t)
        out = []
        for s, b in self.branch(st, ok):
            if b:
                out.append((s, self.ap(s, 'RE_COMPILE', [t],
                                       Inst(self.PATTERN, True))))
            else:
                out.append((s, Raise(Exc(re.error, False))))
        return out

    def remethod(self, st, name, v, args):
        if name not in ('match', 'search', 'fullmatch') or len(args) != 1:
            raise Unsupported('regexp method %s' % name)
        a = self.norm(st, args[0])
        if self.kind(a) != 'str':
            if self.kind(a) in ('any', 'opt'):
                out = []
                for s, b in self.isinst_fork(st, a, Con(str)):
                    if b.o:
                        out.extend(self.remethod(s, name, v,
                                                 [Sym(a.t, STR)]))
                    else:
                        out.extend(self.rz(s, TypeError))
                return out
            return self.rz(st, TypeError)
        m = self.ap(st, 'RE_' + name, [self.lift(v), self.lift(a)],
                    Opt(Inst(re.Match, True)))
        return [(st, m)]

    def x_re_func(self, name):
        def f(st, args, kw):
            if kw or len(args) != 2:
                raise Unsupported('re.%s flags' % name)
            return self.bind(self.x_re_compile(st, args[:1], {}),
                             lambda s, p: self.remethod(s, name, p, args[1:]))
        return f


class MemoRestart(Exception):
    pass
