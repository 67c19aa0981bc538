"""Symbolic executor / verification-condition generator over the real ASTs."""
import ast
import builtins
import datetime
import logging
import time
import traceback
import types

import hashlib
import z3

from .terms import *          # noqa
from .terms import _FN        # noqa
from . import source as S

SIMPLE = (type(None), bool, int, str, float)


class NeedLive(Exception):
    def __init__(self, loc):
        self.loc = loc


class HObj(object):
    __slots__ = ('cls', 'attrs', 'seq', 'mp', 'src', 'pos', 'tyname')

    def __init__(self, cls, attrs=None, seq=None, mp=None, src=None, pos=None):
        self.cls = cls
        self.attrs = attrs if attrs is not None else {}
        self.seq, self.mp, self.src, self.pos = seq, mp, src, pos

    def copy(self):
        return HObj(self.cls, dict(self.attrs), self.seq, self.mp, self.src,
                    self.pos)


class State(object):
    def __init__(self):
        self.pc = []
        self.facts = []
        self.envs = {}
        self.heap = {}
        self.over = {}       # (field) -> [(oid term, value)]
        self.oseq = {}       # contents of input lists that were modified
        self.writes = []     # (what, description)
        self.refine = {}
        self.insts = {}
        self.omap = {}
        self.keepenvs = False
        self.depth = 0
        self.calls = []      # recursion guard

    def copy(self):
        s = State()
        s.pc = list(self.pc)
        s.facts = list(self.facts)
        s.envs = {k: dict(v) for k, v in self.envs.items()}
        s.heap = {k: v.copy() for k, v in self.heap.items()}
        s.over = {k: list(v) for k, v in self.over.items()}
        s.oseq = dict(self.oseq)
        s.writes = list(self.writes)
        s.refine = dict(self.refine)
        s.insts = {k: dict(v) for k, v in self.insts.items()}
        s.omap = dict(self.omap)
        s.keepenvs = self.keepenvs
        s.depth = self.depth
        s.calls = list(self.calls)
        return s

    def add(self, c):
        self.pc.append(c)

    def fact(self, f):
        self.facts.append(f)


class Frame(object):
    __slots__ = ('glob', 'kls', 'envs', 'node', 'cells', 'func')

    def __init__(self, glob, kls, envs, node, cells, func):
        self.glob, self.kls, self.envs = glob, kls, envs
        self.node, self.cells, self.func = node, cells, func


class Star(object):
    def __init__(self, seq):
        self.seq = seq


class Engine(object):
    MAXPATHS = 4000

    def __init__(self, types_=None, contracts=None):
        self.types = types_ or {}         # cls -> {public field: Ty}
        self.contracts = contracts or []  # list of CallContract
        self.ghosts = {}
        self.n = 0
        self.ctx = []
        self.assumptions = set()
        self.no_nan = False
        self.inlined = set()
        self.used_contracts = set()
        self.memo = {}            # id(container) -> (container, MapC)
        self.volatile = {}
        self.stats = dict(feas=0, feas_time=0.0, loops=0, unrolled=0)
        self.verifying = None     # function whose contract must not be used
        self.cache = {}
        self.deadline = None
        self.axioms = []
        self.ghost_funcs = {}
        self.nomerge = False
        self.prefixes, self.prefixvals = [], []
        self.together = []
        self.force_live = frozenset()
        self.unroll = None        # bounded mode: loop unrolling limit
        self.spec_depth = 0
        self.lenient_classes = set()

    # ------------------------------------------------------------ utilities
    def uid(self):
        self.n += 1
        return self.n

    def fresh(self, name, sort):
        nm = '%s!%d' % (name, self.uid())
        if not self.ctx:
            return z3.Const(nm, sort)
        return z3.Function(nm, *([I] * len(self.ctx) + [sort]))(*self.ctx)

    def fresh_typed(self, st, name, ty):
        k = ty.kind
        if k == 'bool':
            return Sym(Val.vbool(self.fresh(name, B)), ty)
        if k == 'int':
            return Sym(Val.vint(self.fresh(name, I)), ty)
        if k == 'str':
            return self._strfacts(st, Sym(Val.vstr(self.fresh(name, I)), ty))
        if k == 'flt':
            return Sym(Val.vflt(self.fresh(name, I)), ty)
        if k == 'inst':
            return Sym(Val.vobj(self.fresh(name, I)), ty)
        if k == 'none':
            return Con(None)
        v = Sym(self.fresh(name, Val), ty)
        self._optfacts(st, v)
        return v

    def ap(self, st, name, args, ty):
        """Uninterpreted function application with a typed result.
        args: z3 terms."""
        sig = [a.sort() for a in args]
        k = ty.kind
        if k == 'bool':
            return Sym(Val.vbool(fn(name + ':b', *(sig + [B]))(*args)), ty)
        if k == 'int':
            return Sym(Val.vint(fn(name + ':i', *(sig + [I]))(*args)), ty)
        if k == 'str':
            v = Sym(Val.vstr(fn(name + ':s', *(sig + [I]))(*args)), ty)
            return self._strfacts(st, v)
        if k == 'flt':
            return Sym(Val.vflt(fn(name + ':f', *(sig + [I]))(*args)), ty)
        if k == 'inst':
            return Sym(Val.vobj(fn(name + ':o', *(sig + [I]))(*args)), ty)
        if k == 'none':
            return Con(None)
        v = Sym(fn(name + ':v', *(sig + [Val]))(*args), ty)
        self._optfacts(st, v)
        return v

    def _strfacts(self, st, v):
        if v.ty.vals:
            st.fact(z3.Or([v.t == Val.vstr(INTERN.s(x)) for x in v.ty.vals]))
        return v

    def _optfacts(self, st, v):
        if v.ty.kind == 'opt':
            st.fact(z3.Or(Val.is_vnone(v.t), self._recog(v.t, v.ty.inner)))

    def _recog(self, t, ty):
        k = ty.kind
        if k == 'str':
            r = Val.is_vstr(t)
            if ty.vals:
                r = z3.Or([t == Val.vstr(INTERN.s(x)) for x in ty.vals])
            return r
        return {'bool': Val.is_vbool, 'int': Val.is_vint, 'flt': Val.is_vflt,
                'inst': Val.is_vobj, 'none': Val.is_vnone}.get(
                    k, lambda x: TRUE)(t)

    # accessors with simplification
    @staticmethod
    def _acc(t, con, acc):
        if z3.is_app(t) and t.decl().eq(con):
            return t.arg(0)
        return acc(t)

    def bt(self, t):
        return self._acc(t, Val.vbool, Val.b)

    def it(self, t):
        return self._acc(t, Val.vint, Val.i)

    def stt(self, t):
        return self._acc(t, Val.vstr, Val.s)

    def oid(self, t):
        return self._acc(t, Val.vobj, Val.o)

    def mkbool(self, b):
        if z3.is_true(b):
            return Con(True)
        if z3.is_false(b):
            return Con(False)
        return Sym(Val.vbool(b), BOOL)

    def mkint(self, i):
        if isinstance(i, int):
            return Con(i)
        if z3.is_int_value(i):
            return Con(i.as_long())
        return Sym(Val.vint(i), INT)

    def zint(self, v):
        if isinstance(v, Con) and isinstance(v.o, int):
            return z3.IntVal(int(v.o))
        if isinstance(v, Sym) and v.ty.kind == 'int':
            return self.it(v.t)
        raise Unsupported('integer value expected, got %r' % (v,))

    def lift(self, v, st=None):
        if isinstance(v, Con):
            o = v.o
            if o is None:
                return Val.vnone
            if isinstance(o, bool):
                return Val.vbool(z3.BoolVal(o))
            if type(o) is int:
                return Val.vint(z3.IntVal(o))
            if type(o) is str:
                return Val.vstr(z3.IntVal(INTERN.s(o)))
            if type(o) is float:
                return Val.vflt(z3.IntVal(INTERN.f(o)))
            return Val.vobj(z3.IntVal(INTERN.o(o)))
        if isinstance(v, Sym):
            return v.t
        if isinstance(v, Ref):
            return Val.vobj(z3.IntVal(1000000 + v.id))
        if isinstance(v, ClsOf):
            return Val.vobj(fn('CLSOF', Val, I)(self.lift(v.v)))
        if isinstance(v, Bound):
            f = v.f.o if isinstance(v.f, Con) else v.f
            return Val.vobj(fn('BOUND', I, Val, I)(
                z3.IntVal(INTERN.o(f)), self.lift(v.self)))
        raise Unsupported('cannot lift %r' % (v,))

    # ------------------------------------------------------------ feasibility
    def feasible(self, st, extra=()):
        conds = [c for c in st.pc] + list(extra)
        for c in conds:
            if z3.is_false(c):
                return False
        key = (tuple(sorted(c.get_id() for c in conds)), len(st.facts))
        if key in self.cache:
            return self.cache[key][0]
        if self.deadline and time.time() > self.deadline:
            raise Unsupported('time budget of the symbolic execution exceeded')
        t0 = time.time()
        hyps = list(self.axioms) + list(st.facts) + conds
        qf = [h for h in hyps if not has_quant(h)]
        r = self._sat(qf, 800)
        if r != z3.unsat and len(qf) < len(hyps):
            r = self._sat(hyps, 800 if len(hyps) < 60 else
                          150 if len(hyps) < 120 else 40)
        self.stats['feas'] += 1
        self.stats['feas_time'] += time.time() - t0
        res = r != z3.unsat
        self.cache[key] = (res, conds)
        return res

    @staticmethod
    def _sat(hyps, timeout):
        s = z3.Solver()
        s.set('timeout', timeout)
        s.set('mbqi', False)
        s.set('auto_config', False)
        s.add(hyps)
        return s.check()

    def must(self, st, c):
        """Is c provably true here (quick check)?"""
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        return not self.feasible(st, [z3.Not(c)])

    def branch(self, st, c):
        """Fork on z3 Bool c: [(state, bool)]"""
        c = z3.simplify(c)
        if z3.is_true(c):
            return [(st, True)]
        if z3.is_false(c):
            return [(st, False)]
        out = []
        nc = z3.simplify(z3.Not(c))
        ids = set(p.get_id() for p in st.pc)
        if c.get_id() in ids:
            return [(st, True)]
        if nc.get_id() in ids:
            return [(st, False)]
        ft = self.feasible(st, [c])
        ff = self.feasible(st, [nc]) if ft else True
        if ft and not ff:
            # keep the fact: it is implied, but helps later syntactic checks
            return [(st, True)]
        if ff and not ft:
            return [(st, False)]
        s2 = st.copy()
        st.add(c)
        s2.add(nc)
        return [(st, True), (s2, False)]

    # ------------------------------------------------------------ types
    def norm(self, st, v):
        if isinstance(v, Sym) and v.ty.kind in ('any', 'opt'):
            r = st.refine.get(v.t.get_id())
            if r is not None:
                return Sym(v.t, r[1])
        elif isinstance(v, Sym) and v.ty.kind == 'inst' and not v.ty.exact:
            r = st.refine.get(v.t.get_id())
            if r is not None and r[1].kind == 'inst' and \
                    issubclass(r[1].cls, v.ty.cls):
                return Sym(v.t, r[1])
        return v

    def cls_of(self, st, v):
        """(class, exact) or (None, False)"""
        v = self.norm(st, v)
        if isinstance(v, Con):
            return type(v.o), True
        if isinstance(v, Ref):
            return st.heap[v.id].cls, True
        if isinstance(v, Sym):
            if v.ty.cls is not None:
                return v.ty.cls, v.ty.exact or v.ty.kind in (
                    'bool', 'str', 'flt', 'none')
            return None, False
        if isinstance(v, Tup):
            return tuple, True
        if isinstance(v, SeqV):
            return v.cls, True
        if isinstance(v, Rec):
            return v.cls, True
        if isinstance(v, Exc):
            return v.cls, v.exact
        if isinstance(v, (Closure,)):
            return types.FunctionType, True
        if isinstance(v, Bound):
            return types.MethodType, True
        if isinstance(v, ClsOf):
            return type, False
        if isinstance(v, GenV):
            return types.GeneratorType, True
        return None, False

    def tyof(self, v):
        if isinstance(v, Sym):
            return v.ty
        if isinstance(v, Con):
            o = v.o
            if o is None:
                return NONE
            if isinstance(o, bool):
                return BOOL
            if type(o) is int:
                return INT
            if type(o) is str:
                return STR
            if type(o) is float:
                return FLT
            return Inst(type(o), True)
        return ANY

    def join(self, a, b):
        if a is None:
            return b
        if a.kind == b.kind:
            if a.kind == 'inst':
                if a.cls is b.cls:
                    return a if a.elem is b.elem else Ty(
                        'inst', a.cls, a.exact and b.exact,
                        a.elem if a.elem is b.elem else None)
                for k in a.cls.__mro__:
                    if issubclass(b.cls, k):
                        return Inst(k) if k is not object else ANY
            if a.kind == 'opt':
                i = self.join(a.inner, b.inner)
                return ANY if i.kind == 'any' else Opt(i)
            if a.kind == 'str':
                return STR
            return a
        if a.kind == 'none' or b.kind == 'none':
            o = b if a.kind == 'none' else a
            return o if o.kind in ('opt', 'any') else Opt(o)
        if 'opt' in (a.kind, b.kind):
            o, x = (a, b) if a.kind == 'opt' else (b, a)
            if o.inner is not None and o.inner.kind == x.kind:
                i = self.join(o.inner, x)
                return ANY if i.kind == 'any' else Opt(i)
        return ANY

    def isinst(self, st, v, C):
        """True/False or z3 Bool."""
        v = self.norm(st, v)
        if isinstance(C, Con):
            C = C.o
        elif isinstance(C, Tup):
            C = tuple(C.items)
        if isinstance(C, tuple):
            rs = [self.isinst(st, v, c) for c in C]
            if any(r is True for r in rs):
                return True
            rs = [r for r in rs if r is not False]
            return z3.Or(rs) if rs else False
        if not isinstance(C, (type, types.UnionType)):
            if isinstance(C, Sym) or isinstance(C, ClsOf) or isinstance(C, Ref):
                return fn('ISINST', Val, Val, B)(self.lift(v), self.lift(C))
            return 'TypeError'
        if C is object:
            return True
        cls, exact = self.cls_of(st, v)
        if isinstance(v, Con):
            return isinstance(v.o, C)
        if cls is not None:
            if issubclass(cls, C):
                return True
            if exact or isinstance(v, (Tup, SeqV, Rec, Ref)):
                return False
            if cls in SIMPLE and C in SIMPLE:
                if cls is int and C is bool:
                    return False   # typed 'int' in specifications means no bool
                return False
            if C in SIMPLE and cls not in SIMPLE:
                if not any(issubclass(s, C) for s in S.live_subclasses(cls)):
                    return False
            if isinstance(v, Sym) and v.ty.kind == 'inst' and not issubclass(
                    C, cls) and not any(issubclass(s, C) for s in
                                        S.live_subclasses(cls)):
                # an unrelated class: instances could only be of a class that
                # inherits from both, which does not exist in the program
                self.assumptions.add('closed world: no class outside the '
                                     'loaded program inherits from two '
                                     'unrelated program classes')
                return False
        if isinstance(v, Sym) and v.ty.kind == 'opt':
            if C is type(None):
                return Val.is_vnone(v.t)
            r = self.isinst(st, Sym(v.t, v.ty.inner), C)
            if r is False:
                return False
            nn = z3.Not(Val.is_vnone(v.t))
            return nn if r is True else z3.And(nn, r)
        if isinstance(v, Sym):
            return self._instterm(st, v.t, C)
        raise Unsupported('isinstance(%r, %r)' % (v, C))

    def _instterm(self, st, t, C):
        if C is str:
            return Val.is_vstr(t)
        if C is bool:
            return Val.is_vbool(t)
        if C is int:
            return z3.Or(Val.is_vint(t), Val.is_vbool(t))
        if C is float:
            return Val.is_vflt(t)
        if C is type(None):
            return Val.is_vnone(t)
        b = fn('INST', Val, I, B)(t, z3.IntVal(INTERN.o(C)))
        d = st.insts.setdefault(t.get_id(), {})
        if C not in d:
            st.fact(z3.Implies(b, Val.is_vobj(t)))
            for D, bd in d.items():
                if issubclass(C, D):
                    st.fact(z3.Implies(b, bd))
                elif issubclass(D, C):
                    st.fact(z3.Implies(bd, b))
                else:
                    common = any(issubclass(x, D)
                                 for x in S.live_subclasses(C))
                    if not common:
                        st.fact(z3.Not(z3.And(b, bd)))
            d[C] = b
        return b

    def isinst_fork(self, st, v, C):
        """[(state, bool)] with type refinement; Raise for a bad class."""
        r = self.isinst(st, v, C)
        if isinstance(r, str):
            return [(st, Raise(Exc(TypeError)))]
        if isinstance(r, bool):
            return [(st, Con(r))]
        out = []
        for s, b in self.branch(st, r):
            if b and isinstance(v, Sym):
                self._refine(s, v, C)
            elif (not b and isinstance(v, Sym) and v.ty.kind == 'opt'
                  and isinstance(C, Con) and C.o is type(None)):
                s.refine[v.t.get_id()] = (v.t, v.ty.inner)
            out.append((s, Con(b)))
        return out

    def ty_for(self, C):
        if C is str:
            return STR
        if C is bool:
            return BOOL
        if C is float:
            return FLT
        if C is type(None):
            return NONE
        if C is int:
            return None
        return Inst(C)

    def _refine(self, st, v, C):
        if isinstance(C, Con):
            C = C.o
        if isinstance(C, type):
            ty = self.ty_for(C)
            if ty is None:
                return
            if v.ty.kind == 'opt' and v.ty.inner.cls is not None and \
                    issubclass(v.ty.inner.cls, C):
                ty = v.ty.inner
            cur = st.refine.get(v.t.get_id())
            if cur is not None and cur[1].cls is not None and \
                    issubclass(cur[1].cls, C):
                return
            st.refine[v.t.get_id()] = (v.t, ty)

    # ------------------------------------------------------------ truth / eq
    def truth(self, st, v):
        """[(state, True|False|Raise)]"""
        v = self.norm(st, v)
        if isinstance(v, Con):
            if isinstance(v.o, SIMPLE) or isinstance(
                    v.o, (type, tuple, types.FunctionType)):
                return [(st, bool(v.o))]
            m = self.volatile.get(id(v.o))
            if m is not None:
                return [(st, b) for st, b in self.branch(
                    st, self.fresh('nonempty', B))]
            cls = type(v.o)
            f, _ = S.lookup(cls, '__bool__')
            if f is None:
                f, _ = S.lookup(cls, '__len__')
            if f is None:
                return [(st, True)]
            return [(st, bool(v.o))]
        if isinstance(v, Sym):
            k = v.ty.kind
            if k == 'bool':
                return self.branch(st, self.bt(v.t))
            if k == 'int':
                return self.branch(st, self.it(v.t) != 0)
            if k == 'str':
                if v.ty.vals:
                    c = z3.Or([v.t == Val.vstr(INTERN.s(x))
                               for x in v.ty.vals if x] or [FALSE])
                    return self.branch(st, c)
                return self.branch(
                    st, self.stt(v.t) != z3.IntVal(INTERN.s('')))
            if k == 'none':
                return [(st, False)]
            if k == 'opt':
                out = []
                for s, b in self.branch(st, Val.is_vnone(v.t)):
                    if b:
                        out.append((s, False))
                    else:
                        s.refine[v.t.get_id()] = (v.t, v.ty.inner)
                        out.extend(self.truth(s, Sym(v.t, v.ty.inner)))
                return out
            if k == 'inst':
                if v.ty.elem is not None or issubclass(v.ty.cls, (list, tuple)):
                    n = self.seqlen(st, self.content(st, v))
                    return self.branch(st, n != 0)
                for nm in ('__bool__', '__len__'):
                    f, _ = S.lookup(v.ty.cls, nm)
                    if f is not None:
                        if isinstance(f, types.FunctionType):
                            out = []
                            for s, r in self.call(st, Con(f), [v], {}):
                                if isinstance(r, Raise):
                                    out.append((s, r))
                                else:
                                    out.extend(self.truth(s, r))
                            return out
                        return self.branch(st, TRUTHY(v.t))
                if v.ty.exact or not any(
                        S.lookup(s, '__bool__')[0] or S.lookup(s, '__len__')[0]
                        for s in S.live_subclasses(v.ty.cls)):
                    return [(st, True)]
                return self.branch(st, TRUTHY(v.t))
            # any
            st.fact(z3.And(
                z3.Implies(Val.is_vnone(v.t), z3.Not(TRUTHY(v.t))),
                z3.Implies(Val.is_vbool(v.t), TRUTHY(v.t) == Val.b(v.t)),
                z3.Implies(Val.is_vint(v.t), TRUTHY(v.t) == (Val.i(v.t) != 0)),
                z3.Implies(Val.is_vstr(v.t), TRUTHY(v.t) == (
                    Val.s(v.t) != z3.IntVal(INTERN.s(''))))))
            return self.branch(st, TRUTHY(v.t))
        if isinstance(v, Tup):
            return [(st, bool(v.items))]
        if isinstance(v, SeqV):
            return self._seqtruth(st, v.seq)
        if isinstance(v, Ref):
            h = st.heap[v.id]
            if h.seq is not None:
                return self._seqtruth(st, h.seq)
            if h.mp is not None:
                if all(l[0] == 'set' for l in h.mp.log) and (
                        h.mp.base is None or h.mp.log):
                    return [(st, bool(h.mp.log))]
                if h.mp.base is None:
                    raise Unsupported('truth of a changed dictionary')
                return self.branch(st, self.fresh('nonempty', B))
            for nm in ('__bool__', '__len__'):
                f, _ = S.lookup(h.cls, nm)
                if isinstance(f, types.FunctionType):
                    out = []
                    for s, r in self.call(st, Con(f), [v], {}):
                        if isinstance(r, Raise):
                            out.append((s, r))
                        else:
                            out.extend(self.truth(s, r))
                    return out
            return [(st, True)]
        if isinstance(v, (Closure, Bound, ClsOf, Rec, GenV, Exc)):
            return [(st, True)]
        raise Unsupported('truth of %r' % (v,))

    def _seqtruth(self, st, seq):
        ne = self.seq_exists(st, seq, lambda s, x: TRUE)
        return self.branch(st, ne)

    def custom_eq(self, cls):
        f, _ = S.lookup(cls, '__eq__')
        return f if isinstance(f, types.FunctionType) else None

    def eq(self, st, a, b):
        """[(state, value|Raise)] of a == b"""
        a, b = self.norm(st, a), self.norm(st, b)
        ca, ea = self.cls_of(st, a)
        cb, eb = self.cls_of(st, b)
        fa = self.custom_eq(ca) if ca else None
        fb = self.custom_eq(cb) if cb else None
        sa, sb = self._scalar(a), self._scalar(b)
        if sa and sb and (sa == sb or 'none' in (sa, sb)) and (
                isinstance(a, Sym) or isinstance(b, Sym)):
            return [(st, self.mkbool(z3.simplify(
                self.lift(a) == self.lift(b))))]
        if isinstance(a, Sym) and a.ty.kind == 'opt':
            out = []
            for s, isn in self.branch(st, Val.is_vnone(a.t)):
                if isn:
                    out.extend(self.eq(s, Con(None), b))
                else:
                    s.refine[a.t.get_id()] = (a.t, a.ty.inner)
                    out.extend(self.eq(s, Sym(a.t, a.ty.inner), b))
            return out
        if isinstance(b, Sym) and b.ty.kind == 'opt' and fa is None:
            out = []
            for s, isn in self.branch(st, Val.is_vnone(b.t)):
                if isn:
                    out.extend(self.eq(s, a, Con(None)))
                else:
                    s.refine[b.t.get_id()] = (b.t, b.ty.inner)
                    out.extend(self.eq(s, a, Sym(b.t, b.ty.inner)))
            return out
        if fa is not None:
            return self.call(st, Con(fa), [a, b], {})
        if fb is not None and (ca is not None):
            return self.call(st, Con(fb), [b, a], {})
        return [(st, self.eq_simple(st, a, b))]

    def _scalar(self, v):
        """kind of an (optional) scalar whose == is identity of the value
        term, or None"""
        t = self.tyof(v)
        if t.kind == 'opt':
            t = t.inner
        return t.kind if t.kind in ('str', 'bool', 'int', 'none') else None

    SIMPLEKINDS = ('none', 'bool', 'int', 'str', 'flt')

    def kind(self, v):
        t = self.tyof(v)
        return t.kind

    def eq_simple(self, st, a, b):
        """Value (bool) of a == b without user-defined __eq__."""
        if isinstance(a, Con) and isinstance(b, Con):
            try:
                return Con(bool(a.o == b.o))
            except Exception:
                raise Unsupported('== raised on constants')
        if isinstance(a, Tup) and isinstance(b, (Tup, Con)) or \
                isinstance(b, Tup) and isinstance(a, (Tup, Con)):
            xa = a.items if isinstance(a, Tup) else (
                [Con(i) for i in a.o] if isinstance(a.o, tuple) else None)
            xb = b.items if isinstance(b, Tup) else (
                [Con(i) for i in b.o] if isinstance(b.o, tuple) else None)
            if xa is None or xb is None or len(xa) != len(xb):
                return Con(False)
            fs = []
            for x, y in zip(xa, xb):
                r = self.eq_simple(st, x, y)
                fs.append(z3.BoolVal(r.o) if isinstance(r, Con)
                          else self.bt(r.t))
            return self.mkbool(z3.simplify(z3.And(fs)) if fs else TRUE)
        sa, sb = [not isinstance(x, Con) and self.isset(st, x)
                  for x in (a, b)]
        if (sa or sb) and all(self.content(st, x) is not None and
                              self.isset(st, x) for x in (a, b)):
            qa, qb = self.content(st, a), self.content(st, b)
            only = [self.seq_exists(st, p, lambda s, x: z3.Not(
                self.seq_exists(s, q, lambda s2, y: self.eqf(s2, x, y))))
                for p, q in ((qa, qb), (qb, qa))]
            return self.mkbool(z3.simplify(z3.Not(z3.Or(only))))
        if sa or sb:
            raise Unsupported('== on a set')
        if isinstance(a, Ref) or isinstance(b, Ref):
            if isinstance(a, Ref) and isinstance(b, Ref):
                if a.id == b.id:
                    return Con(True)
                ha, hb = st.heap[a.id], st.heap[b.id]
                if ha.seq is not None and hb.seq is not None:
                    la, lb = self.aslist(ha.seq), self.aslist(hb.seq)
                    if la is not None and lb is not None:
                        if len(la) != len(lb):
                            return Con(False)
                        return self.eq_simple(st, Tup(la), Tup(lb))
                    raise Unsupported('== on symbolic lists')
                return Con(False)
            o = b if isinstance(a, Ref) else a
            r = a if isinstance(a, Ref) else b
            h = st.heap[r.id]
            if h.seq is not None:
                if isinstance(o, Con) and isinstance(o.o, list) and not o.o:
                    ne = self.seq_exists(st, h.seq, lambda s, x: TRUE)
                    return self.mkbool(z3.simplify(z3.Not(ne)))
                if isinstance(o, Con) and isinstance(o.o, SIMPLE):
                    return Con(False)
                raise Unsupported('== on lists')
            return Con(False)
        if isinstance(a, (ClsOf,)) or isinstance(b, ClsOf):
            return self.same_class(st, a, b)
        ka, kb = self.kind(a), self.kind(b)
        ta, tb = self.lift(a), self.lift(b)
        if ta.eq(tb) and ka != 'flt':
            return Con(True)
        if ka in self.SIMPLEKINDS and kb in self.SIMPLEKINDS:
            if ka == kb:
                if ka == 'flt':
                    return self.mkbool(self.pyeq(ta, tb, float))
                return self.mkbool(z3.simplify(ta == tb))
            nums = {'bool', 'int'}
            if ka in nums and kb in nums:
                f = lambda k, t: (z3.If(self.bt(t), 1, 0) if k == 'bool'
                                  else self.it(t))
                return self.mkbool(z3.simplify(f(ka, ta) == f(kb, tb)))
            if 'flt' in (ka, kb) and (ka in nums or kb in nums):
                return self.mkbool(self.peq(ta, tb))
            return Con(False)
        if {ka, kb} & {'any', 'opt'} or (ka == 'inst' and kb == 'inst'):
            if ka == 'inst' and kb == 'inst':
                ca, _ = self.cls_of(st, a)
                # identity equality for program classes without __eq__
                if S.lookup(ca, '__eq__')[1] is object:
                    return self.mkbool(z3.simplify(ta == tb))
                cb, _ = self.cls_of(st, b)
                return self.mkbool(self.pyeq(ta, tb,
                                             ca if ca is cb else None))
            # linking facts for simple kinds
            st.fact(z3.Implies(ta == tb, z3.Or(self.peq(ta, tb),
                                               Val.is_vflt(ta),
                                               Val.is_vobj(ta))))
            same = []
            for rec in (Val.is_vnone, Val.is_vstr, Val.is_vbool, Val.is_vint):
                same.append(z3.And(rec(ta), rec(tb)))
            st.fact(z3.Implies(z3.Or(same), self.peq(ta, tb) == (ta == tb)))
            for r1, r2 in ((Val.is_vnone, Val.is_vstr),
                           (Val.is_vnone, Val.is_vbool),
                           (Val.is_vnone, Val.is_vint),
                           (Val.is_vstr, Val.is_vbool),
                           (Val.is_vstr, Val.is_vint)):
                st.fact(z3.Implies(z3.Or(z3.And(r1(ta), r2(tb)),
                                         z3.And(r2(ta), r1(tb))),
                                   z3.Not(self.peq(ta, tb))))
            return self.mkbool(self.peq(ta, tb))
        if ka == 'inst' or kb == 'inst':
            return self.mkbool(self.peq(ta, tb))
        return Con(False)

    def pyeq(self, ta, tb, cls):
        """== of two values of a library class; reflexive where the library
        says so (not-a-number values are excluded only if the contract says
        so)"""
        if cls in (datetime.datetime, datetime.timedelta) or (
                cls is float and self.no_nan):
            return z3.Or(ta == tb, self.peq(ta, tb))
        return self.peq(ta, tb)

    def peq(self, ta, tb):
        """== of two values whose equality the engine does not know; taken
        to be symmetric"""
        self.assumptions.add('equality of values of library classes is '
                             'symmetric')
        return z3.Or(PYEQ(ta, tb), PYEQ(tb, ta))

    def same_class(self, st, a, b):
        """equality of class values"""
        if isinstance(a, Con) and isinstance(b, Con):
            return Con(a.o is b.o)
        if isinstance(b, ClsOf) and not isinstance(a, ClsOf):
            a, b = b, a
        if isinstance(a, ClsOf) and isinstance(b, Con):
            v = self.norm(st, a.v)
            if not isinstance(b.o, type):
                return Con(False)
            ty = v.ty if isinstance(v, Sym) else None
            if ty is not None and ty.kind == 'any':
                t = v.t
                if b.o is bool:
                    return self.mkbool(Val.is_vbool(t))
                if b.o is type(None):
                    return self.mkbool(Val.is_vnone(t))
                c = z3.And(TYP(t) == z3.IntVal(INTERN.o(b.o)))
                inst = self._instterm(st, t, b.o)
                st.fact(z3.Implies(c, inst))
                if b.o in (str, int, float):
                    # exact builtin class
                    rec = {str: Val.is_vstr, int: Val.is_vint,
                           float: Val.is_vflt}[b.o]
                    return self.mkbool(rec(t))
                return self.mkbool(c)
            cls, exact = self.cls_of(st, v)
            if exact and cls is not None:
                return Con(cls is b.o)
            if cls is not None and not issubclass(b.o, cls):
                return Con(False)
            return self.mkbool(TYP(self.lift(v)) == z3.IntVal(INTERN.o(b.o)))
        if isinstance(a, ClsOf) and isinstance(b, ClsOf):
            return self.mkbool(TYP(self.lift(a.v)) == TYP(self.lift(b.v)))
        return self.mkbool(z3.simplify(self.lift(a) == self.lift(b)))

    def identical(self, st, a, b):
        a, b = self.norm(st, a), self.norm(st, b)
        if isinstance(a, Con) and isinstance(b, Con):
            if isinstance(a.o, (str, int, float)) and isinstance(
                    b.o, (str, int, float)) and not isinstance(a.o, bool) \
                    and not isinstance(b.o, bool):
                return Con(type(a.o) is type(b.o) and a.o == b.o)
            return Con(a.o is b.o)
        if isinstance(a, Ref) and isinstance(b, Ref):
            return Con(a.id == b.id)
        if isinstance(a, (ClsOf,)) or isinstance(b, ClsOf):
            return self.same_class(st, a, b)
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Con) and (x.o is None or x.o is True or
                                       x.o is False or x.o is NotImplemented):
                if isinstance(y, Sym):
                    k = y.ty.kind
                    if k in ('any', 'opt'):
                        if x.o is None:
                            return self.mkbool(Val.is_vnone(y.t))
                        if k == 'any' or y.ty.inner.kind in ('bool', 'any',
                                                             'inst'):
                            return self.mkbool(y.t == self.lift(x))
                        return Con(False)
                    if k == 'bool' and isinstance(x.o, bool):
                        return self.mkbool(z3.simplify(y.t == self.lift(x)))
                    return Con(False)
                return Con(False)
        if isinstance(a, Ref) or isinstance(b, Ref):
            return Con(False)
        if isinstance(a, Sym) or isinstance(b, Sym):
            if isinstance(a, (Tup, SeqV, Closure)) or isinstance(
                    b, (Tup, SeqV, Closure)):
                return Con(False)
            return self.mkbool(z3.simplify(self.lift(a) == self.lift(b)))
        if isinstance(a, Closure) or isinstance(b, Closure):
            return Con(a is b)
        raise Unsupported('is on %r, %r' % (a, b))

    # ------------------------------------------------------------ sequences
    def content(self, st, v):
        """SeqExpr of a list/tuple-like value, or None."""
        v = self.norm(st, v)
        if isinstance(v, Ref):
            return st.heap[v.id].seq
        if isinstance(v, Tup):
            return SList(v.items)
        if isinstance(v, SeqV):
            return v.seq
        if isinstance(v, Rec):
            return v.seq
        if isinstance(v, Con):
            if isinstance(v.o, (list, tuple)):
                if isinstance(v.o, list) and id(v.o) in self.volatile:
                    raise Unsupported('mutable global list')
                return SList([self.con(i) for i in v.o])
            if isinstance(v.o, (set, frozenset)):
                return SList([self.con(i) for i in sorted(v.o, key=repr)])
            if isinstance(v.o, (dict, types.MappingProxyType)):
                return SList([self.con(i) for i in v.o])
            if isinstance(v.o, (str, bytes)):
                return SList([self.con(i) for i in v.o])
            if isinstance(v.o, range):
                return SList([self.con(i) for i in v.o])
            if type(v.o).__name__ in ('dict_keys', 'dict_values',
                                      'dict_items'):
                return SList([self.con(i) for i in v.o])
            return None
        if isinstance(v, Sym) and v.ty.kind == 'inst':
            if v.ty.elem is not None:
                o = self.oid(v.t)
                key = o.get_id()
                if key in st.oseq:
                    return st.oseq[key][1]
                return SBase(o, v.ty.elem)
            if issubclass(v.ty.cls, (list, tuple)):
                o = self.oid(v.t)
                key = o.get_id()
                if key in st.oseq:
                    return st.oseq[key][1]
                return SBase(o, ANY)
        return None

    def con(self, o):
        if type(o) is tuple:
            return Tup([self.con(i) for i in o])
        return Con(o)

    def aslist(self, seq):
        if isinstance(seq, SList):
            return seq.items
        if isinstance(seq, SCat):
            out = []
            for p in seq.parts:
                x = self.aslist(p)
                if x is None:
                    return None
                out.extend(x)
            return out
        if isinstance(seq, SSlice):
            x = self.aslist(seq.base)
            return None if x is None else x[seq.start:]
        if isinstance(seq, STab):
            n = z3.simplify(seq.n)
            if z3.is_int_value(n) and n.as_long() <= 64:
                return [vsub(seq.val, [(seq.k, z3.IntVal(i))])
                        for i in range(n.as_long())]
        return None

    def cat(self, a, b):
        parts = []
        for x in (a, b):
            for p in (x.parts if isinstance(x, SCat) else [x]):
                if isinstance(p, SList) and not p.items:
                    continue
                if isinstance(p, SList) and parts and isinstance(
                        parts[-1], SList):
                    parts[-1] = SList(parts[-1].items + p.items)
                else:
                    parts.append(p)
        if not parts:
            return SList([])
        if len(parts) == 1:
            return parts[0]
        return SCat(parts)

    def seqlen(self, st, seq):
        """z3 Int length."""
        if isinstance(seq, SList):
            return z3.IntVal(len(seq.items))
        if isinstance(seq, SBase):
            n = LEN(seq.oid)
            st.fact(n >= 0)
            return n
        if isinstance(seq, STab):
            return seq.n
        if isinstance(seq, SCat):
            return z3.simplify(z3.Sum([self.seqlen(st, p)
                                       for p in seq.parts]))
        if isinstance(seq, SSlice):
            n = self.seqlen(st, seq.base)
            return z3.If(n >= seq.start, n - seq.start, z3.IntVal(0))
        if isinstance(seq, SStore):
            return self.seqlen(st, seq.base)
        if isinstance(seq, SFlat):
            return self._flatlen(st, seq)
        raise Unsupported('len of %r' % (seq,))

    def _flatkey(self, seq):
        j = z3.Int('j!key')
        k2 = [(seq.k, j)]

        def key(s):
            if isinstance(s, SList):
                return ('l',) + tuple(vkey(i) for i in s.items)
            if isinstance(s, SBase):
                return ('b', ssub(s.oid, k2).sexpr())
            if isinstance(s, SCat):
                return ('c',) + tuple(key(p) for p in s.parts)
            if isinstance(s, SFlat):
                return ('f', self._flatkey(SFlat(
                    s.n, s.k, [(ssub(c, k2), qsub(p, k2))
                               for c, p in s.cases], s.head)))
            return ('o', repr(s))

        def vkey(v):
            if isinstance(v, Sym):
                return ssub(v.t, k2).sexpr()
            return repr(v)
        return (seq.n.sexpr(), tuple(
            (ssub(c, k2).sexpr(), key(p)) for c, p in seq.cases))

    def count_key(self, cases, k):
        """what is added per iteration k, [(number, condition)], as a key"""
        d = {}
        for n, c in cases:
            if n:
                d.setdefault(n, []).append(c)
        ren = [(v, z3.Int('ctx#%d' % i)) for i, v in enumerate(self.ctx)] + \
            [(k, z3.Int('it#'))]
        return tuple((n, ssub(z3.simplify(z3.Or(d[n])), ren).sexpr())
                     for n in sorted(d))

    def count_term(self, key, n, st, cases, k):
        """the sum of what the first n iterations add"""
        name = 'CNT:' + hashlib.sha1(repr(key).encode()).hexdigest()[:16]
        f = z3.Function(name, *([I] * (len(self.ctx) + 2)))(
            *(list(self.ctx) + [n]))
        # more than one: some iteration adds more, or two of them add
        i, j = z3.Int('i!%d' % self.uid()), z3.Int('j!%d' % self.uid())
        add = [c for d, c in cases if d]
        more = [c for d, c in cases if d > 1]

        def at(cs, x):
            return ssub(z3.Or(cs), [(k, x)]) if cs else FALSE
        two = z3.Exists([i, j], z3.And(0 <= i, i < j, j < n, at(add, i),
                                       at(add, j)))
        if more:
            two = z3.Or(two, z3.Exists([i], z3.And(0 <= i, i < n,
                                                   at(more, i))))
        st.fact((f > 1) == two)
        return f

    def _flatlen(self, st, seq):
        # purely unconditional single-element pieces: length n
        if len(seq.cases) == 1 and isinstance(seq.cases[0][1], SList) and \
                z3.is_true(z3.simplify(seq.cases[0][0])):
            n = z3.If(seq.n > 0, seq.n, z3.IntVal(0))
            r = n * len(seq.cases[0][1].items)
            return z3.simplify(r + (0 if seq.init is None else
                                    self.seqlen(st, seq.init)))
        f = None
        if seq.head is None and all(isinstance(p, SList)
                                    for _, p in seq.cases):
            f = self.count_term(self.count_key(
                [(len(p.items), c) for c, p in seq.cases], seq.k), seq.n,
                st, [(len(p.items), c) for c, p in seq.cases], seq.k)
            st.fact(f <= max(len(p.items) for _, p in seq.cases) *
                    z3.If(seq.n > 0, seq.n, z3.IntVal(0)))
        else:
            key = ('flatlen', self._flatkey(seq))
            f = self.cache.get(key)
            if f is None:
                f = self.cache[key] = self.fresh('flen', I)
        ne = self.seq_exists(st, SFlat(seq.n, seq.k, seq.cases, seq.head),
                             lambda s, x: TRUE)
        st.fact(f >= 0)
        st.fact((f > 0) == ne)
        # f <= 1 is not characterised: conservative
        return z3.simplify(f + (0 if seq.init is None else
                                self.seqlen(st, seq.init)))

    def elem(self, st, seq, j):
        """j-th element (z3 Int j), assuming 0 <= j < len."""
        if isinstance(seq, SBase):
            return self.ap(st, 'ELEM', [seq.oid, j], seq.ety)
        if isinstance(seq, STab):
            return vsub(seq.val, [(seq.k, j)])
        if isinstance(seq, SSlice):
            return self.elem(st, seq.base, z3.simplify(j + seq.start))
        if isinstance(seq, SList):
            jj = z3.simplify(j)
            if z3.is_int_value(jj):
                return seq.items[jj.as_long()]
            if len(seq.items) == 1:
                return seq.items[0]
            raise Unsupported('symbolic index into concrete list')
        if isinstance(seq, SStore):
            if seq.idx.eq(j) or self.must(st, seq.idx == j):
                return seq.val
            if self.must(st, seq.idx != j):
                return self.elem(st, seq.base, j)
            raise Unsupported('list store aliasing')
        if isinstance(seq, SFlat) and seq.head is None and \
                seq.init is None and all(isinstance(p, SList) and
                                         len(p.items) < 2
                                         for _, p in seq.cases):
            full = [(c, p.items[0]) for c, p in seq.cases if p.items]
            if len(full) == 1:
                # the element of step i, before which j were added
                i = self.fresh('src', I)
                c, v = full[0]
                st.fact(z3.And(i >= 0, i < seq.n, ssub(c, [(seq.k, i)])))
                st.fact(self.seqlen(st, SFlat(i, seq.k, seq.cases)) == j)
                return vsub(v, [(seq.k, i)])
        if isinstance(seq, SCat):
            jj = z3.simplify(j)
            off = z3.IntVal(0)
            for p in seq.parts:
                n = self.seqlen(st, p)
                if self.must(st, z3.And(jj >= off, jj < off + n)):
                    return self.elem(st, p, z3.simplify(jj - off))
                if not self.must(st, z3.Not(z3.And(jj >= off, jj < off + n))):
                    break
                off = z3.simplify(off + n)
        raise Unsupported('element %s of %r' % (j, seq))

    def seq_exists(self, st, seq, phi):
        """z3 Bool: some element satisfies phi (phi(st, value) -> z3 Bool)."""
        if isinstance(seq, SList):
            return z3.simplify(z3.Or([phi(st, i) for i in seq.items])
                               if seq.items else FALSE)
        if isinstance(seq, SCat):
            return z3.simplify(z3.Or([self.seq_exists(st, p, phi)
                                      for p in seq.parts]))
        if isinstance(seq, (SBase, STab, SSlice)):
            n = self.seqlen(st, seq)
            j = z3.Int('j!%d' % self.uid())
            body = self.under(st, j, z3.And(j >= 0, j < n),
                              lambda s: phi(s, self.elem(s, seq, j)))
            if z3.is_true(z3.simplify(body)):
                return z3.simplify(n > 0)
            if z3.is_false(z3.simplify(body)):
                return FALSE
            return z3.Exists([j], z3.And(j >= 0, j < n, body))
        if isinstance(seq, SStore):
            l = self.aslist(seq)
            raise Unsupported('quantifying over a stored list')
        if isinstance(seq, SFlat):
            j = z3.Int('j!%d' % self.uid())
            fs = []
            for c, p in seq.cases:
                p2 = qsub(p, [(seq.k, j)])
                c2 = ssub(c, [(seq.k, j)])
                if isinstance(p2, SList) and not p2.items:
                    continue
                body = self.under(st, j, z3.And(j >= 0, j < seq.n, c2),
                                  lambda s: self.seq_exists(s, p2, phi))
                fs.append(z3.And(c2, body))
            if not fs:
                r = FALSE
            else:
                r = z3.Exists([j], z3.And(j >= 0, j < seq.n, z3.Or(fs)))
            if seq.init is not None:
                r = z3.Or(self.seq_exists(st, seq.init, phi), r)
            return r
        raise Unsupported('quantifying over %r' % (seq,))

    def under(self, st, j, guard, f):
        """Evaluate f in a copy of st with generic index j; facts that mention
        j are generalised and asserted in st."""
        s = st.copy()
        s.add(guard)
        n0 = len(s.facts)
        self.ctx.append(j)
        try:
            r = f(s)
        finally:
            self.ctx.pop()
        self._genfacts(st, s.facts[n0:], j)
        return r

    def _genfacts(self, st, facts, j):
        for f in facts:
            if term_has(f, [j]):
                v = z3.Int('g!%d' % self.uid())
                st.fact(z3.ForAll([v], ssub(f, [(j, v)])))
            else:
                st.fact(f)

    def formula(self, st, run):
        """run(st) -> [(st, value|Raise)] executed in formula mode; returns
        z3 Bool (no raising path may be feasible)."""
        s0 = st.copy()
        n0, f0 = len(s0.pc), len(s0.facts)
        fs = []
        facts = []
        for s, v in run(s0):
            if isinstance(v, Raise):
                raise Unsupported('specification may raise: %r' % (v,))
            for s2, b in self.truth_or_term(s, v):
                facts.extend(s2.facts[f0:])
                conds = s2.pc[n0:]
                fs.append(z3.And(conds + [b]) if conds else b)
        seen = set()
        for f in facts:
            if f.get_id() not in seen:
                seen.add(f.get_id())
                st.fact(f)
        return z3.simplify(z3.Or(fs)) if fs else FALSE

    def truth_or_term(self, st, v):
        v = self.norm(st, v)
        if isinstance(v, Sym) and v.ty.kind == 'bool':
            return [(st, self.bt(v.t))]
        return [(s, z3.BoolVal(b)) for s, b in self.truth(st, v)]

    def materialise(self, st, seq, size=None):
        """A fresh base sequence with the same set of elements as seq, and
        of the size given, or else of that of seq."""
        key = ('mat', self._flatkey(seq)) if isinstance(seq, SFlat) and \
            seq.init is None else None
        L = self.fresh('mat', I)
        base = SBase(L, ANY)
        n = LEN(L)
        st.fact(n >= 0)
        st.fact(n == (self.seqlen(st, seq) if size is None else size))
        i = z3.Int('i!%d' % self.uid())
        # every element of L is an element of seq
        body = self.under(st, i, z3.And(i >= 0, i < n), lambda s:
                          self.seq_exists(s, seq, lambda s2, x:
                                          self.elem(s2, base, i).t ==
                                          self.lift(x)))
        st.fact(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), body)))
        # every element of seq is in L
        notin = self.seq_exists(st, seq, lambda s, x: z3.Not(
            self.seq_exists(s, base, lambda s2, y: y.t == self.lift(x))))
        st.fact(z3.Not(notin))
        return base

    # ------------------------------------------------------------ iteration
    def iter_sources(self, st, v):
        """list of either a Python list of values or IterSrc."""
        v = self.norm(st, v)
        if isinstance(v, IterSrc):
            return [v]
        if isinstance(v, Ref) and st.heap[v.id].mp is not None:
            m = st.heap[v.id].mp
            if m.base is None:
                ks = []
                for op, k, x in m.log:
                    if op == 'upd':
                        raise Unsupported('iteration over merged dictionary')
                    if any(not self._samekey(k, y) and not (
                            isinstance(k, Con) and isinstance(y, Con))
                           for y in ks):
                        raise Unsupported('iteration over symbolic keys')
                    if op == 'set' and not any(self._samekey(k, y)
                                               for y in ks):
                        ks.append(k)
                    elif op == 'del':
                        ks = [y for y in ks if not self._samekey(k, y)]
                return [ks]
            return self._seq_sources(st, self.map_keys(st, m))
        if isinstance(v, Sym) and v.ty.kind == 'inst' and issubclass(
                v.ty.cls, dict):
            return self._seq_sources(st, self.map_keys(st, self.map_of(
                st, v)))
        seq = self.content(st, v)
        if seq is None:
            return None
        return self._seq_sources(st, seq)

    def map_keys(self, st, m):
        """the keys of a symbolic dictionary, in some fixed order"""
        if m.base is None or m.log:
            raise Unsupported('iteration over a changed dictionary')
        q = SBase(fn('MAPKEYS', I, I)(m.base), m.kty)
        n = self.seqlen(st, q)
        has = fn('MAPHAS', I, Val, B)
        idx = fn('MAPIDX', I, Val, I)
        j = z3.Int('j!%d' % self.uid())
        key = self.under(st, j, z3.And(j >= 0, j < n),
                         lambda s: self.lift(self.elem(s, q, j)))
        st.fact(z3.ForAll([j], z3.Implies(
            z3.And(j >= 0, j < n),
            z3.And(has(m.base, key), idx(m.base, key) == j))))
        k = z3.Const('k!%d' % self.uid(), Val)
        i = idx(m.base, k)
        st.fact(z3.ForAll([k], z3.Implies(has(m.base, k), z3.And(
            i >= 0, i < n, ssub(key, [(j, i)]) == k)),
            patterns=[has(m.base, k)]))
        return q

    def keys_forks(self, st, m):
        """(state, the keys) for each order of the keys that is possible"""
        if m.base is None or not m.log:
            return [(st, self.map_keys(st, m))]
        if any(op != 'set' for op, _, _ in m.log):
            raise Unsupported('iteration over a changed dictionary')
        base = MapC(m.base, (), m.kty, m.vty)
        outs = [(st, self.map_keys(st, base), [])]
        has = fn('MAPHAS', I, Val, B)
        for _, k, _ in m.log:
            new = []
            for s, q, more in outs:
                there = z3.Or([has(m.base, self.lift(k))] + [
                    self.lift(k) == self.lift(y) for y in more])
                for s2, b in self.branch(s, there):
                    new.append((s2, q, more if b else more + [k]))
            outs = new
        return [(s, self.cat(q, SList(more)) if more else q)
                for s, q, more in outs]

    def map_values(self, st, m, items=False):
        q = self.map_keys(st, m)
        k = z3.Int('k!%d' % self.uid())
        key = self.elem(st, q, k)
        val = self.ap(st, 'MAPGET', [m.base, self.lift(key)], m.vty)
        return STab(self.seqlen(st, q), k,
                    Tup([key, val]) if items else val)

    def _samekey(self, a, b):
        if isinstance(a, Con) and isinstance(b, Con):
            return a.o == b.o
        if isinstance(a, Sym) and isinstance(b, Sym):
            return a.t.eq(b.t)
        return False

    def _seq_sources(self, st, seq):
        l = self.aslist(seq)
        if l is not None:
            return [l]
        if isinstance(seq, SCat):
            out = []
            for p in seq.parts:
                out.extend(self._seq_sources(st, p))
            return out
        if isinstance(seq, (SBase, STab)):
            n = self.seqlen(st, seq)
            return [IterSrc(n, lambda s, j, q=seq: self.elem(s, q, j))]
        if isinstance(seq, SSlice):
            n = self.seqlen(st, seq)
            return [IterSrc(z3.simplify(n),
                            lambda s, j, q=seq: self.elem(s, q, j))]
        if isinstance(seq, SFlat):
            if seq.init is not None:
                return self._seq_sources(st, seq.init) + self._seq_sources(
                    st, SFlat(seq.n, seq.k, seq.cases, seq.head))
            # one element per step, unconditionally -> tabulation
            if len(seq.cases) == 1 and isinstance(seq.cases[0][1], SList) \
                    and len(seq.cases[0][1].items) == 1 and z3.is_true(
                        z3.simplify(seq.cases[0][0])):
                val = seq.cases[0][1].items[0]
                return [IterSrc(seq.n, lambda s, j: vsub(
                    val, [(seq.k, j)]))]
            return [FlatSrc(seq)]
        raise Unsupported('iteration over %r' % (seq,))


class FlatSrc(object):
    """iterate: for k in range(n): for x in piece(k)"""

    def __init__(self, seq):
        self.seq = seq
