"""Statement and expression semantics (symbolic execution of the real AST)."""
import ast
import builtins
import logging
import types

import z3

from .terms import *          # noqa
from . import source as S
from .engine import (Engine, State, HObj, Frame, Star, NeedLive, FlatSrc,
                     SIMPLE)
from .loops import Loops

BIN = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/',
       ast.FloorDiv: '//', ast.Mod: '%', ast.Pow: '**', ast.BitAnd: '&',
       ast.BitOr: '|', ast.BitXor: '^', ast.LShift: '<<', ast.RShift: '>>'}
IBIN = {ast.Add: '__iadd__', ast.BitOr: '__ior__', ast.BitAnd: '__iand__',
        ast.Sub: '__isub__'}
SPECDIR = '/contracts/'


class GenCall(object):
    """A suspended call of a generator function."""
    __slots__ = ('node', 'fr')

    def __init__(self, node, fr):
        self.node, self.fr = node, fr


class PushSrc(object):
    """An iterable defined by a push function run(st, body) -> outs."""
    __slots__ = ('run',)

    def __init__(self, run):
        self.run = run


def _locals(node):
    """names local to a function node"""
    cached = getattr(node, '_pyvc_locals', None)
    if cached is not None:
        return cached
    names, skip = set(), set()
    a = node.args
    for x in a.posonlyargs + a.args + a.kwonlyargs:
        names.add(x.arg)
    for x in (a.vararg, a.kwarg):
        if x:
            names.add(x.arg)
    gen = [False]

    def walk(n, top=False):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef,
                          ast.ClassDef)) and not top:
            names.add(n.name)
            return
        if isinstance(n, ast.Lambda) and not top:
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp,
                          ast.GeneratorExp)):
            # walrus targets bind in the function
            for m in ast.walk(n):
                if isinstance(m, ast.NamedExpr):
                    names.add(m.target.id)
            return
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            gen[0] = True
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store,
                                                          ast.Del)):
            names.add(n.id)
        if isinstance(n, (ast.Global, ast.Nonlocal)):
            skip.update(n.names)
        if isinstance(n, ast.ExceptHandler) and n.name:
            names.add(n.name)
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            for al in n.names:
                names.add((al.asname or al.name).split('.')[0])
        for c in ast.iter_child_nodes(n):
            walk(c)
    body = node.body if isinstance(node.body, list) else [node.body]
    for s in body:
        walk(s)
    node._pyvc_locals = (names - skip, skip, gen[0])
    return node._pyvc_locals


def _loads(node):
    c = getattr(node, '_pyvc_loads', None)
    if c is None:
        c = node._pyvc_loads = [
            n for n in ast.walk(node)
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load)]
    return c


class Exec(Loops):
    MAXDEPTH = 40

    # ------------------------------------------------------------ helpers
    def bind(self, outs, f):
        res = []
        for s, v in outs:
            if isinstance(v, Raise):
                res.append((s, v))
            else:
                res.extend(f(s, v))
        if len(res) > self.MAXPATHS:
            raise Unsupported('too many paths')
        return res

    def rz(self, st, cls, msg=''):
        return [(st, Raise(Exc(cls, True, (Con(msg),))))]

    def evals(self, st, fr, nodes):
        """[(st, [values] | Raise)]"""
        outs = [(st, [])]
        for n in nodes:
            nxt = []
            for s, vs in outs:
                if isinstance(vs, Raise):
                    nxt.append((s, vs))
                    continue
                for s2, v in self.eval(s, fr, n):
                    nxt.append((s2, v if isinstance(v, Raise) else vs + [v]))
            outs = nxt
        return outs

    def new_env(self, st):
        e = self.uid()
        st.envs[e] = {}
        return e

    def alloc(self, st, cls, **kw):
        i = self.uid()
        st.heap[i] = HObj(cls, **kw)
        return Ref(i)

    def newlist(self, st, seq, cls=list):
        return self.alloc(st, cls, seq=seq)

    # ------------------------------------------------------------ names
    def load_name(self, st, fr, name):
        for e in fr.envs:
            env = st.envs.get(e)
            if env is not None and name in env:
                v = env[name]
                if isinstance(v, Dead):
                    raise NeedLive(('env', e, name))
                return [(st, v)]
        if fr.node is not None and name in _locals(fr.node)[0]:
            return self.rz(st, UnboundLocalError, name)
        if name in fr.cells:
            return [(st, self.con(fr.cells[name]))]
        g = st.globs.get((id(fr.glob), name)) if hasattr(st, 'globs') else None
        if g is not None:
            return [(st, g)]
        if name in fr.glob:
            return [(st, self.con(fr.glob[name]))]
        if hasattr(builtins, name):
            return [(st, Con(getattr(builtins, name)))]
        return self.rz(st, NameError, name)

    def store_name(self, st, fr, name, v, walrus=False):
        if fr.node is not None and name in _locals(fr.node)[1]:
            # nonlocal / global
            for e in fr.envs[1:]:
                if name in st.envs.get(e, ()):
                    st.envs[e][name] = v
                    return
            raise Unsupported('assignment to global %s' % name)
        e = fr.envs[0]
        if walrus:
            # binds in the nearest function scope
            for e in fr.envs:
                if not getattr(self, 'compenvs', {}).get(e):
                    break
        st.envs[e][name] = v

    # ------------------------------------------------------------ expressions
    def eval(self, st, fr, node):
        m = getattr(self, 'e_' + type(node).__name__, None)
        if m is None:
            raise Unsupported('expression %s' % type(node).__name__)
        return m(st, fr, node)

    def e_Constant(self, st, fr, n):
        return [(st, self.con(n.value))]

    def e_Name(self, st, fr, n):
        return self.load_name(st, fr, n.id)

    def e_Tuple(self, st, fr, n):
        return self._display(st, fr, n.elts, lambda s, q: (
            s, Tup(q.items) if isinstance(q, SList) else SeqV(q, tuple)))

    def e_List(self, st, fr, n):
        return self._display(st, fr, n.elts,
                             lambda s, q: (s, self.newlist(s, q)))

    def e_Set(self, st, fr, n):
        return self._display(st, fr, n.elts,
                             lambda s, q: self.mkset(s, q)[0])

    def _display(self, st, fr, elts, mk):
        def fin(s, vs):
            q = SList([])
            for e, v in zip(elts, vs):
                if isinstance(e, ast.Starred):
                    self.ordered(s, v)
                    c = self.content(s, v)
                    if c is None:
                        raise Unsupported('starred display')
                    q = self.cat(q, c)
                else:
                    q = self.cat(q, SList([v]))
            return [mk(s, q)]
        return self.bind(self.evals(st, fr, [
            e.value if isinstance(e, ast.Starred) else e for e in elts]), fin)

    def e_Dict(self, st, fr, n):
        if any(k is None for k in n.keys):
            raise Unsupported('dict unpacking')
        nodes = [x for kv in zip(n.keys, n.values) for x in kv]

        def fin(s, vs):
            m = MapC(None)
            for i in range(0, len(vs), 2):
                m = m.put(vs[i], vs[i + 1])
            return [(s, self.alloc(s, dict, mp=m))]
        return self.bind(self.evals(st, fr, nodes), fin)

    def e_BoolOp(self, st, fr, n):
        isand = isinstance(n.op, ast.And)

        def go(s, i):
            outs = self.eval(s, fr, n.values[i])
            if i == len(n.values) - 1:
                return outs

            def f(s2, v):
                res = []
                for s3, b in self.truth(s2, v):
                    if isinstance(b, Raise):
                        res.append((s3, b))
                    elif b == isand:
                        res.extend(go(s3, i + 1))
                    else:
                        res.append((s3, Con(b) if isinstance(v, Sym) and
                                    v.ty.kind == 'bool' else v))
                return res
            return self.bind(outs, f)
        npc, nf = len(st.pc), len(st.facts)
        return self.joinbool(go(st, 0), npc, nf)

    def joinbool(self, outs, npc, nf):
        """Join the paths of a side-effect free boolean computation into one
        path with a boolean formula as its value."""
        if len(outs) < 2:
            return outs
        vals = [(s, self.norm(s, v)) for s, v in outs
                if not isinstance(v, Raise)]
        if len(vals) < 2:
            return outs
        strs = False
        for s, v in vals:
            if not (isinstance(v, Con) and isinstance(v.o, bool) or
                    isinstance(v, Sym) and v.ty.kind == 'bool'):
                # strings, when one of them is no constant anyway
                strs = any(isinstance(x, Sym) for _, x in vals) and all(
                    isinstance(x, Con) and type(x.o) is str or
                    isinstance(x, Sym) and x.ty.kind == 'str'
                    for _, x in vals)
                if not strs or self.nomerge:
                    return outs
                break
        base = vals[0][0]
        la = self.locs(base)
        for s, v in vals[1:]:
            if len(s.pc) < npc or any(not x.eq(y) for x, y in zip(
                    base.pc[:npc], s.pc[:npc])):
                return outs
            if len(s.writes) != len(base.writes) or s.depth != base.depth:
                return outs
            if {k: t[1] for k, t in s.refine.items()} != \
                    {k: t[1] for k, t in base.refine.items()}:
                return outs
            lb = self.locs(s)
            if set(la) != set(lb) or any(not self.samev(la[l], lb[l])
                                         for l in la):
                return outs
        conds = [z3.And(s.pc[npc:]) if s.pc[npc:] else TRUE for s, v in vals]
        if strs:
            val = self.stt(self.lift(vals[-1][1]))
            for c, (s, v) in list(zip(conds, vals))[-2::-1]:
                val = z3.If(c, self.stt(self.lift(v)), val)
            val = Sym(Val.vstr(z3.simplify(val)), STR)
        else:
            val = self.mkbool(z3.simplify(z3.Or([
                z3.And(c, self.bt(self.lift(v)))
                for c, (s, v) in zip(conds, vals)])))
        m = base.copy()
        m.pc = list(base.pc[:npc])
        res = [(s, v) for s, v in outs if isinstance(v, Raise)]
        some = z3.simplify(z3.Or(conds))
        if not z3.is_true(some):
            m.pc.append(some)
        m.facts = list(base.facts[:nf])
        n = len(vals)
        seen = {}
        for (s, v), c in zip(vals, conds):
            for f in s.facts[nf:]:
                seen.setdefault(f.get_id(), (f, []))[1].append(c)
        for f, cs in seen.values():
            m.facts.append(f if len(cs) == n
                           else z3.Implies(z3.Or(cs), f))
        m.insts = {k: {c: t for c, t in d.items()
                       if all(c in s.insts.get(k, {}) for s, v in vals)}
                   for k, d in base.insts.items()}
        self.stats['joined'] = self.stats.get('joined', 0) + 1
        return res + [(m, val)]

    def e_UnaryOp(self, st, fr, n):
        def f(s, v):
            if isinstance(n.op, ast.Not):
                vv = self.norm(s, v)
                if isinstance(vv, Sym) and vv.ty.kind == 'bool':
                    return [(s, self.mkbool(z3.simplify(
                        z3.Not(self.bt(vv.t)))))]
                return [(s2, b if isinstance(b, Raise) else Con(not b))
                        for s2, b in self.truth(s, v)]
            if isinstance(v, Con):
                try:
                    if isinstance(n.op, ast.USub):
                        return [(s, Con(-v.o))]
                    if isinstance(n.op, ast.UAdd):
                        return [(s, Con(+v.o))]
                    if isinstance(n.op, ast.Invert):
                        return [(s, Con(~v.o))]
                except TypeError:
                    return self.rz(s, TypeError)
            if isinstance(v, Sym) and v.ty.kind == 'int' and isinstance(
                    n.op, ast.USub):
                return [(s, self.mkint(z3.simplify(-self.it(v.t))))]
            raise Unsupported('unary operator')
        return self.bind(self.eval(st, fr, n.operand), f)

    def e_IfExp(self, st, fr, n):
        res = []
        for s, b in self.cond(st, fr, n.test):
            if isinstance(b, Raise):
                res.append((s, b))
            else:
                res.extend(self.eval(s, fr, n.body if b else n.orelse))
        return res

    def cond(self, st, fr, node):
        """[(st, True|False|Raise)]"""
        return self.bind(self.eval(st, fr, node),
                         lambda s, v: self.truth(s, v))

    def e_NamedExpr(self, st, fr, n):
        def f(s, v):
            self.store_name(s, fr, n.target.id, v, walrus=True)
            return [(s, v)]
        return self.bind(self.eval(st, fr, n.value), f)

    def e_Lambda(self, st, fr, n):
        return self._closure(st, fr, n, '<lambda>')

    def _closure(self, st, fr, n, name):
        ds = list(n.args.defaults)
        kd = [d for d in n.args.kw_defaults if d is not None]

        def f(s, vs):
            kwd, j = {}, len(ds)
            for a, d in zip(n.args.kwonlyargs, n.args.kw_defaults):
                if d is not None:
                    kwd[a.arg] = vs[j]
                    j += 1
            c = Closure(n, list(fr.envs), fr, fr.kls, vs[:len(ds)], kwd, name)
            s.keepenvs = True
            return [(s, c)]
        return self.bind(self.evals(st, fr, ds + kd), f)

    def e_Attribute(self, st, fr, n):
        name = S.mangle(fr.kls, n.attr)
        return self.bind(self.eval(st, fr, n.value),
                         lambda s, v: self.getattr_(s, v, name))

    def e_Subscript(self, st, fr, n):
        if isinstance(n.slice, ast.Slice):
            parts = [n.slice.lower, n.slice.upper, n.slice.step]
            nodes = [n.value] + [p for p in parts if p is not None]

            def f(s, vs):
                it = iter(vs[1:])
                lo, hi, step = [next(it) if p is not None else None
                                for p in parts]
                return self.slice_(s, vs[0], lo, hi, step)
            return self.bind(self.evals(st, fr, nodes), f)
        return self.bind(self.evals(st, fr, [n.value, n.slice]),
                         lambda s, vs: self.getitem(s, vs[0], vs[1]))

    def e_Starred(self, st, fr, n):
        raise Unsupported('starred expression')

    def e_JoinedStr(self, st, fr, n):
        vals = [v.value for v in n.values if isinstance(v, ast.FormattedValue)]

        def f(s, vs):
            if not vals:
                return [(s, Con(''.join(v.value for v in n.values)))]
            vs, parts = list(vs), []
            plain = True
            for v in n.values:
                if isinstance(v, ast.FormattedValue):
                    plain &= v.conversion in (-1, 115) and \
                        v.format_spec is None
                    parts.append(vs.pop(0))
                else:
                    parts.append(v.value)
            if plain:
                return [(s, self.template(s, parts, 'pct'))]
            return [(s, self.fstr(s, 'fstr%d' % INTERN.s(ast.dump(n)), [
                x for x in parts if not isinstance(x, str)]))]
        return self.bind(self.evals(st, fr, vals), f)

    def fstr(self, st, name, vs):
        ts = []
        for v in vs:
            try:
                ts.append(self.lift(v))
            except Unsupported:
                return self.fresh_typed(st, name, STR)
        return self.ap(st, 'FMT:' + name, ts, STR)

    def e_FormattedValue(self, st, fr, n):
        return self.eval(st, fr, n.value)

    def e_BinOp(self, st, fr, n):
        return self.bind(self.evals(st, fr, [n.left, n.right]),
                         lambda s, vs: self.binop(s, BIN[type(n.op)], *vs))

    def e_Compare(self, st, fr, n):
        def go(s, left, i):
            def f(s2, right):
                outs = self.compare(s2, n.ops[i], left, right)
                if i == len(n.ops) - 1:
                    return outs

                def g(s3, v):
                    res = []
                    for s4, b in self.truth(s3, v):
                        if isinstance(b, Raise) or not b:
                            res.append((s4, b if isinstance(b, Raise)
                                        else Con(False)))
                        else:
                            res.extend(go(s4, right, i + 1))
                    return res
                return self.bind(outs, g)
            return self.bind(self.eval(s, fr, n.comparators[i]), f)
        return self.bind(self.eval(st, fr, n.left), lambda s, v: go(s, v, 0))

    def negate(self, outs):
        res = []
        for s, v in outs:
            if isinstance(v, Raise):
                res.append((s, v))
            elif isinstance(v, Con):
                res.append((s, Con(not v.o)))
            elif isinstance(v, Sym) and v.ty.kind == 'bool':
                res.append((s, self.mkbool(z3.simplify(
                    z3.Not(self.bt(v.t))))))
            else:
                res.extend((s2, b if isinstance(b, Raise) else Con(not b))
                           for s2, b in self.truth(s, v))
        return res

    def compare(self, st, op, a, b):
        if isinstance(op, ast.Eq):
            return self.eq(st, a, b)
        if isinstance(op, ast.NotEq):
            a2 = self.norm(st, a)
            ca, _ = self.cls_of(st, a2)
            if ca is not None and not isinstance(a2, Con):
                f, _k = S.lookup(ca, '__ne__')
                if isinstance(f, types.FunctionType):
                    return self.call(st, Con(f), [a, b], {})
            return self.negate(self.eq(st, a, b))
        if isinstance(op, (ast.Is, ast.IsNot)):
            r = self.identical(st, a, b)
            out = self.refine_none(st, a, b, r)
            return self.negate(out) if isinstance(op, ast.IsNot) else out
        if isinstance(op, ast.In):
            return self.contains(st, b, a)
        if isinstance(op, ast.NotIn):
            return self.negate(self.contains(st, b, a))
        return self.order(st, op, a, b)

    def refine_none(self, st, a, b, r):
        """x is None on an optional value: fork with refinement"""
        if isinstance(r, Con):
            return [(st, r)]
        for x, y in ((a, b), (b, a)):
            x = self.norm(st, x)
            if isinstance(x, Sym) and x.ty.kind == 'opt' and isinstance(
                    y, Con) and y.o is None:
                out = []
                for s, bb in self.branch(st, self.bt(r.t)):
                    if not bb:
                        s.refine[x.t.get_id()] = (x.t, x.ty.inner)
                    out.append((s, Con(bb)))
                return out
        return [(st, r)]

    def order(self, st, op, a, b):
        a, b = self.norm(st, a), self.norm(st, b)
        if isinstance(a, Con) and isinstance(b, Con):
            try:
                x, y = a.o, b.o
                r = {ast.Lt: lambda: x < y, ast.LtE: lambda: x <= y,
                     ast.Gt: lambda: x > y, ast.GtE: lambda: x >= y}[
                         type(op)]()
                return [(st, Con(bool(r)))]
            except TypeError:
                return self.rz(st, TypeError)
        ka, kb = self.kind(a), self.kind(b)
        if ka in ('int', 'bool') and kb in ('int', 'bool'):
            def z(k, v):
                if isinstance(v, Con):
                    return z3.IntVal(int(v.o))
                return self.it(v.t) if k == 'int' else z3.If(
                    self.bt(v.t), 1, 0)
            x, y = z(ka, a), z(kb, b)
            r = {ast.Lt: x < y, ast.LtE: x <= y, ast.Gt: x > y,
                 ast.GtE: x >= y}[type(op)]
            return [(st, self.mkbool(z3.simplify(r)))]
        sa, sb = self.content(st, a), self.content(st, b)
        if ka in ('str', 'flt', 'int') and kb in ('str', 'flt', 'int') and (
                (ka == 'str') == (kb == 'str')):
            nm = type(op).__name__
            if nm in ('Gt', 'GtE'):
                a, b, nm = b, a, {'Gt': 'Lt', 'GtE': 'LtE'}[nm]
            return [(st, self.mkbool(fn('ORD' + nm, Val, Val, B)(
                self.lift(a), self.lift(b))))]
        if ka in self.SIMPLEKINDS and kb in self.SIMPLEKINDS:
            return self.rz(st, TypeError, 'not orderable')
        ca, cb = self.cls_of(st, a)[0], self.cls_of(st, b)[0]
        nm = {ast.Lt: '__lt__', ast.LtE: '__le__', ast.Gt: '__gt__',
              ast.GtE: '__ge__'}[type(op)]
        f = S.lookup(ca, nm)[0] if ca else None
        if isinstance(f, types.FunctionType):
            return self.call(st, Con(f), [a, b], {})
        raise Unsupported('ordering of %r and %r' % (a, b))

    # ------------------------------------------------------------ calls
    def e_Call(self, st, fr, n):
        # zero-argument super()
        if isinstance(n.func, ast.Name) and n.func.id == 'super' and \
                not n.args:
            cls = fr.cells.get('__class__') if fr.cells else None
            if cls is None and fr.func is not None:
                cls = getattr(fr.func, '__pyvc_class__', None)
            if cls is None:
                raise Unsupported('zero-argument super()')
            a = fr.node.args
            nm = (a.posonlyargs + a.args)[0].arg
            return [(st, SuperV(cls, st.envs[fr.envs[0]][nm]))]
        if isinstance(n.func, ast.Name) and n.func.id in (
                'locals', 'globals', 'vars', 'eval', 'exec', 'compile'):
            raise Unsupported(n.func.id)
        if isinstance(n.func, ast.Name) and n.func.id == '__import__':
            # the namespaces passed matter only for relative imports
            keep = [a for a in n.args if not (isinstance(
                a, ast.Call) and isinstance(a.func, ast.Name) and
                a.func.id in ('locals', 'globals'))]
            if n.keywords or any(isinstance(a, ast.Starred) for a in keep):
                raise Unsupported('__import__')
            return self.bind(self.evals(st, fr, keep),
                             lambda s, vs: self.import_name(s, vs))

        def withf(s, f):
            nodes, kinds = [], []
            for a in n.args:
                if isinstance(a, ast.Starred):
                    nodes.append(a.value)
                    kinds.append('*')
                else:
                    nodes.append(a)
                    kinds.append('')
            for k in n.keywords:
                nodes.append(k.value)
                kinds.append(k.arg if k.arg else '**')

            def witha(s2, vs):
                args, kw = [], {}
                for k, v in zip(kinds, vs):
                    if k == '':
                        args.append(v)
                    elif k == '*':
                        r = self.star(s2, v)
                        args.extend(r)
                    elif k == '**':
                        d = self.concrete_map(s2, v)
                        if d is None:
                            raise Unsupported('** of symbolic mapping')
                        for kk, vv in d:
                            kw[kk] = vv
                    else:
                        kw[k] = v
                return self.call(s2, f, args, kw, n)
            def listed(s2, vs):
                # what can only be iterated over: its items come before the
                # rest of the arguments, of which there is none
                if kinds and kinds[-1] == '*':
                    v = self.norm(s2, vs[-1])
                    if isinstance(v, Ref) and self.content(s2, v) is None:
                        srcs = self.iter_sources(s2, v)
                        if not srcs or not all(isinstance(x, list)
                                               for x in srcs):
                            return self.bind(
                                self.call(s2, Con(list), [v], {}),
                                lambda s3, l: witha(
                                    s3, list(vs[:-1]) + [l]))
                return witha(s2, vs)
            return self.bind(self.evals(s, fr, nodes), listed)
        return self.bind(self.eval(st, fr, n.func), withf)

    def star(self, st, v):
        v = self.norm(st, v)
        self.ordered(st, v)
        q = self.content(st, v)
        if q is None:
            srcs = self.iter_sources(st, v)
            if srcs and all(isinstance(x, list) for x in srcs):
                return [i for x in srcs for i in x]
            raise Unsupported('* of %r' % (v,))
        l = self.aslist(q)
        if l is not None:
            return list(l)
        return [Star(q)]

    def import_name(self, st, vs):
        """__import__ of a constant absolute name"""
        v = self.norm(st, vs[0]) if vs else None
        if not (isinstance(v, Con) and isinstance(v.o, str)):
            raise Unsupported('import of a computed name')
        frm = ()
        if len(vs) > 1:
            q = self.content(st, vs[1])
            l = self.aslist(q) if q is not None else None
            if l is None or not all(isinstance(x, Con) for x in l):
                raise Unsupported('import of computed names')
            frm = tuple(x.o for x in l)
        if len(vs) > 2:
            raise Unsupported('relative import')
        try:
            return [(st, Con(__import__(v.o, {}, {}, frm)))]
        except Exception as e:
            return self.rz(st, type(e))

    def concrete_map(self, st, v):
        v = self.norm(st, v)
        if isinstance(v, Con) and isinstance(v.o, dict):
            return [(k, self.con(x)) for k, x in v.o.items()]
        if isinstance(v, Ref) and st.heap[v.id].mp is not None:
            m = st.heap[v.id].mp
            if m.base is not None:
                return None
            d = {}
            for op, k, x in m.log:
                if op == 'upd' or not isinstance(k, Con):
                    return None
                if op == 'set':
                    d[k.o] = x
                else:
                    d.pop(k.o, None)
            return list(d.items())
        return None

    def call(self, st, f, args, kw, node=None):
        f = self.norm(st, f)
        if isinstance(f, Bound):
            if isinstance(f.f, tuple):       # builtin method
                return self.bmethod(st, f.f[1], f.self, args, kw)
            if isinstance(f.f, Con) and isinstance(f.f.o,
                                                   types.FunctionType):
                cls, exact = self.cls_of(st, f.self)
                nm = f.f.o.__name__
                if cls is not None and not isinstance(f.self, ClsOf) and \
                        S.lookup(cls, nm)[0] is f.f.o:
                    c = self.find_contract(st, cls, nm, f.self)
                    if c is not None:
                        return c.apply(self, st, f.self, args, kw)
            return self.call(st, f.f, [f.self] + args, kw, node)
        if isinstance(f, Closure):
            return self.call_closure(st, f, args, kw)
        if isinstance(f, ClsOf):
            return self.instantiate_unknown(st, f, args, kw)
        if isinstance(f, Con):
            o = f.o
            if isinstance(o, type):
                return self.instantiate(st, o, args, kw)
            if isinstance(o, types.MethodType):
                return self.call(st, Con(o.__func__),
                                 [self.con(o.__self__)] + args, kw, node)
            if isinstance(o, types.FunctionType):
                return self.call_function(st, o, args, kw)
            m = self.model(o)
            if m is not None:
                return m(st, args, kw)
            if isinstance(o, (staticmethod, classmethod)):
                return self.call(st, Con(o.__func__), args, kw, node)
            slf = getattr(o, '__self__', None)
            nm = getattr(o, '__name__', None)
            if slf is not None and not isinstance(slf, types.ModuleType) \
                    and nm and not isinstance(slf, type):
                return self.bmethod(st, nm, Con(slf), args, kw)
            if isinstance(o, (types.MethodDescriptorType,
                              types.WrapperDescriptorType)) and args:
                return self.bmethod(st, o.__name__, args[0], args[1:], kw)
            if isinstance(o, types.BuiltinFunctionType):
                return self.call_opaque(st, o, args, kw)
            c, _ = S.lookup(type(o), '__call__')
            if isinstance(c, types.FunctionType):
                return self.call_function(st, c, [f] + args, kw)
            if not callable(o):
                return self.rz(st, TypeError, 'not callable')
            return self.call_opaque(st, o, args, kw)
        if isinstance(f, (Sym, Ref)):
            cls, exact = self.cls_of(st, f)
            if cls is not None:
                con = self.find_contract(st, cls, '__call__', f)
                if con is not None:
                    return con.apply(self, st, f, args, kw)
                c, _ = S.lookup(cls, '__call__')
                if isinstance(c, types.FunctionType):
                    return self.call_function(st, c, [f] + args, kw)
                if exact and c is None:
                    return self.rz(st, TypeError, 'not callable')
            if isinstance(f, Sym) and f.ty.kind == 'none':
                return self.rz(st, TypeError, 'not callable')
            return self.call_unknown(st, f, args, kw)
        raise Unsupported('call of %r' % (f,))

    def call_unknown(self, st, f, args, kw):
        """An arbitrary callable passed in: deterministic, may raise."""
        if kw or any(isinstance(a, Star) for a in args):
            raise Unsupported('call of unknown callable')
        self.assumptions.add('callables supplied by the caller are pure and '
                             'deterministic')
        ts = [self.lift(f)] + [self.lift(a) for a in args]
        n = 'CALL%d' % len(args)
        r = fn(n + ':raises', *([Val] * len(ts) + [B]))(*ts)
        out = []
        for s, b in self.branch(st, r):
            if b:
                out.append((s, Raise(Exc(Exception, False))))
            else:
                out.append((s, self.ap(s, n, ts, ANY)))
        return out

    def call_opaque(self, st, o, args, kw):
        """A library function without a model: evaluated on constants only."""
        try:
            fc = self.fcontracts.get(o)
        except TypeError:
            fc = None
        if fc is not None:
            self.used_contracts.add(getattr(o, '__qualname__', repr(o)))
            return fc(self, st, args, kw)
        if all(isinstance(a, Con) and isinstance(a.o, SIMPLE)
               for a in list(args) + list(kw.values())):
            try:
                return [(st, self.con(o(*[a.o for a in args],
                                        **{k: v.o for k, v in kw.items()})))]
            except Exception as e:
                return self.rz(st, type(e))
        raise Unsupported('call of %r' % (o,))

    def inlinable(self, f):
        return S.in_repo(f) or (SPECDIR in f.__code__.co_filename) or \
            '_collections_abc' in f.__code__.co_filename

    def find_contract(self, st, cls, name, recv):
        for c in self.contracts:
            if c.method == name and issubclass(cls, c.cls):
                if c.guard is None or c.guard(self, st, recv):
                    self.used_contracts.add('%s.%s' % (c.cls.__name__, name))
                    return c
        return None

    def call_function(self, st, o, args, kw, nocontract=False):
        m = self.model(o)
        if m is not None:
            return m(st, args, kw)
        key = id(o)
        fc = self.fcontracts.get(o)
        if fc is not None and not nocontract:
            self.used_contracts.add(o.__qualname__)
            return fc(self, st, args, kw)
        info = S.fn_info(o)
        if info is None or not self.inlinable(o):
            raise Unsupported('call of %s.%s (no source)' % (
                o.__module__, o.__qualname__))
        if S.in_repo(o):
            self.inlined.add(o.__module__ + '.' + o.__qualname__)
        cells = {}
        if o.__closure__:
            for nm, c in zip(o.__code__.co_freevars, o.__closure__):
                try:
                    cells[nm] = c.cell_contents
                except ValueError:
                    pass
        defaults = [self.con(d) for d in (o.__defaults__ or ())]
        kwd = {k: self.con(v) for k, v in (o.__kwdefaults__ or {}).items()}
        fr = Frame(o.__globals__, info.kls, [], info.node, cells, o)
        return self.invoke(st, fr, args, kw, defaults, kwd,
                           o.__qualname__)

    def call_closure(self, st, c, args, kw):
        pf = c.mod
        fr = Frame(pf.glob, c.kls, list(c.envs), c.node, pf.cells, pf.func)
        fr.cells = pf.cells
        return self.invoke(st, fr, args, kw, list(c.defaults),
                           dict(c.kwdefaults), c.name)

    def invoke(self, st, fr, args, kw, defaults, kwd, name):
        if st.depth > self.MAXDEPTH or \
                sum(1 for c in st.calls if c is fr.node) > 6:
            raise Unsupported('recursion: %s' % name)
        outs = []
        for s, env in self.bindargs(st, fr.node.args, args, kw, defaults,
                                    kwd):
            if isinstance(env, Raise):
                outs.append((s, env))
                continue
            e = self.new_env(s)
            s.envs[e] = env
            f2 = Frame(fr.glob, fr.kls, [e] + fr.envs, fr.node, fr.cells,
                       fr.func)
            if not isinstance(fr.node, ast.Lambda) and _locals(fr.node)[2]:
                outs.append((s, self.alloc(
                    s, types.GeneratorType, src=GenCall(fr.node, f2),
                    pos=0)))
                continue
            s.depth += 1
            s.calls.append(fr.node)
            npc, nf = len(s.pc), len(s.facts)
            if isinstance(fr.node, ast.Lambda):
                res = self.eval(s, f2, fr.node.body)
            else:
                res = []
                for s2, out in self.block(s, f2, fr.node.body):
                    if out is None:
                        res.append((s2, Con(None)))
                    elif out[0] == 'ret':
                        res.append((s2, out[1]))
                    elif out[0] == 'raise':
                        res.append((s2, out[1]))
                    else:
                        raise Unsupported('control flow %r' % (out,))
            for s2, v in res:
                s2.depth -= 1
                s2.calls.pop()
                if not self._escapes(s2, e, v):
                    s2.envs.pop(e, None)
            outs.extend(self.joinbool(res, npc, nf))
        return outs

    def _escapes(self, st, e, v):
        return getattr(st, 'keepenvs', False)

    def bindargs(self, st, a, args, kw, defaults, kwd):
        """[(st, env | Raise)]"""
        pos = [x.arg for x in a.posonlyargs + a.args]
        kwonly = [x.arg for x in a.kwonlyargs]
        # positional arguments of symbolic number
        stars = [i for i, x in enumerate(args) if isinstance(x, Star)]
        if stars:
            i = stars[0]
            if i < len(pos):
                # needs elements of the symbolic sequence
                q = args[i].seq
                rest = args[i + 1:]
                if any(isinstance(x, Star) for x in rest):
                    raise Unsupported('several star arguments')
                n = self.seqlen(st, q)
                need = len(pos) - i - len(rest)
                out = []
                lo = max(0, need - len(defaults))
                for cnt in range(lo, need + 1):
                    s = st.copy()
                    if not self.feasible(s, [n == cnt]):
                        continue
                    s.add(n == cnt)
                    els = [self.elem(s, q, z3.IntVal(j)) for j in range(cnt)]
                    out.extend(self.bindargs(s, a, args[:i] + els + rest, kw,
                                             defaults, kwd))
                s = st.copy()
                bad = n < lo if a.vararg else z3.Or(n < lo, n > need)
                if self.feasible(s, [bad]):
                    s.add(bad)
                    out.append((s, Raise(Exc(TypeError))))
                if a.vararg:
                    s = st.copy()
                    if self.feasible(s, [n > need]):
                        s.add(n > need)
                        els = [self.elem(s, q, z3.IntVal(j))
                               for j in range(need)]
                        out.extend(self.bindargs(
                            s, a, args[:i] + els + [Star(SSlice(q, need))] +
                            rest, kw, defaults, kwd))
                return out
            if not a.vararg:
                n = self.seqlen(st, args[i].seq)
                out = []
                for s, b in self.branch(st, n == 0):
                    if b:
                        out.extend(self.bindargs(
                            s, a, args[:i] + args[i + 1:], kw, defaults, kwd))
                    else:
                        out.append((s, Raise(Exc(TypeError))))
                return out
        env = {}
        for nm, v in zip(pos, args):
            env[nm] = v
        extra = args[len(pos):]
        if extra:
            if not a.vararg:
                return [(st, Raise(Exc(TypeError, True, (
                    Con('too many positional arguments'),))))]
        if a.vararg:
            q = SList([])
            for x in extra:
                q = self.cat(q, x.seq if isinstance(x, Star) else SList([x]))
            env[a.vararg.arg] = Tup(q.items) if isinstance(q, SList) else \
                SeqV(q, tuple)
        ponly = set(x.arg for x in a.posonlyargs)
        xkw = {}
        for k, v in kw.items():
            if k in env and k in pos and k not in ponly:
                return [(st, Raise(Exc(TypeError)))]
            if (k in pos and k not in ponly) or k in kwonly:
                env[k] = v
            elif a.kwarg:
                xkw[k] = v
            else:
                return [(st, Raise(Exc(TypeError, True, (
                    Con('unexpected keyword %s' % k),))))]
        nd = len(defaults)
        for i, nm in enumerate(pos):
            if nm not in env:
                j = i - (len(pos) - nd)
                if j < 0:
                    return [(st, Raise(Exc(TypeError, True, (
                        Con('missing argument %s' % nm),))))]
                env[nm] = defaults[j]
        for nm in kwonly:
            if nm not in env:
                if nm not in kwd:
                    return [(st, Raise(Exc(TypeError)))]
                env[nm] = kwd[nm]
        if a.kwarg:
            m = MapC(None)
            for k, v in xkw.items():
                m = m.put(Con(k), v)
            env[a.kwarg.arg] = self.alloc(st, dict, mp=m)
        return [(st, env)]

    # ------------------------------------------------------------ instances
    def instantiate(self, st, cls, args, kw):
        m = self.model(cls)
        if m is not None:
            return m(st, args, kw)
        fc = self.fcontracts.get(cls)
        if fc is not None:
            self.used_contracts.add(cls.__qualname__)
            return fc(self, st, args, kw)
        if issubclass(cls, BaseException):
            s, k = st, dict(kw)
            return [(s, Exc(cls, True, tuple(args), k))]
        if cls.__module__ in ('builtins',):
            return self.call_opaque(st, cls, args, kw)
        new, nk = S.lookup(cls, '__new__')
        if isinstance(new, staticmethod):
            new = new.__func__
        if isinstance(new, types.FunctionType):
            return self.bind(self.call_function(st, new, [Con(cls)] + args,
                                                kw),
                             lambda s, r: self._init(s, cls, r, args, kw))
        abst = getattr(cls, '__abstractmethods__', None)
        if abst:
            return self.rz(st, TypeError, 'abstract class')
        init, ik = S.lookup(cls, '__init__')
        if not (isinstance(init, types.FunctionType) and
                self.inlinable(init)) and not S.in_repo_class(cls) and \
                not cls.__module__.startswith('contracts.'):
            raise Unsupported('instantiation of %s' % cls.__name__)
        r = self.raw_new(st, cls)
        return self._init(st, cls, r, args, kw)

    def raw_new(self, st, cls):
        if issubclass(cls, (list, tuple, set)):
            return self.alloc(st, cls, seq=SList([]))
        if issubclass(cls, dict):
            return self.alloc(st, cls, mp=MapC(None))
        return self.alloc(st, cls)

    def _init(self, st, cls, r, args, kw):
        if isinstance(r, Ref) and not issubclass(st.heap[r.id].cls, cls):
            return [(st, r)]
        init, ik = S.lookup(cls, '__init__')
        if isinstance(init, types.FunctionType):
            return self.bind(self.call_function(st, init, [r] + args, kw),
                             lambda s, _: [(s, r)])
        if ik in (list, dict, tuple, set):
            return self.bind(self.bmethod(st, '__init__', r, args, kw),
                             lambda s, _: [(s, r)])
        if args or kw:
            return self.rz(st, TypeError, 'takes no arguments')
        return [(st, r)]

    def instantiate_unknown(self, st, f, args, kw):
        raise Unsupported('instantiation of an unknown class')

    # ------------------------------------------------------------ getattr
    def model(self, o):
        return None

    def getattr_(self, st, v, name):
        v = self.norm(st, v)
        if isinstance(v, Con):
            return self.con_getattr(st, v, name)
        if isinstance(v, Sym):
            k = v.ty.kind
            if k == 'opt':
                out = []
                for s, isn in self.branch(st, Val.is_vnone(v.t)):
                    if isn:
                        out.extend(self.con_getattr(s, Con(None), name))
                    else:
                        s.refine[v.t.get_id()] = (v.t, v.ty.inner)
                        out.extend(self.getattr_(s, Sym(v.t, v.ty.inner),
                                                 name))
                return out
            if k == 'none':
                return self.con_getattr(st, Con(None), name)
            if k == 'any':
                return self.any_getattr(st, v, name)
            if name == '__class__':
                return [(st, self.class_of(st, v))]
            if k in ('bool', 'int', 'str', 'flt'):
                if hasattr(v.ty.cls, name):
                    return [(st, Bound(('bm', name), v))]
                return self.rz(st, AttributeError, name)
            return self.inst_getattr(st, v, v.ty.cls, v.ty.exact, name)
        if isinstance(v, Ref):
            h = st.heap[v.id]
            if name == '__class__':
                return [(st, Con(h.cls))]
            return self.inst_getattr(st, v, h.cls, True, name)
        if isinstance(v, (Tup, SeqV)):
            cls, _ = self.cls_of(st, v)
            if name == '__class__':
                return [(st, Con(cls))]
            if hasattr(cls, name):
                return [(st, Bound(('bm', name), v))]
            return self.rz(st, AttributeError, name)
        if isinstance(v, Rec):
            return self.inst_getattr(st, v, v.cls, True, name)
        if isinstance(v, Exc):
            return self.exc_getattr(st, v, name)
        if isinstance(v, SuperV):
            return self.super_getattr(st, v, name)
        if isinstance(v, ClsOf):
            return self.clsof_getattr(st, v, name)
        if isinstance(v, Closure):
            if name in ('__name__', '__qualname__'):
                return [(st, Con(v.name))]
            if name == '__doc__':
                return [(st, Con(None))]
        if isinstance(v, Bound):
            if name == '__self__':
                return [(st, v.self)]
            if name == '__func__':
                return [(st, v.f)]
            if name in ('__name__', '__qualname__'):
                f = v.f.o if isinstance(v.f, Con) else None
                return [(st, Con(f.__name__ if f else v.f[1]))]
        raise Unsupported('attribute %s of %r' % (name, v))

    def class_of(self, st, v):
        v = self.norm(st, v)
        if isinstance(v, Con):
            return Con(type(v.o))
        if isinstance(v, Sym) and v.ty.kind == 'opt':
            return ClsOf(v, None)
        cls, exact = self.cls_of(st, v)
        if cls is not None and exact:
            return Con(cls)
        if isinstance(v, Sym) and v.ty.kind == 'int':
            return Con(int)
        return ClsOf(v, cls)

    def any_getattr(self, st, v, name):
        if name == '__class__':
            return [(st, ClsOf(v, None))]
        if name in ('__str__', '__repr__'):
            return [(st, Bound(Con(str if name == '__str__' else repr), v))]
        has = fn('HASATTR', Val, I, B)(v.t, z3.IntVal(INTERN.s(name)))
        # values of the builtin scalar types have no such attributes
        for C, rec in ((str, Val.is_vstr), (bool, Val.is_vbool),
                       (int, Val.is_vint), (float, Val.is_vflt),
                       (type(None), Val.is_vnone)):
            if not hasattr(C, name):
                st.fact(z3.Implies(rec(v.t), z3.Not(has)))
        out = []
        for s, b in self.branch(st, has):
            if b:
                out.append((s, self.ap(s, 'F:' + name.lstrip('_'), [v.t],
                                       ANY)))
            else:
                out.extend(self.rz(s, AttributeError, name))
        return out

    def exc_getattr(self, st, v, name):
        if name == 'args':
            if v.exact:
                if v.args is None:
                    raise NeedLive(('exc', v.cls.__name__, 'args'))
                return [(st, Tup(list(v.args)))]
            return [(st, self.fresh_typed(st, 'excargs', Inst(tuple)))]
        if name == '__class__':
            return [(st, Con(v.cls) if v.exact else ClsOf(v, v.cls))]
        if name == '__traceback__':
            return [(st, self.fresh_typed(st, 'tb', ANY))]
        f, k = S.lookup(v.cls, name)
        if isinstance(f, types.FunctionType):
            return [(st, Bound(Con(f), v))]
        if isinstance(f, property):
            return [(st, self.fresh_typed(st, 'excattr', ANY))]
        if f is not None and not callable(f) and not hasattr(f, '__get__'):
            return [(st, self.con(f))]
        if name in ('with_traceback', '__str__', '__repr__'):
            return [(st, Bound(('bm', name), v))]
        if name in v.attrs:
            return [(st, v.attrs[name])]
        if v.exact:
            return self.rz(st, AttributeError, name)
        raise Unsupported('attribute %s of an exception' % name)

    def super_getattr(self, st, v, name):
        slf = self.norm(st, v.self)
        if isinstance(slf, Con) and isinstance(slf.o, type):
            cls = slf.o
        else:
            cls, _ = self.cls_of(st, slf)
        mro = cls.__mro__
        i = mro.index(v.cls)
        for k in mro[i + 1:]:
            if name in k.__dict__:
                f = k.__dict__[name]
                if isinstance(f, types.FunctionType):
                    return [(st, Bound(Con(f), v.self))]
                if isinstance(f, property):
                    return self.call(st, Con(f.fget), [v.self], {})
                if isinstance(f, classmethod):
                    return [(st, Bound(Con(f.__func__), slf if isinstance(
                        slf, Con) and isinstance(slf.o, type)
                        else self.class_of(st, slf)))]
                if isinstance(f, staticmethod):
                    return [(st, Con(f.__func__))]
                if k is object and name == '__init__':
                    return [(st, Bound(('bm', 'object.__init__'), v.self))]
                if k is object and name == '__setattr__':
                    return [(st, Bound(('bm', 'object.__setattr__'),
                                       v.self))]
                if k is object and name == '__new__':
                    return [(st, Con(object.__new__))]
                if callable(f):
                    return [(st, Bound(('bm', name), v.self))]
                return [(st, self.con(f))]
        return self.rz(st, AttributeError, name)

    def overridden(self, cls, name):
        f = S.lookup(cls, name)[0]
        for s in S.live_subclasses(cls):
            if S.lookup(s, name)[0] is not f:
                return True
        return False

    def clsof_getattr(self, st, v, name):
        if name in ('__name__', '__qualname__', '__module__'):
            t = fn('CLSNAME:' + name, Val, I)(self.lift_or_fresh(v.v))
            return [(st, Sym(Val.vstr(t), STR))]
        if v.cls is None:
            raise Unsupported('class attribute of an unknown class')
        f, k = S.lookup(v.cls, name)
        if f is None:
            return self.rz(st, AttributeError, name)
        if isinstance(f, classmethod):
            return [(st, Bound(Con(f.__func__), v))]
        if isinstance(f, staticmethod):
            return [(st, Con(f.__func__))]
        if isinstance(f, types.FunctionType):
            return [(st, Con(f))]
        return [self.classattr(st, v.v, v.cls, False, name, f)]

    def lift_or_fresh(self, v):
        try:
            return self.lift(v)
        except Unsupported:
            return self.fresh('x', Val)

    def classattr(self, st, v, cls, exact, name, f):
        if exact or not self.overridden(cls, name):
            return (st, self.con(f))
        ty = self.declared(cls, name) or ANY
        t = self.lift(v)
        return (st, self.ap(st, 'CA:' + name, [TYP(t)], ty))

    def declared(self, cls, pub, v=None):
        if v is not None and isinstance(v, Sym) and pub in v.ty.fields:
            return v.ty.fields[pub]
        for k in cls.__mro__:
            d = self.types.get(k)
            if d and pub in d:
                return d[pub]
        return None

    def con_getattr(self, st, v, name):
        o = v.o
        if isinstance(o, types.ModuleType):
            if hasattr(o, name):
                return [(st, self.con(getattr(o, name)))]
            return self.rz(st, AttributeError, name)
        if name == '__class__':
            return [(st, Con(type(o)))]
        if isinstance(o, type):
            if name in ('__name__', '__qualname__', '__module__', '__mro__',
                        '__dict__', '__doc__', '__bases__'):
                return [(st, self.con(getattr(o, name)))]
            ov = self.over_read(st, v, name)
            if ov is not None:
                return ov
            f, k = S.lookup(o, name)
            if f is None:
                f, k = S.lookup(type(o), name)
                if f is None:
                    return self.rz(st, AttributeError, name)
                if isinstance(f, types.FunctionType):
                    return [(st, Bound(Con(f), v))]
                return [(st, self.con(getattr(o, name)))]
            if isinstance(f, classmethod):
                return [(st, Bound(Con(f.__func__), v))]
            if isinstance(f, staticmethod):
                return [(st, Con(f.__func__))]
            return [(st, self.con(f) if isinstance(f, (
                types.FunctionType, property)) else self.con(
                    getattr(o, name)))]
        if isinstance(o, (list, dict, set, tuple, str, bytes, int, float,
                          type(None), types.MappingProxyType)) and \
                type(o).__module__ == 'builtins':
            if hasattr(o, name):
                return [(st, Bound(('bm', name), v))]
            return self.rz(st, AttributeError, name)
        if isinstance(o, logging.Logger):
            return [(st, Bound(('log', 'log:' + name), v))]
        cls = type(o)
        f, k = S.lookup(cls, name)
        if isinstance(f, property) and S.fn_info(f.fget) is not None and \
                self.inlinable(f.fget):
            return self.call_function(st, f.fget, [v], {})
        if isinstance(f, types.FunctionType):
            return [(st, Bound(Con(f), v))]
        if isinstance(f, classmethod):
            return [(st, Bound(Con(f.__func__), Con(cls)))]
        if isinstance(f, staticmethod):
            return [(st, Con(f.__func__))]
        pub = S.field_alias(cls).get(name, name)
        ov = self.over_read(st, v, pub)
        if ov is not None:
            return ov
        try:
            return [(st, self.con(getattr(o, name)))]
        except AttributeError:
            return self.rz(st, AttributeError, name)

    def over_read(self, st, v, pub):
        """value of a field that may have been overwritten: outs or None"""
        l = st.over.get(pub)
        if not l:
            return None
        o = self.oid(self.lift(v))
        for o2, val in reversed(l):
            if o2.eq(o):
                return [(st, val)]
            s = z3.simplify(o2 == o)
            if z3.is_false(s):
                continue
            if self.must(st, o2 == o):
                return [(st, val)]
            if self.must(st, o2 != o):
                continue
            raise Unsupported('may-alias field access %s' % pub)
        return None

    def inst_getattr(self, st, v, cls, exact, name):
        f, k = S.lookup(cls, name)
        if isinstance(f, property):
            if not exact and self.overridden(cls, name):
                ty = self.declared(cls, name, v)
                if ty is None:
                    raise Unsupported('overridden property %s' % name)
                return [(st, self.ap(st, 'F:' + name,
                                     [self.oid(self.lift(v))], ty))]
            if f.fget is None:
                return self.rz(st, AttributeError, name)
            return self.call(st, Con(f.fget), [v], {})
        if isinstance(f, types.FunctionType):
            if not exact and self.overridden(cls, name) and \
                    self.find_contract(st, cls, f.__name__, v) is None:
                raise Unsupported('call of %s.%s, which subclasses override, '
                                  'without a contract' % (cls.__name__, name))
            return [(st, Bound(Con(f), v))]
        if isinstance(f, classmethod):
            return [(st, Bound(Con(f.__func__), self.class_of(st, v)))]
        if isinstance(f, staticmethod):
            return [(st, Con(f.__func__))]
        isdata = f is None or isinstance(f, (types.MemberDescriptorType,
                                             types.GetSetDescriptorType))
        if name == '__dict__':
            raise Unsupported('__dict__')
        if isdata or isinstance(v, (Ref, Rec)):
            if isinstance(v, Ref):
                at = st.heap[v.id].attrs
                if name in at:
                    x = at[name]
                    if isinstance(x, Dead):
                        raise NeedLive(('attr', v.id, name))
                    return [(st, x)]
                if isdata:
                    return self.ga_hook(st, v, cls, name)
            elif isinstance(v, Rec):
                if name in v.attrs:
                    return [(st, v.attrs[name])]
                if isdata:
                    return self.ga_hook(st, v, cls, name)
            elif isdata:
                return self.readfield(st, v, cls, name, f)
        if callable(f) and k is not None and not S.in_repo_class(k) and \
                not isinstance(f, type):
            return [(st, Bound(('bm', name), v))]
        return [self.classattr(st, v, cls, exact, name, f)]

    def ga_hook(self, st, v, cls, name):
        g, k = S.lookup(cls, '__getattr__')
        if isinstance(g, types.FunctionType):
            return self.call_function(st, g, [v, Con(name)], {})
        return self.rz(st, AttributeError, name)

    def readfield(self, st, v, cls, name, f):
        alias = S.field_alias(cls)
        pub = alias.get(name, name)
        ov = self.over_read(st, v, pub)
        if ov is not None:
            return ov
        ty = self.declared(cls, pub, v)
        if ty is None and f is None and not name.startswith('_'):
            if not self.hasdict(cls):
                return self.ga_hook(st, v, cls, name)
            if not v.ty.exact:
                for s in S.live_subclasses(cls):
                    if S.lookup(s, name)[0] is not None:
                        raise Unsupported('attribute %s of a subclass of %s'
                                          % (name, cls.__name__))
            return self.ga_hook(st, v, cls, name)
        x = self.ap(st, 'F:' + pub, [self.oid(v.t)], ty or ANY)
        return [(st, x)]

    def hasdict(self, cls):
        return hasattr(cls, '__dict__') and cls.__dictoffset__ != 0

    # ------------------------------------------------------------ setattr
    def setattr_(self, st, v, name, val):
        """[(st, None | Raise)]"""
        v = self.norm(st, v)
        if isinstance(v, Sym) and v.ty.kind == 'opt':
            out = []
            for s, isn in self.branch(st, Val.is_vnone(v.t)):
                if isn:
                    out.extend(self.rz(s, AttributeError, name))
                else:
                    s.refine[v.t.get_id()] = (v.t, v.ty.inner)
                    out.extend(self.setattr_(s, Sym(v.t, v.ty.inner), name,
                                             val))
            return out
        if isinstance(v, Con) and isinstance(v.o, (type, types.ModuleType)):
            st.writes.append(('class attribute', '%s.%s' % (
                v.o.__name__, name)))
            st.over.setdefault(name, []).append(
                (self.oid(self.lift(v)), val))
            return [(st, None)]
        if isinstance(v, Exc):
            v.attrs[name] = val
            return [(st, None)]
        cls, exact = self.cls_of(st, v)
        if cls is None or cls in SIMPLE:
            if isinstance(v, Sym) and v.ty.kind == 'any':
                raise Unsupported('attribute store on an unknown value')
            return self.rz(st, AttributeError, name)
        f, k = S.lookup(cls, name)
        sa, _ = S.lookup(cls, '__setattr__')
        if isinstance(sa, types.FunctionType) and not \
                getattr(self, 'raw_setattr', False):
            return self.bind(self.call_function(st, sa, [v, Con(name), val],
                                                {}),
                             lambda s, _: [(s, None)])
        if isinstance(f, property):
            if f.fset is None:
                return self.rz(st, AttributeError, name)
            return self.bind(self.call(st, Con(f.fset), [v, val], {}),
                             lambda s, _: [(s, None)])
        if not isinstance(f, types.MemberDescriptorType) and \
                not self.hasdict(cls):
            return self.rz(st, AttributeError, name)
        if isinstance(v, Ref):
            st.heap[v.id].attrs[name] = val
            if v.id in self.tracked:
                st.writes.append((name, 'attribute %s of %s' % (
                    name, cls.__name__)))
            return [(st, None)]
        if isinstance(v, Rec):
            raise Unsupported('store into a frozen object')
        pub = S.field_alias(cls).get(name, name)
        o = self.oid(self.lift(v))
        st.over.setdefault(pub, []).append((o, val))
        st.writes.append((pub, 'attribute %s of %s' % (pub, cls.__name__)))
        return [(st, None)]

    def delattr_(self, st, v, name):
        """[(st, None | Raise)]"""
        v = self.norm(st, v)
        cls, exact = self.cls_of(st, v)
        if cls is None:
            raise Unsupported('del of an attribute of an unknown value')
        if cls in SIMPLE:
            return self.rz(st, AttributeError, name)
        da, _ = S.lookup(cls, '__delattr__')
        if isinstance(da, types.FunctionType):
            return self.bind(self.call_function(st, da, [v, Con(name)], {}),
                             lambda s, _: [(s, None)])
        f, k = S.lookup(cls, name)
        if isinstance(f, property):
            if f.fdel is None:
                return self.rz(st, AttributeError, name)
            return self.bind(self.call(st, Con(f.fdel), [v], {}),
                             lambda s, _: [(s, None)])
        if not isinstance(v, Ref):
            raise Unsupported('del of an attribute')
        if name not in st.heap[v.id].attrs:
            return self.rz(st, AttributeError, name)
        del st.heap[v.id].attrs[name]
        if v.id in self.tracked:
            st.writes.append((name, 'attribute %s of %s' % (
                name, cls.__name__)))
        return [(st, None)]

    # ------------------------------------------------------------ statements
    def block(self, st, fr, stmts):
        outs = [(st, None)]
        for n in stmts:
            nxt = []
            for s, o in outs:
                if o is not None:
                    nxt.append((s, o))
                else:
                    nxt.extend(self.stmt(s, fr, n))
            outs = nxt
            if len(outs) > self.MAXPATHS:
                raise Unsupported('too many paths')
        return outs

    def stmt(self, st, fr, n):
        m = getattr(self, 's_' + type(n).__name__, None)
        if m is None:
            raise Unsupported('statement %s' % type(n).__name__)
        res = m(st, fr, n)
        for s, o in res:
            if o is not None and o[0] == 'raise' and o[1].line is None:
                o[1].line = n.lineno
        return res

    def _lift_outs(self, outs, f):
        """expression outs -> statement outs"""
        res = []
        for s, v in outs:
            if isinstance(v, Raise):
                res.append((s, ('raise', v)))
            else:
                res.extend(f(s, v))
        return res

    def s_Expr(self, st, fr, n):
        v = n.value
        if isinstance(v, ast.Constant):
            return [(st, None)]
        if isinstance(v, (ast.Yield, ast.YieldFrom)):
            return self._yield(st, fr, v)
        return self._lift_outs(self.eval(st, fr, v), lambda s, _: [(s, None)])

    def _yield(self, st, fr, v):
        cb = self.yields[-1] if self.yields else None
        if cb is None:
            raise Unsupported('yield')
        body, live = cb

        def step(s, x):
            saved = self.yields.pop()
            try:
                res = []
                for s2, out in body(s, x):
                    if out is None or out == 'cont':
                        res.append((s2, None))
                    else:
                        res.append((s2, ('genexit', out)))
                return res
            finally:
                self.yields.append(saved)
        if isinstance(v, ast.YieldFrom):
            return self._lift_outs(
                self.eval(st, fr, v.value),
                lambda s, x: self.iterate_value(s, x, step, None))
        if v.value is None:
            return step(st, Con(None))
        return self._lift_outs(self.eval(st, fr, v.value), step)

    def s_Pass(self, st, fr, n):
        return [(st, None)]

    def s_Global(self, st, fr, n):
        return [(st, None)]

    s_Nonlocal = s_Global

    def s_Return(self, st, fr, n):
        if n.value is None:
            return [(st, ('ret', Con(None)))]
        return self._lift_outs(self.eval(st, fr, n.value),
                               lambda s, v: [(s, ('ret', v))])

    def s_If(self, st, fr, n):
        return self._lift_outs(
            self.cond(st, fr, n.test),
            lambda s, b: self.block(s, fr, n.body if b else n.orelse))

    def s_Break(self, st, fr, n):
        return [(st, ('break',))]

    def s_Continue(self, st, fr, n):
        return [(st, 'cont')]

    def s_Assert(self, st, fr, n):
        return self._lift_outs(
            self.cond(st, fr, n.test),
            lambda s, b: [(s, None if b else
                           ('raise', Raise(Exc(AssertionError))))])

    def s_Raise(self, st, fr, n):
        if n.exc is None:
            e = st.envs[fr.envs[0]].get('%exc')
            for k in fr.envs:
                if e is None:
                    e = st.envs.get(k, {}).get('%exc')
            if e is None:
                return [(st, ('raise', Raise(Exc(RuntimeError))))]
            return [(st, ('raise', Raise(e)))]

        def f(s, v):
            v = self.norm(s, v)
            if isinstance(v, Con) and isinstance(v.o, type) and issubclass(
                    v.o, BaseException):
                return [(s, ('raise', Raise(Exc(v.o))))]
            if isinstance(v, Exc):
                return [(s, ('raise', Raise(v)))]
            if isinstance(v, Con) and isinstance(v.o, BaseException):
                return [(s, ('raise', Raise(Exc(type(v.o)))))]
            if isinstance(v, Con) or isinstance(v, (Tup, Ref)):
                return [(s, ('raise', Raise(Exc(TypeError))))]
            raise Unsupported('raise of %r' % (v,))
        outs = self.eval(st, fr, n.exc)
        if n.cause is not None:
            outs = self.bind(outs, lambda s, v: self.bind(
                self.eval(s, fr, n.cause), lambda s2, _: [(s2, v)]))
        return self._lift_outs(outs, f)

    def s_FunctionDef(self, st, fr, n):
        if n.decorator_list:
            raise Unsupported('decorated nested function')

        def f(s, c):
            s.envs[fr.envs[0]][n.name] = c
            return [(s, None)]
        return self._lift_outs(self._closure(st, fr, n, n.name), f)

    def s_Import(self, st, fr, n):
        for a in n.names:
            m = __import__(a.name)
            if a.asname:
                for p in a.name.split('.')[1:]:
                    m = getattr(m, p)
            st.envs[fr.envs[0]][a.asname or a.name.split('.')[0]] = Con(m)
        return [(st, None)]

    def s_ImportFrom(self, st, fr, n):
        if n.level:
            raise Unsupported('relative import')
        m = __import__(n.module, fromlist=[a.name for a in n.names])
        for a in n.names:
            st.envs[fr.envs[0]][a.asname or a.name] = self.con(
                getattr(m, a.name))
        return [(st, None)]

    def s_Assign(self, st, fr, n):
        def f(s, v):
            outs = [(s, None)]
            for t in n.targets:
                nxt = []
                for s2, o in outs:
                    if o is not None:
                        nxt.append((s2, o))
                    else:
                        nxt.extend(self.assign(s2, fr, t, v))
                outs = nxt
            return outs
        return self._lift_outs(self.eval(st, fr, n.value), f)

    def s_AnnAssign(self, st, fr, n):
        if n.value is None:
            return [(st, None)]
        return self._lift_outs(self.eval(st, fr, n.value),
                               lambda s, v: self.assign(s, fr, n.target, v))

    def assign(self, st, fr, t, v):
        """statement outs"""
        if isinstance(t, ast.Name):
            self.store_name(st, fr, t.id, v)
            return [(st, None)]
        if isinstance(t, ast.Attribute):
            name = S.mangle(fr.kls, t.attr)
            return self._lift_outs(
                self.eval(st, fr, t.value),
                lambda s, o: self._lift_outs(self.setattr_(s, o, name, v),
                                             lambda s2, _: [(s2, None)]))
        if isinstance(t, ast.Subscript):
            if isinstance(t.slice, ast.Slice):
                sl = t.slice
                if sl.lower is None and sl.upper is None and sl.step is None:
                    return self._lift_outs(
                        self.eval(st, fr, t.value),
                        lambda s, o: self._lift_outs(
                            self.bmethod(s, '%setall', o, [v], {}),
                            lambda s2, _: [(s2, None)]))
                raise Unsupported('slice assignment')
            return self._lift_outs(
                self.evals(st, fr, [t.value, t.slice]),
                lambda s, vs: self._lift_outs(
                    self.setitem(s, vs[0], vs[1], v),
                    lambda s2, _: [(s2, None)]))
        if isinstance(t, (ast.Tuple, ast.List)):
            return self.unpack(st, fr, t.elts, v)
        raise Unsupported('assignment target')

    def unpack(self, st, fr, elts, v):
        self.ordered(st, self.norm(st, v))
        q = self.content(st, self.norm(st, v))
        if q is None:
            srcs = self.iter_sources(st, v)
            if not srcs or not all(isinstance(x, list) for x in srcs):
                if isinstance(v, (Sym, Con)) and self.kind(v) in (
                        'none', 'bool', 'int', 'flt'):
                    return [(st, ('raise', Raise(Exc(TypeError))))]
                if not isinstance(self.norm(st, v), Ref):
                    raise Unsupported('unpacking of %r' % (v,))
                out = []
                for s, l in self.call(st, Con(list), [v], {}):
                    if isinstance(l, Raise):
                        out.append((s, ('raise', l)))
                    else:
                        out.extend(self.unpack(s, fr, elts, l))
                return out
            q = SList([i for x in srcs for i in x])
        star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        l = self.aslist(q)
        if l is None:
            if star:
                raise Unsupported('starred unpacking')
            n = self.seqlen(st, q)
            out = []
            for s, b in self.branch(st, n == len(elts)):
                if b:
                    l2 = [self.elem(s, q, z3.IntVal(i))
                          for i in range(len(elts))]
                    out.extend(self._unpack(s, fr, elts, l2))
                else:
                    out.append((s, ('raise', Raise(Exc(ValueError)))))
            return out
        if star:
            i = star[0]
            after = len(elts) - i - 1
            if len(l) < len(elts) - 1:
                return [(st, ('raise', Raise(Exc(ValueError))))]
            mid = self.newlist(st, SList(l[i:len(l) - after]))
            return self._unpack(
                st, fr, [e.value if isinstance(e, ast.Starred) else e
                         for e in elts], l[:i] + [mid] + l[len(l) - after:])
        if len(l) != len(elts):
            return [(st, ('raise', Raise(Exc(ValueError))))]
        return self._unpack(st, fr, elts, l)

    def _unpack(self, st, fr, elts, vals):
        outs = [(st, None)]
        for e, x in zip(elts, vals):
            nxt = []
            for s, o in outs:
                if o is not None:
                    nxt.append((s, o))
                else:
                    nxt.extend(self.assign(s, fr, e, x))
            outs = nxt
        return outs

    def s_AugAssign(self, st, fr, n):
        t = n.target
        if isinstance(t, ast.Name):
            ld = ast.Name(id=t.id, ctx=ast.Load())
            ast.copy_location(ld, t)

            def f(s, vs):
                return self._lift_outs(
                    self.inplace(s, type(n.op), vs[0], vs[1]),
                    lambda s2, r: self.assign(s2, fr, t, r))
            return self._lift_outs(self.evals(st, fr, [ld, n.value]), f)
        if isinstance(t, ast.Attribute):
            name = S.mangle(fr.kls, t.attr)

            def f(s, o):
                return self._lift_outs(
                    self.getattr_(s, o, name),
                    lambda s2, old: self._lift_outs(
                        self.eval(s2, fr, n.value),
                        lambda s3, x: self._lift_outs(
                            self.inplace(s3, type(n.op), old, x),
                            lambda s4, r: self._lift_outs(
                                self.setattr_(s4, o, name, r),
                                lambda s5, _: [(s5, None)]))))
            return self._lift_outs(self.eval(st, fr, t.value), f)
        if isinstance(t, ast.Subscript) and not isinstance(t.slice,
                                                           ast.Slice):
            def f(s, vs):
                o, i, x = vs
                return self._lift_outs(
                    self.getitem(s, o, i),
                    lambda s2, old: self._lift_outs(
                        self.inplace(s2, type(n.op), old, x),
                        lambda s3, r: self._lift_outs(
                            self.setitem(s3, o, i, r),
                            lambda s4, _: [(s4, None)])))
            return self._lift_outs(
                self.evals(st, fr, [t.value, t.slice, n.value]), f)
        raise Unsupported('augmented assignment')

    def inplace(self, st, op, a, b):
        nm = IBIN.get(op)
        a = self.norm(st, a)
        cls, _ = self.cls_of(st, a)
        if nm and cls is not None and cls not in SIMPLE and cls is not tuple:
            f, _k = S.lookup(cls, nm)
            if isinstance(f, types.FunctionType):
                return self.call_function(st, f, [a, b], {})
            if f is not None and not isinstance(a, Tup):
                return self.bmethod(st, nm, a, [b], {})
        return self.binop(st, BIN[op], a, b)

    def s_Delete(self, st, fr, n):
        outs = [(st, None)]
        for t in n.targets:
            nxt = []
            for s, o in outs:
                if o is not None:
                    nxt.append((s, o))
                    continue
                if isinstance(t, ast.Name):
                    env = s.envs[fr.envs[0]]
                    if t.id not in env:
                        nxt.append((s, ('raise', Raise(Exc(
                            UnboundLocalError)))))
                    else:
                        del env[t.id]
                        nxt.append((s, None))
                elif isinstance(t, ast.Subscript) and not isinstance(
                        t.slice, ast.Slice):
                    nxt.extend(self._lift_outs(
                        self.evals(s, fr, [t.value, t.slice]),
                        lambda s2, vs: self._lift_outs(
                            self.delitem(s2, vs[0], vs[1]),
                            lambda s3, _: [(s3, None)])))
                elif isinstance(t, ast.Attribute):
                    nm = S.mangle(fr.kls, t.attr)
                    nxt.extend(self._lift_outs(
                        self.evals(s, fr, [t.value]),
                        lambda s2, vs: self._lift_outs(
                            self.delattr_(s2, vs[0], nm),
                            lambda s3, _: [(s3, None)])))
                else:
                    raise Unsupported('del')
            outs = nxt
        return outs

    def s_With(self, st, fr, n):
        it = n.items[0]
        if len(n.items) > 1:
            inner = ast.copy_location(ast.With(items=n.items[1:],
                                               body=n.body), n)
            n = ast.copy_location(ast.With(items=[it], body=[inner]), n)

        def f(s, cm):
            m = self.with_model(s, cm)
            if m is None:
                return self.with_object(s, fr, n, it, self.norm(s, cm))

            def g(s2, v):
                outs = [(s2, None)]
                if it.optional_vars is not None:
                    outs = self.assign(s2, fr, it.optional_vars, v)
                res = []
                for s3, o in outs:
                    res.extend([(s3, o)] if o is not None else
                               self.block(s3, fr, n.body))
                return res
            return self._lift_outs(m, g)
        return self._lift_outs(self.eval(st, fr, it.context_expr), f)

    def with_object(self, st, fr, n, it, cm):
        """with an object whose class has an __enter__ and an __exit__"""
        cls = self.cls_of(st, cm)[0] if isinstance(cm, Ref) else None
        if cls is None or not all(isinstance(
                S.lookup(cls, m)[0], types.FunctionType)
                for m in ('__enter__', '__exit__')):
            raise Unsupported('with %r' % (cm,))
        ex = S.lookup(cls, '__exit__')[0]

        def leave(s, o):
            if o is None or o[0] != 'raise':
                return self._lift_outs(
                    self.call(s, Con(ex), [cm] + [Con(None)] * 3, {}),
                    lambda s2, _: [(s2, o)])
            e = o[1].exc
            if cls.__name__ == 'suppress' and not e.exact:
                (s, q), = self.getattr_(s, cm, 'exceptions')
                cs = [c.o if isinstance(c, Con) else None
                      for c in self.aslist(self.content(s, q)) or [None]]
                if any(not isinstance(c, type) for c in cs):
                    raise Unsupported('exceptions of suppress')
                if any(issubclass(e.cls, c) for c in cs):
                    return [(s, None)]
                if not any(issubclass(c, e.cls) for c in cs):
                    return [(s, o)]
                return [(s2, None if yes else o) for s2, yes in
                        self.branch(s, self.exc_is(e, cs))]
            if not e.exact:
                raise Unsupported('exception of any kind leaving a with')
            return self._lift_outs(
                self.call(s, Con(ex), [cm, Con(e.cls), e, Con(None)], {}),
                lambda s2, v: self._lift_outs(
                    self.truth(s2, v),
                    lambda s3, b: [(s3, None if b else o)]))

        def entered(s, v):
            outs = [(s, None)]
            if it.optional_vars is not None:
                outs = self.assign(s, fr, it.optional_vars, v)
            res = []
            for s2, o in outs:
                # the assignment is inside the with, too
                for s3, o2 in ([(s2, o)] if o is not None else
                               self.block(s2, fr, n.body)):
                    res.extend(leave(s3, o2))
            return res
        return self._lift_outs(
            self.call(st, Con(S.lookup(cls, '__enter__')[0]), [cm], {}),
            entered)

    def with_model(self, st, cm):
        return None

    def s_Try(self, st, fr, n):
        res = []
        outs = self.block(st, fr, n.body)
        pend = []
        for s, o in outs:
            if o is not None and o[0] == 'raise':
                pend.extend(self._handlers(s, fr, n, o))
            elif o is None and n.orelse:
                pend.extend(self.block(s, fr, n.orelse))
            else:
                pend.append((s, o))
        if not n.finalbody:
            return pend
        for s, o in pend:
            for s2, o2 in self.block(s, fr, n.finalbody):
                res.append((s2, o if o2 is None else o2))
        return res

    def _handlers(self, st, fr, n, o):
        exc = o[1].exc
        res = []
        cur = [(st, exc)]
        for h in n.handlers:
            if not cur:
                break
            nxt = []
            for s, e in cur:
                if h.type is None:
                    res.extend(self._handle(s, fr, h, e))
                    continue
                for s2, C in self.eval(s, fr, h.type):
                    if isinstance(C, Raise):
                        res.append((s2, ('raise', C)))
                        continue
                    cs = [c.o for c in C.items] if isinstance(C, Tup) else \
                        [C.o if isinstance(C, Con) else None]
                    if any(not isinstance(c, type) for c in cs):
                        raise Unsupported('except clause type')
                    if any(issubclass(e.cls, c) for c in cs):
                        res.extend(self._handle(s2, fr, h, e))
                    elif e.exact or not any(issubclass(c, e.cls)
                                            for c in cs):
                        nxt.append((s2, e))
                    else:
                        # may or may not be of the handled class
                        b = self.exc_is(e, cs)
                        for s3, yes in self.branch(s2, b):
                            if yes:
                                sub = [c for c in cs if issubclass(c, e.cls)]
                                e2 = Exc(sub[0] if len(sub) == 1 else e.cls,
                                         False, e.args, e.attrs)
                                res.extend(self._handle(s3, fr, h, e2))
                            else:
                                nxt.append((s3, e))
            cur = nxt
        for s, e in cur:
            res.append((s, ('raise', Raise(e, o[1].line))))
        return res

    def exc_is(self, e, cs):
        return self.fresh('excis', B)

    def _handle(self, st, fr, h, e):
        env = st.envs[fr.envs[0]]
        old = env.get('%exc')
        env['%exc'] = e
        if h.name:
            env[h.name] = e
        res = []
        for s, o in self.block(st, fr, h.body):
            en = s.envs.get(fr.envs[0])
            if en is not None:
                if old is None:
                    en.pop('%exc', None)
                else:
                    en['%exc'] = old
                if h.name:
                    en.pop(h.name, None)
            res.append((s, o))
        return res

    # ------------------------------------------------------------ loops
    def _livefn(self, fr, loopnode):
        inside = set(id(x) for x in ast.walk(loopnode))
        names = set(x.id for x in _loads(fr.node) if id(x) not in inside)
        # names captured by closures or used by enclosing callbacks
        extra = list(self.live_extra)
        return lambda nm: nm in names or any(f(nm) for f in extra)

    def s_For(self, st, fr, n):
        live = self._livefn(fr, n)

        def body(s, x):
            outs = []
            for s2, o in self.assign(s, fr, n.target, x):
                if o is not None:
                    outs.append((s2, o))
                else:
                    outs.extend(self.block(s2, fr, n.body))
            return outs

        def withit(s, it):
            res = []
            for s2, o in self.iterate_value(s, it, body, live):
                if o == ('break',):
                    res.append((s2, None))
                elif o is None and n.orelse:
                    res.extend(self.block(s2, fr, n.orelse))
                else:
                    res.append((s2, o))
            return res
        return self._lift_outs(self.eval(st, fr, n.iter), withit)

    def s_While(self, st, fr, n):
        live = self._livefn(fr, n)
        inside_names = set(x.id for x in _loads(n.test))
        live2 = lambda nm: nm in inside_names or live(nm)

        def step(s, k):
            outs = []
            for s2, b in self.cond(s, fr, n.test):
                if isinstance(b, Raise):
                    outs.append((s2, ('raise', b)))
                elif b:
                    outs.extend(self.block(s2, fr, n.body))
                else:
                    outs.append((s2, 'exit'))
            return outs
        # a constant true guard with an iterator inside is not supported
        res = []
        for s2, o in self.loop(st, step, None, live2):
            if o == ('break',):
                res.append((s2, None))
            elif o is None and n.orelse:
                res.extend(self.block(s2, fr, n.orelse))
            else:
                res.append((s2, o))
        return res

    def iterate_value(self, st, v, body, live):
        """Statement outs of running body for every item of v."""
        v = self.norm(st, v)
        if isinstance(v, PushSrc):
            return v.run(st, body)
        self.ordered(st, v)
        if isinstance(v, Sym) and v.ty.kind == 'opt':
            out = []
            for s, isn in self.branch(st, Val.is_vnone(v.t)):
                if isn:
                    out.append((s, ('raise', Raise(Exc(TypeError)))))
                else:
                    s.refine[v.t.get_id()] = (v.t, v.ty.inner)
                    out.extend(self.iterate_value(
                        s, Sym(v.t, v.ty.inner), body, live))
            return out
        if isinstance(v, Ref):
            h = st.heap[v.id]
            if isinstance(h.src, GenV):
                if h.pos != 0:
                    return [(st, None)] if h.pos == 'done' else \
                        self._bad('partially consumed generator')
                h.pos = 'done'
                return self.run_comp(st, h.src.node, h.src.fr, body, live)
            if isinstance(h.src, GenCall):
                if h.pos != 0:
                    return [(st, None)] if h.pos == 'done' else \
                        self._bad('partially consumed generator')
                h.pos = 'done'
                return self.run_gen(st, h.src, body, live)
            if isinstance(h.src, PushSrc):
                if h.pos != 0:
                    return [(st, None)] if h.pos == 'done' else \
                        self._bad('partially consumed iterator')
                h.pos = 'done'
                return h.src.run(st, body)
            if h.src is not None:        # iterator over a sequence
                if h.pos == 'done':
                    return [(st, None)]
                pos = h.pos
                h.pos = 'done'
                if isinstance(h.src, IterSrc):
                    if pos != 0:
                        self._bad('partially consumed iterator')
                    return self.iterate_many(st, [h.src], body, live)
                q = self.content(st, h.src)
                if q is None:
                    self._bad('iterator')
                if pos:
                    l = self.aslist(q)
                    q = SList(l[pos:]) if l is not None else SSlice(q, pos)
                return self.iterate_many(st, self._seq_sources(st, q), body,
                                         live)
        if isinstance(v, IterSrc):
            return self.iterate_many(st, [v], body, live)
        cls, exact = self.cls_of(st, v)
        if cls is not None and self.content(st, v) is None and not (
                isinstance(v, Ref) and st.heap[v.id].mp is not None):
            f, k = S.lookup(cls, '__iter__')
            if isinstance(f, types.FunctionType):
                return self._lift_outs(
                    self.call(st, Con(f), [v], {}),
                    lambda s, it: self.iterate_value(s, it, body, live))
            if f is None and S.lookup(cls, '__getitem__')[0] is None and (
                    exact or cls in SIMPLE):
                return [(st, ('raise', Raise(Exc(TypeError))))]
            if isinstance(v, Sym) and v.ty.kind == 'str':
                raise Unsupported('iteration over a string')
        srcs = self.iter_sources(st, v)
        if srcs is None:
            raise Unsupported('iteration over %r' % (v,))
        outs = self.iterate_many(st, srcs, body, live)
        return outs

    def _bad(self, msg):
        raise Unsupported(msg)

    def run_gen(self, st, g, body, live):
        """Execute a generator function body, pushing items into body."""
        outer_live = live or (lambda nm: True)
        self.yields.append((body, live))
        self.live_extra.append(outer_live)
        st.calls.append(g.node)
        try:
            res = []
            for s, o in self.block(st, g.fr, g.node.body):
                s.calls.pop()
                if o is None or o[0] == 'ret':
                    res.append((s, None))
                elif o[0] == 'genexit':
                    res.append((s, o[1]))
                else:
                    res.append((s, o))
            return res
        finally:
            self.yields.pop()
            self.live_extra.pop()

    def run_comp(self, st, node, fr, body, live, elt=None):
        """Push the items of a comprehension into body."""
        e = self.new_env(st)
        self.compenvs[e] = True
        f2 = Frame(fr.glob, fr.kls, [e] + fr.envs, fr.node, fr.cells, fr.func)
        outer_live = live or (lambda nm: False)
        loads = set(x.id for x in _loads(fr.node)) if fr.node is not None \
            else set()

        def gen(s, i):
            if i == len(node.generators):
                if isinstance(node, ast.DictComp):
                    outs = self._lift_outs(
                        self.evals(s, f2, [node.key, node.value]),
                        lambda s2, kv: body(s2, Tup(kv)))
                else:
                    outs = self._lift_outs(self.eval(s, f2, node.elt), body)
                return outs
            g = node.generators[i]

            def step(s2, x):
                outs = []
                for s3, o in self.assign(s2, f2, g.target, x):
                    if o is not None:
                        outs.append((s3, o))
                    else:
                        outs.extend(ifs(s3, 0))
                return outs

            def ifs(s2, j):
                if j == len(g.ifs):
                    return gen(s2, i + 1)
                return self._lift_outs(
                    self.cond(s2, f2, g.ifs[j]),
                    lambda s3, b: ifs(s3, j + 1) if b else [(s3, None)])

            tnames = set(x.id for x in ast.walk(g.target)
                         if isinstance(x, ast.Name))
            return self._lift_outs(
                self.eval(s, f2 if i else fr_first(s), g.iter),
                lambda s2, it: self.iterate_value(
                    s2, it, step, outer_live))

        def fr_first(s):
            return fr
        self.live_extra.append(outer_live)
        try:
            outs = gen(st, 0)
        finally:
            self.live_extra.pop()
        for s, o in outs:
            if not getattr(s, 'keepenvs', False):
                s.envs.pop(e, None)
        return outs

    def e_ListComp(self, st, fr, n):
        r = self.newlist(st, SList([]))

        def body(s, x):
            h = s.heap[r.id]
            h.seq = self.cat(h.seq, SList([x]))
            return [(s, None)]
        return self._comp_outs(self.run_comp(st, n, fr, body, None), r)

    def _comp_outs(self, outs, r):
        res = []
        for s, o in outs:
            if o is None:
                res.append((s, r))
            elif o[0] == 'raise':
                res.append((s, o[1]))
            else:
                raise Unsupported('control flow in comprehension')
        return res

    def e_SetComp(self, st, fr, n):
        def fin(s, r):
            return self.mkset(s, s.heap[r.id].seq)
        return self.bind(self.e_ListComp(st, fr, n), fin)

    def e_DictComp(self, st, fr, n):
        r = self.alloc(st, dict, mp=MapC(None))

        def body(s, kv):
            h = s.heap[r.id]
            h.mp = h.mp.put(*kv.items)
            return [(s, None)]
        return self._comp_outs(self.run_comp(st, n, fr, body, None), r)

    def e_GeneratorExp(self, st, fr, n):
        st.keepenvs = True
        return [(st, self.alloc(st, types.GeneratorType, src=GenV(n, fr),
                                pos=0))]
