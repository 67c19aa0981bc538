"""Loop rule: inductive summaries of loops over sequences of any length."""
import ast
import itertools

import z3

from .terms import *          # noqa
from . import source as S
from .engine import Engine, State, HObj, NeedLive, FlatSrc, SIMPLE

MAXQ = 12


class Trans(object):
    __slots__ = ('src', 'dst', 'cond', 'out', 'state', 'assign', 'piece',
                 'store', 'facts', 'incs')

    def __init__(self, src, dst, cond, out, state):
        self.src, self.dst, self.cond = src, dst, cond
        self.out, self.state = out, state
        self.assign, self.piece, self.store, self.incs = {}, {}, {}, {}
        self.facts = []


class Restart(Exception):
    pass


ANYSEQ = object()


def _core(t):
    """the symbol a symbolic value is made of"""
    while t.num_args() == 1 and t.decl().name() in ('vstr', 'vint', 'vbool'):
        t = t.arg(0)
    return t


def _nosel(c):
    """the condition, whichever way the paths it joins were joined"""
    for i in range(5):
        todo, sel, seen = [c], None, set()
        while todo and sel is None:
            t = todo.pop()
            if t.get_id() in seen:
                continue
            seen.add(t.get_id())
            if z3.is_quantifier(t):
                todo.append(t.body())
                continue
            if z3.is_app(t):
                if t.decl().name().startswith('sel!'):
                    sel = t
                todo.extend(t.children())
        if sel is None:
            return c
        if any(z3.is_var(a) for a in sel.children()):
            return None
        c = z3.simplify(z3.Or(z3.substitute(c, (sel, TRUE)),
                              z3.substitute(c, (sel, FALSE))))
    return None


class Modes(dict):
    """abstraction mode per location; keep: lists of constant length"""

    def __init__(self):
        dict.__init__(self)
        self.keep = set()
        self.tent = set()       # constants given up to bound the states
        self.hold = set()       # ... that turned out to be needed
        self.rec = {}           # facts about values computed in the loop
        self.ety = {}           # element types of what grows in the loop


class Loops(Engine):

    # ---------------------------------------------------------- locations
    def locs(self, st):
        d = {}
        for e, env in st.envs.items():
            for nm, v in env.items():
                d[('env', e, nm)] = v
        for r, h in st.heap.items():
            for a, v in h.attrs.items():
                d[('attr', r, a)] = v
            if h.seq is not None:
                d[('seq', r)] = h.seq
            if h.mp is not None:
                d[('map', r)] = h.mp
            if h.pos is not None:
                d[('pos', r)] = h.pos
        for f, l in st.over.items():
            d[('over', f)] = tuple(l)
        for k, (t, q) in st.oseq.items():
            d[('oseq', k)] = q
        for k, (o, m) in st.omap.items():
            d[('omap', k)] = m
        return d

    def setloc(self, st, loc, v):
        k = loc[0]
        if k == 'env':
            st.envs[loc[1]][loc[2]] = v
        elif k == 'attr':
            st.heap[loc[1]].attrs[loc[2]] = v
        elif k == 'seq':
            st.heap[loc[1]].seq = v
        elif k == 'map':
            st.heap[loc[1]].mp = v
        elif k == 'pos':
            st.heap[loc[1]].pos = v
        elif k == 'over':
            st.over[loc[1]] = list(v)
        elif k == 'oseq':
            st.oseq[loc[1]] = (st.oseq[loc[1]][0] if loc[1] in st.oseq
                               else None, v)
        else:
            raise Unsupported('loop-modified %r' % (loc,))

    def samev(self, a, b):
        if a is b:
            return True
        if isinstance(a, Con) and isinstance(b, Con):
            if type(a.o) is type(b.o) and isinstance(
                    a.o, (str, int, float, bool, type(None))):
                return a.o == b.o
            return a.o is b.o
        if isinstance(a, Sym) and isinstance(b, Sym):
            return a.t.eq(b.t)
        if isinstance(a, Ref) and isinstance(b, Ref):
            return a.id == b.id
        if isinstance(a, Tup) and isinstance(b, Tup):
            return len(a.items) == len(b.items) and all(
                self.samev(x, y) for x, y in zip(a.items, b.items))
        if isinstance(a, (SList,)) and isinstance(b, SList):
            return len(a.items) == len(b.items) and all(
                self.samev(x, y) for x, y in zip(a.items, b.items))
        if isinstance(a, SBase) and isinstance(b, SBase):
            return a.oid.eq(b.oid)
        if isinstance(a, SCat) and isinstance(b, SCat):
            return len(a.parts) == len(b.parts) and all(
                self.samev(x, y) for x, y in zip(a.parts, b.parts))
        if isinstance(a, STab) and isinstance(b, STab):
            return self.samev(a.n, b.n) and self.samev(a.k, b.k) and \
                self.samev(a.val, b.val)
        if isinstance(a, SFlat) and isinstance(b, SFlat):
            return self.samev(a.n, b.n) and self.samev(a.k, b.k) and \
                len(a.cases) == len(b.cases) and all(
                    self.samev(x, y) for x, y in zip(
                        [i for c in a.cases for i in c],
                        [i for c in b.cases for i in c])) and \
                ((a.head is None and b.head is None) or
                 self.samev(a.head, b.head)) and \
                ((a.init is None and b.init is None) or
                 self.samev(a.init, b.init))
        if isinstance(a, SSlice) and isinstance(b, SSlice):
            return a.start == b.start and self.samev(a.base, b.base)
        if isinstance(a, tuple) and isinstance(b, tuple):
            return len(a) == len(b) and all(
                self.samev(x, y) for x, y in zip(a, b))
        if isinstance(a, MapC) and isinstance(b, MapC):
            return a.base is b.base and len(a.log) == len(b.log) and all(
                x[0] == y[0] and self.samev(x[1], y[1]) and
                (x[2] is y[2] or self.samev(x[2], y[2]))
                for x, y in zip(a.log, b.log))
        if z3.is_expr(a) and z3.is_expr(b):
            return a.eq(b)
        if isinstance(a, int) and isinstance(b, int):
            return a == b
        if isinstance(a, Bound) and isinstance(b, Bound):
            return a.f is b.f and self.samev(a.self, b.self)
        return False

    def vkey(self, v):
        if isinstance(v, Con):
            if isinstance(v.o, (str, int, float, bool, type(None))):
                return ('c', type(v.o).__name__, repr(v.o))
            return ('c', id(v.o))
        if isinstance(v, Sym):
            return ('s', v.t.get_id())
        if isinstance(v, Ref):
            return ('r', v.id)
        if isinstance(v, Tup):
            return ('t',) + tuple(self.vkey(i) for i in v.items)
        if isinstance(v, SList):
            return ('l',) + tuple(self.vkey(i) for i in v.items)
        if isinstance(v, int):
            return ('i', v)
        if z3.is_expr(v):
            return ('z', v.get_id())
        return ('id', id(v))

    def newconsts(self, v, k, loopsyms):
        return self._has(v, [k] + loopsyms)

    def _has(self, v, consts):
        if isinstance(v, (Sym, Tup, SeqV, Rec, Bound)):
            return vhas(v, consts)
        if isinstance(v, (SList, SBase, STab, SCat, SFlat, SSlice, SStore)):
            return qhas(v, consts)
        if z3.is_expr(v):
            return term_has(v, consts)
        if isinstance(v, tuple):
            return any(self._has(x, consts) for x in v)
        if isinstance(v, MapC):
            return any(self._has(x[1], consts) or (
                x[2] is not None and self._has(x[2], consts))
                for x in v.log) or (v.base is not None and
                                    term_has(v.base, consts))
        if isinstance(v, IterSrc):
            return False
        return False

    # ---------------------------------------------------------- freezing
    def freeze(self, st, v, older):
        """Replace references to objects allocated in this iteration by
        immutable records."""
        if isinstance(v, Ref) and v.id not in older:
            h = st.heap[v.id]
            if h.mp is not None:
                if h.mp.base is None and not h.mp.log:
                    return Rec(h.cls, {})
                raise Unsupported('dictionary escaping a loop iteration')
            return Rec(h.cls, {a: self.freeze(st, x, older)
                               for a, x in h.attrs.items()},
                       None if h.seq is None else
                       self.freezeq(st, h.seq, older))
        if isinstance(v, Tup):
            return Tup([self.freeze(st, i, older) for i in v.items])
        if isinstance(v, SeqV):
            return SeqV(self.freezeq(st, v.seq, older), v.cls)
        return v

    def freezeq(self, st, q, older):
        if isinstance(q, SList):
            return SList([self.freeze(st, i, older) for i in q.items])
        if isinstance(q, SCat):
            return SCat([self.freezeq(st, p, older) for p in q.parts])
        if isinstance(q, STab):
            return STab(q.n, q.k, self.freeze(st, q.val, older))
        if isinstance(q, SFlat):
            return SFlat(q.n, q.k, [(c, self.freezeq(st, p, older))
                                    for c, p in q.cases], q.head, q.init)
        if isinstance(q, SStore):
            return SStore(self.freezeq(st, q.base, older), q.idx,
                          self.freeze(st, q.val, older))
        return q

    # ---------------------------------------------------------- main entry
    def iterate(self, st, src, body, live=None):
        """Run body(st, value) for each element of src.
        live(name) tells whether a local is read outside the loop.
        returns [(st, out)]; out is None when the source is exhausted."""
        if isinstance(src, list):
            results = []
            cur = [st]
            npc, nfacts = len(st.pc), len(st.facts)
            for item in src:
                nxt = []
                for s in cur:
                    for s2, out in body(s, item):
                        if out is None or out == 'cont':
                            nxt.append(s2)
                        else:
                            results.append((s2, out))
                cur = nxt
                if len(cur) > 1 and not self.nomerge:
                    cur = self.merge_states(cur, npc, nfacts)
                if len(cur) + len(results) > self.MAXPATHS:
                    raise Unsupported('too many paths')
            return results + [(s, None) for s in cur]
        if isinstance(src, FlatSrc):
            q = src.seq

            def step(s, k):
                outs = []
                for i, (c, p) in enumerate(q.cases):
                    c2 = ssub(c, [(q.k, k)])
                    s2 = s.copy()
                    if not self.feasible(s2, [c2]):
                        continue
                    s2.add(c2)
                    p2 = qsub(p, [(q.k, k)])
                    todo = [s2]
                    for src2 in self._seq_sources(s2, p2):
                        nxt = []
                        for t in todo:
                            for t2, out in self.iterate(t, src2, body, live):
                                if out is None:
                                    nxt.append(t2)
                                else:
                                    outs.append((t2, out))
                        todo = nxt
                    outs.extend((t, None) for t in todo)
                return outs
            return self.loop(st, step, q.n, live)

        def step(s, k):
            return body(s, src.get(s, k))
        n = z3.simplify(src.n)
        if z3.is_int_value(n) and n.as_long() <= 40:
            return self.iterate(st, [src.get(st, z3.IntVal(i))
                                     for i in range(n.as_long())], body, live)
        return self.loop(st, step, n, live)

    # ---------------------------------------------------------- merging
    def _merge_raises(self, outs, npc, nfacts):
        """join the ways out of a loop by exceptions of one class"""
        groups, res = {}, []
        for s, o in outs:
            e = o[1].exc if isinstance(o, tuple) and len(o) == 2 and \
                o[0] == 'raise' and isinstance(o[1], Raise) else None
            if isinstance(e, Exc) and not e.attrs:
                g = groups.setdefault((e.cls, e.exact), [])
                for i, (t, p) in enumerate(g):
                    m = self._merge2(t, s, npc, nfacts)
                    if m is not None:
                        g[i] = (m, p)
                        self.stats['merged'] = self.stats.get(
                            'merged', 0) + 1
                        break
                else:
                    g.append((s, o))
            else:
                res.append((s, o))
        for g in groups.values():
            for s, o in g:
                e = o[1].exc
                if len(g) and (s, o) not in outs:
                    o = ('raise', Raise(Exc(e.cls, e.exact, None), o[1].line))
                res.append((s, o))
        return res

    def merge_states(self, states, npc, nfacts):
        """Join states that differ only in values that can be joined.  A
        fresh selector says which of the joined paths was taken, so nothing
        is lost."""
        out = []
        for s in states:
            for i, t in enumerate(out):
                m = self._merge2(t, s, npc, nfacts)
                if m is not None:
                    out[i] = m
                    self.stats['merged'] = self.stats.get('merged', 0) + 1
                    break
            else:
                out.append(s)
        return out

    def _merge2(self, a, b, npc, nfacts):
        for x, y in zip(a.pc[:npc], b.pc[:npc]):
            if not x.eq(y):
                return None
        la, lb = self.locs(a), self.locs(b)
        sel = self.fresh('sel', B)
        new = {}
        for l in set(la) | set(lb):
            if l not in la or l not in lb:
                # a location of one path only: fine when nothing the other
                # path has refers to it (objects and frames it allocated)
                if l[0] == 'env':
                    if l[1] in a.envs and l[1] in b.envs:
                        new[l] = DEAD
                elif l[0] in ('attr', 'seq', 'map', 'pos'):
                    if l[1] in a.heap and l[1] in b.heap:
                        return None
                else:
                    return None
                continue
            x, y = la[l], lb[l]
            if self.samev(x, y):
                continue
            if x is DEAD or y is DEAD:
                if l[0] != 'env':
                    return None
                new[l] = DEAD
                continue
            m = self._mergeval(sel, x, y, l)
            if m is None:
                if l[0] == 'env':
                    new[l] = DEAD
                    continue
                return None
            new[l] = m
        s = a.copy()
        for e, env in b.envs.items():
            if e not in s.envs:
                s.envs[e] = dict(env)
        for r, h in b.heap.items():
            if r not in s.heap:
                s.heap[r] = h.copy()
        for l, v in new.items():
            self.setloc(s, l, v)
        pa, pb = a.pc[npc:], b.pc[npc:]
        ca = z3.And(pa) if pa else TRUE
        cb = z3.And(pb) if pb else TRUE
        s.pc = list(a.pc[:npc]) + [z3.And(z3.Implies(sel, ca),
                                          z3.Implies(z3.Not(sel), cb))]
        ids = set(f.get_id() for f in a.facts)
        s.facts = list(a.facts[:nfacts])
        both = set(f.get_id() for f in b.facts)
        for f in a.facts[nfacts:]:
            s.facts.append(f if f.get_id() in both else z3.Implies(sel, f))
        for f in b.facts[nfacts:]:
            if f.get_id() not in ids:
                s.facts.append(z3.Implies(z3.Not(sel), f))
        seen = set(a.writes)
        s.writes = list(a.writes) + [w for w in b.writes if w not in seen]
        s.refine = {k: v for k, v in a.refine.items()
                    if k in b.refine and b.refine[k][1] is v[1]}
        s.insts = {k: {c: t for c, t in d.items()
                       if c in b.insts.get(k, {})}
                   for k, d in a.insts.items()}
        return s

    def _mergeval(self, sel, x, y, loc):
        if isinstance(x, (Con, Sym)) and isinstance(y, (Con, Sym)):
            if isinstance(x, Con) and not isinstance(
                    x.o, (bool, int, str, type(None))):
                return None
            if isinstance(y, Con) and not isinstance(
                    y.o, (bool, int, str, type(None))):
                return None
            tx, ty = self.tyof(x), self.tyof(y)
            if tx.kind == 'bool' and ty.kind == 'bool':
                return self.mkbool(z3.simplify(z3.If(
                    sel, self.bt(self.lift(x)), self.bt(self.lift(y)))))
            if tx.kind == 'int' and ty.kind == 'int':
                return self.mkint(z3.simplify(z3.If(
                    sel, self.zint(x), self.zint(y))))
            if tx.kind == 'str' and ty.kind == 'str':
                return Sym(Val.vstr(z3.If(sel, self.stt(self.lift(x)),
                                          self.stt(self.lift(y)))), STR)
            return None
        if isinstance(x, SList) and isinstance(y, SList) and \
                len(x.items) == len(y.items):
            items = []
            for p, q in zip(x.items, y.items):
                m = p if self.samev(p, q) else self._mergeval(sel, p, q, loc)
                if m is None:
                    return None
                items.append(m)
            return SList(items)
        return None

    def iterate_many(self, st, srcs, body, live=None):
        results, cur = [], [st]
        for src in srcs:
            nxt = []
            for s in cur:
                for s2, out in self.iterate(s, src, body, live):
                    if out is None:
                        nxt.append(s2)
                    else:
                        results.append((s2, out))
            cur = nxt
        return results + [(s, None) for s in cur]

    # ---------------------------------------------------------- the rule
    def loop(self, st0, step, n, live=None):
        """n: number of iterations (z3 Int) or None for while loops, where
        step yields out == 'exit' when the guard fails."""
        if self.unroll is not None:
            return self.loop_unrolled(st0, step, n)
        self.stats['loops'] += 1
        modes = Modes()
        for attempt in range(30):
            try:
                return self._loop(st0, step, n, live, modes)
            except Restart:
                continue
            except NeedLive as e:
                if e.loc in modes.tent and e.loc not in modes.hold:
                    del modes[e.loc]
                    modes.hold.add(e.loc)
                    continue
                if e.loc in modes and modes[e.loc] == 'dead':
                    modes[e.loc] = 'W'
                    continue
                raise
        raise Unsupported('no stable loop abstraction')

    def loop_unrolled(self, st0, step, n):
        res, cur = [], [st0]
        for i in range(self.unroll + 1):
            nxt = []
            for s in cur:
                if n is not None:
                    for s2, more in self.branch(s, n > i):
                        if not more:
                            res.append((s2, None))
                        elif i < self.unroll:
                            for s3, out in step(s2, z3.IntVal(i)):
                                if out is None or out == 'cont':
                                    nxt.append(s3)
                                else:
                                    res.append((s3, out))
                elif i < self.unroll:
                    for s3, out in step(s, z3.IntVal(i)):
                        if out is None or out == 'cont':
                            nxt.append(s3)
                        elif out == 'exit':
                            res.append((s3, None))
                        else:
                            res.append((s3, out))
            cur = nxt
        return res

    def _loop(self, st0, step, n, live, modes):
        k = z3.Int('k!%d' % self.uid())
        base = self.locs(st0)
        older = set(st0.heap)
        rngcond = [k >= 0] + ([k < n] if n is not None else [])
        heads = {}       # loc -> head value (W / N / acc / affine), shared

        def headval(loc):
            if loc in heads:
                return heads[loc]
            m = modes[loc]
            self.ctx.append(k)
            try:
                if m == 'acc':
                    h = self.fresh('acc', I)
                    if loc not in modes.ety and loc not in modes.keep:
                        g = self._guessety(st0, loc)
                        if g is not None:
                            modes.ety[loc] = g
                    ety = (loc not in modes.keep and modes.ety.get(loc) or
                           self._seqety(base.get(loc)))
                    v = SBase(h, ety)
                elif m == 'N':
                    v = Sym(Val.vint(self.fresh('cnt', I)), INT)
                elif isinstance(m, tuple) and m[0] == 'affine':
                    if isinstance(base[loc], Con):
                        v = self.mkint(z3.simplify(
                            z3.IntVal(base[loc].o) + m[1] * k))
                    else:
                        v = Sym(Val.vint(z3.simplify(
                            self.zint(base[loc]) + m[1] * k)), INT)
                elif m == 'W' or (isinstance(m, tuple) and m[0] == 'W'):
                    ty = m[1] if isinstance(m, tuple) else ANY
                    v = self.fresh_typed(st0, 'w', ty)
                elif isinstance(m, tuple) and m[0] == 'fold':
                    v = Sym(Val.vstr(self.fresh('fold', I)), STR)
                elif isinstance(m, tuple) and m[0] == 'rec':
                    tmp = State()
                    v = self.fresh_typed(tmp, 'rec', m[1])
                    modes.rec[loc] = tmp.facts + tmp.pc
                else:
                    raise Unsupported('mode %r' % (m,))
            finally:
                self.ctx.pop()
            heads[loc] = v
            return v

        def isW(loc):
            m = modes.get(loc)
            return m == 'W' or (isinstance(m, tuple) and m[0] == 'W')

        def head_state(q):
            s = st0.copy()
            for loc, m in modes.items():
                if m == 'dead':
                    self._kill(s, loc)
                elif m in ('acc', 'N') or (isinstance(m, tuple) and
                                           m[0] in ('affine', 'fold',
                                                    'rec')):
                    self.setloc(s, loc, headval(loc))
                    if loc in modes.rec:
                        s.facts.extend(modes.rec[loc])
                    if m == 'N':
                        s.fact(self.it(heads[loc].t) >=
                               self.zint(base[loc]))
                    if m == 'acc':
                        s.fact(LEN(heads[loc].oid) >= 0)
                        if loc in modes.keep:
                            s.fact(LEN(heads[loc].oid) ==
                                   self.seqlen(s, base[loc]))
            for loc, v in q:
                if v == 'W':
                    self.setloc(s, loc, headval(loc))
                else:
                    self.setloc(s, loc, v)
            return s

        states = {}
        order = []
        trans = []
        work = []

        def getq(items):
            key = tuple(sorted((repr(l), v if v == 'W' else self.vkey(v))
                               for l, v in items))
            if key not in states:
                if len(states) >= MAXQ:
                    return None
                states[key] = len(order)
                order.append(items)
                work.append(states[key])
            return states[key]

        getq(())
        genf = []
        while work:
            qi = work.pop(0)
            s = head_state(order[qi])
            n0, f0 = len(s.pc), len(s.facts)
            nw0 = len(s.writes)
            for c in rngcond:
                s.add(c)
            n1 = len(s.pc)
            self.ctx.append(k)
            try:
                outs = step(s, k)
                if not self.nomerge:
                    outs = self._merge_raises(outs, n1, f0)
            finally:
                self.ctx.pop()
            for s2, out in self._splitbools(outs, st0, base, modes, live):
                genf.extend(s2.facts[f0:])
                conds = [c for c in s2.pc[n1:]]
                cond = z3.And(conds) if len(conds) != 1 else conds[0]
                if not conds:
                    cond = TRUE
                t = Trans(qi, None, cond, out, s2)
                trans.append(t)
                if out not in (None, 'cont'):
                    continue
                t.out = None
                self._classify(st0, s2, base, modes, heads, older, k, order,
                               qi, t, getq, live)
        self._elemtypes(base, modes, heads, trans)
        # generalise facts established inside the iteration
        seen = set()
        gfacts = []
        for f in genf:
            if f.get_id() in seen:
                continue
            seen.add(f.get_id())
            if term_has(f, [k]):
                v = z3.Int('g!%d' % self.uid())
                gfacts.append(z3.ForAll([v], ssub(f, [(k, v)])))
            else:
                gfacts.append(f)
        wr = []
        for t in trans:
            for w in t.state.writes[len(st0.writes):]:
                if w not in wr:
                    wr.append(w)
        return self._finish(st0, n, k, base, modes, heads, order, trans,
                            gfacts, wr, older)

    def _splitbools(self, outs, st0, base, modes, live):
        """A flag that was there before the loop and is computed in it
        (matched = matched or f(x)): one step for either value"""
        for s2, out in outs:
            todo = [s2]
            new = self.locs(s2)
            for loc, b in base.items():
                v = new.get(loc)
                if loc[0] != 'env' or modes.get(loc) is not None or \
                        not isinstance(v, Sym) or v is b or \
                        out not in (None, 'cont') or \
                        v.ty.kind != 'bool' or self.kind(b) != 'bool' or \
                        self.samev(v, b) or \
                        live is None or not live(loc[2]):
                    continue
                nxt = []
                for s in todo:
                    for val in (True, False):
                        s3 = s.copy()
                        c = z3.simplify(self.bt(v.t))
                        s3.add(c if val else z3.Not(c))
                        if self.feasible(s3):
                            self.setloc(s3, loc, Con(val))
                            nxt.append(s3)
                todo = nxt
                if len(todo) > 8:
                    break
            for s in todo:
                yield s, out

    def _guessety(self, st, loc):
        """the type a list of ours says its items have: a guess, which
        _elemtypes then shows, or drops"""
        h = st.heap.get(loc[1]) if loc[0] == 'seq' else None
        t = h and h.attrs.get('_TypedList__elementType')
        if isinstance(t, Con) and isinstance(t.o, type) and \
                t.o not in SIMPLE:
            return Ty('inst', t.o, False)
        return None

    def _elemtypes(self, base, modes, heads, trans):
        """By induction: what the list holds at the loop head is what it held
        before and what the iterations before appended."""
        for loc, h in heads.items():
            if modes.get(loc) != 'acc' or not isinstance(h, SBase) or \
                    loc in modes.keep:
                continue
            ty = None
            parts = [] if base.get(loc) is None else [base[loc]]
            for t in trans:
                if t.out is None:
                    if t.piece.get(loc) is None:
                        parts = [ANYSEQ]
                        break
                    parts.append(t.piece[loc])
            for p in parts:
                if isinstance(p, SList) and not p.items:
                    continue
                ty = self.join(ty, ANY if p is ANYSEQ else self._seqety(p))
            old = modes.ety.get(loc)
            if ty is None or ty.kind != 'inst':
                ty = ANY
            if old is None:
                if ty.kind == 'inst' and (h.ety or ANY).kind == 'any' and \
                        any(term_has(t.cond, [h.oid]) for t in trans):
                    modes.ety[loc] = Ty('inst', ty.cls, False)
                    raise Restart()
            elif old.kind == 'inst' and not (
                    ty.kind == 'inst' and issubclass(ty.cls, old.cls)):
                modes.ety[loc] = ANY
                raise Restart()

    def _seqety(self, q):
        def parts(x):
            return x.parts if isinstance(x, SCat) else [x]
        ty = None
        if q is None:
            return ANY
        for p in parts(q):
            if isinstance(p, SBase):
                ty = self.join(ty, p.ety)
            elif isinstance(p, SList):
                for i in p.items:
                    ty = self.join(ty, self.tyof(i))
            else:
                ty = ANY
        return ty or ANY

    def _kill(self, s, loc):
        if loc[0] == 'env':
            d = Dead()
            s.envs[loc[1]][loc[2]] = d
        elif loc[0] == 'attr':
            s.heap[loc[1]].attrs[loc[2]] = DEAD

    def _classify(self, st0, s2, base, modes, heads, older, k, order, qi, t,
                  getq, live):
        new = self.locs(s2)
        syms = []
        for h in heads.values():
            if isinstance(h, Sym):
                syms.append(h.t)
            elif isinstance(h, SBase):
                syms.append(h.oid)
        items = []
        qd = dict(order[qi])
        for loc in set(new) | set(base):
            if loc[0] == 'env' and loc[1] not in st0.envs:
                continue
            if loc[0] in ('attr', 'seq', 'map', 'pos') and \
                    loc[1] not in older:
                continue
            v = new.get(loc)
            b = base.get(loc)
            m = modes.get(loc)
            if isinstance(v, Dead):
                continue
            if m == 'dead':
                continue
            if v is None:
                if b is not None:
                    if loc[0] == 'env':
                        items.append((loc, DEAD))
                        continue
                    raise Unsupported('location removed in loop')
                continue
            if m == 'acc':
                self._accum(loc, v, heads[loc], k, t, s2, older, modes)
                continue
            if m == 'N':
                hv = heads[loc]
                d = z3.simplify(self.zint(v) - self.it(hv.t)) if self.kind(
                    v) == 'int' else None
                if d is None or not z3.is_int_value(d) or d.as_long() < 0:
                    modes[loc] = ('W', ANY)
                    raise Restart()
                t.incs[loc] = d.as_long()
                continue
            if isinstance(m, tuple) and m[0] == 'affine':
                want = z3.simplify(self.zint(base[loc]) + m[1] * (k + 1))
                got = z3.simplify(self.zint(v)) if self.kind(v) == 'int' \
                    else None
                if got is None or not (got.eq(want) or z3.is_true(
                        z3.simplify(got == want))):
                    modes[loc] = 'N' if m[1] >= 0 else ('W', ANY)
                    raise Restart()
                continue
            if isinstance(m, tuple) and m[0] == 'fold':
                self._fold(loc, v, heads[loc], k, t, modes)
                continue
            if isinstance(m, tuple) and m[0] == 'rec':
                if not isinstance(v, (Sym, Con)):
                    raise Unsupported('loop computes %r' % (v,))
                j = self.join(m[1], self.tyof(v))
                if repr(j) != repr(m[1]) or repr(j.inner) != repr(
                        m[1].inner):
                    modes[loc] = ('rec', j)
                    raise Restart()
                if not self.samev(v, heads[loc]):
                    t.assign[loc] = v
                continue
            if b is not None and self.samev(v, b):
                continue
            inW = qd.get(loc) == 'W'
            if inW and self.samev(v, heads[loc]):
                items.append((loc, 'W'))
                continue
            # changed relative to the loop entry
            dep = self._has(v, [k] + syms)
            fresh_ref = isinstance(v, Ref) and v.id not in older
            if fresh_ref and not (loc[0] == 'env'):
                v = self.freeze(s2, v, older)
                dep = True
            if loc[0] in ('seq', 'oseq'):
                if not dep and isinstance(v, SList) and isinstance(
                        b, SList) and len(v.items) == len(b.items):
                    v2 = self.freezeq(s2, v, older)
                    if all(not isinstance(i, Rec) for i in v2.items):
                        items.append((loc, v2))
                        continue
                modes[loc] = 'acc'
                raise Restart()
            if not dep and not fresh_ref and not isinstance(
                    v, (Rec, GenV)):
                if isinstance(v, Con) and isinstance(v.o, int) and \
                        not isinstance(v.o, bool) and isinstance(
                            b, Con) and isinstance(b.o, int) and \
                        not isinstance(b.o, bool):
                    # integer counter
                    if self._counts(order, loc) >= 2 or (
                            loc not in dict(order[0]) and
                            v.o == b.o + 1 and False):
                        modes[loc] = ('affine', v.o - self._intat(
                            order, qi, loc, b.o))
                        raise Restart()
                items.append((loc, v))
                continue
            # depends on the element (or on another head symbol)
            if loc[0] == 'env' and m is None and (
                    live is None or not live(loc[2])):
                modes[loc] = 'dead'
                raise Restart()
            if loc[0] == 'env' and m is None and b is None and \
                    loc[2] not in self.force_live:
                modes[loc] = 'dead'
                raise Restart()
            if self.kind(v) == 'int' and b is not None and \
                    self.kind(b) == 'int' and m is None and \
                    isinstance(v, Sym):
                # x' = x + c with symbolic start
                d = z3.simplify(self.it(v.t) - self.zint(b))
                if z3.is_int_value(d):
                    modes[loc] = ('affine', d.as_long())
                    raise Restart()
            if self.kind(v) == 'str' and b is not None and self.kind(
                    b) == 'str' and m is None and loc[0] == 'env' and \
                    isinstance(v, Sym) and self._is_concat(v, b):
                modes[loc] = ('fold',)
                raise Restart()
            if fresh_ref:
                if m is None:
                    v = self.freeze(s2, v, older)
                else:
                    v = self.freeze(s2, v, older)
            if isinstance(v, (Rec, SeqV, Tup, GenV, Closure, Bound)) or \
                    isinstance(v, (SFlat, SCat, STab, SStore, MapC)):
                if loc[0] == 'env':
                    modes[loc] = 'dead'
                    raise Restart()
                raise Unsupported('loop assigns %s to %r' % (
                    type(v).__name__, loc))
            if loc[0] == 'pos':
                raise Unsupported('iterator position in loop')
            if loc[0] in ('over', 'omap', 'map'):
                raise Unsupported('loop modifies input object %r' % (loc,))
            if isinstance(v, Ref):
                raise Unsupported('loop assigns object to %r' % (loc,))
            ty = self.tyof(v)
            if not isinstance(m, tuple):
                modes[loc] = ('W', ty)
                raise Restart()
            j = self.join(m[1], ty)
            if repr(j) != repr(m[1]):
                modes[loc] = ('W', j)
                raise Restart()
            if loc[0] == 'env' and loc in heads and isinstance(
                    heads[loc], Sym) and isinstance(v, Sym) and \
                    isinstance(b, (Con, Sym)) and term_has(
                        v.t, [_core(heads[loc].t)]):
                # a value computed from the one before
                rt = self.join(j, self.tyof(b))
                if rt.kind in ('str', 'opt'):
                    modes[loc] = ('rec', rt)
                    raise Restart()
            t.assign[loc] = v
            items.append((loc, 'W'))
        items.sort(key=lambda x: repr(x[0]))
        q = getq(tuple(items))
        if q is None:
            # too many abstract states: widen an integer, else give up
            for loc, v in items:
                if isinstance(v, Con) and isinstance(v.o, int) and \
                        loc not in modes:
                    modes[loc] = 'N'
                    raise Restart()
            gone = [loc for loc in sorted(set(
                        l for it in order + [items] for l, v in it), key=repr)
                    if loc[0] == 'env' and loc not in modes and
                    loc not in modes.hold and loc[2] not in
                    self.force_live and not (live is not None and
                                             live(loc[2]))]
            for loc in gone:
                modes[loc] = 'dead'
                modes.tent.add(loc)
            if gone:
                raise Restart()
            raise Unsupported('too many abstract loop states')
        t.dst = q

    def _counts(self, order, loc):
        return len(set(v.o for items in order for l, v in items
                       if l == loc and isinstance(v, Con)))

    def _intat(self, order, qi, loc, init):
        for l, v in order[qi]:
            if l == loc:
                return v.o
        return init

    def _is_concat(self, v, b):
        t = self.stt(v.t)
        return z3.is_app(t) and t.decl().name() == 'STRCAT'

    def _fold(self, loc, v, head, k, t, modes):
        ht = self.stt(head.t)
        vt = self.stt(v.t)
        if vt.eq(ht):
            t.assign[loc] = None
            return
        t.assign[loc] = v

    def _accum(self, loc, v, head, k, t, s2, older, modes):
        v = self.freezeq(s2, v, older)
        ho = head.oid

        def ishead(p):
            return isinstance(p, SBase) and p.oid.eq(ho)
        if ishead(v):
            t.piece[loc] = SList([])
            return
        if isinstance(v, SCat) and ishead(v.parts[0]):
            rest = v.parts[1:]
            t.piece[loc] = rest[0] if len(rest) == 1 else SCat(rest)
            return
        if isinstance(v, SStore) and ishead(v.base):
            if loc not in modes.keep:
                modes.keep.add(loc)
                raise Restart()
            t.store[loc] = (v.idx, v.val)
            t.piece[loc] = None
            return
        raise Unsupported('list modified in a loop other than by appending '
                          'or element assignment: %r' % (v,))

    def _count(self, s, loc, cont, k, K, nq, stores):
        """The sum of what the first K iterations add, as a function of the
        condition under which an iteration adds: two loops that count under
        the same condition yield the same term.  None when what an iteration
        adds depends on the abstract state."""
        if stores:
            return None
        sets = set()
        some, none = [], []
        for q in range(nq):
            mine = []
            for t in cont:
                if t.src == q:
                    d = t.incs.get(loc, 0)
                    (some if d else none).append((d, t.cond))
                    mine.append((d, t.cond))
            sets.add(self.count_key(mine, k))
        if len(sets) != 1 or not some:
            return None
        for d, c in some:
            for d2, c2 in none + some:
                if d2 != d:
                    sv = z3.Solver()
                    sv.set('timeout', 1000)
                    sv.add(c, c2)
                    if sv.check() != z3.unsat:
                        return None
        mine = [(t.incs.get(loc, 0), t.cond) for t in cont if t.src == 0]
        return self.count_term(sets.pop(), K, s, mine, k)

    def _prefixval(self, l, base, h, k, cont, reach, gfacts, tfacts, stores):
        """A value computed from the one before, whatever the abstract state:
        as for lists that grow."""
        j = z3.Int('g!%d' % self.uid())

        def at(t, x):
            return ssub(t, [(k, x)])
        b = self.lift(base[l])
        gfacts.append(at(h, z3.IntVal(0)) == b)
        mine = at(h, j)
        for f in tfacts:
            gfacts.append(z3.ForAll([j], at(f, j), patterns=[mine]))
        if stores:
            return

        def unsat(*fs):
            sv = z3.Solver()
            sv.set('timeout', 3000)
            sv.add(*fs)
            return sv.check() == z3.unsat
        steps, keep = [], []
        for t in cont:
            if t.src in reach[0]:
                c = _nosel(t.cond)
                if c is None:
                    return
                if l in t.assign:
                    steps.append((c, self.lift(t.assign[l])))
                else:
                    keep.append(c)
        tf = list(tfacts)
        for i, (c, x) in enumerate(steps):
            if not all(unsat(c, d, x != y, *tf) for d, y in
                       [(d, h) for d in keep] + steps[:i]):
                return
        ctx = list(self.ctx)
        for k0, h0, ctx0, b0, steps0, facts0 in self.prefixvals:
            if len(ctx0) != len(ctx) or any(
                    not a.eq(c) for a, c in zip(ctx, ctx0)) or \
                    not unsat(b != b0):
                continue
            sub = [(h0, h), (k0, k)]
            g0 = [(ssub(c, sub), ssub(x, sub)) for c, x in steps0]
            fs = [ssub(f, sub) for f in facts0] + list(gfacts) + tf + [
                k >= 0]
            none = z3.Not(z3.Or([c for c, x in g0]))
            if all(unsat(c, z3.Not(z3.Or([z3.And(d, x == y) for d, y in g0] +
                                         [z3.And(none, x == h)])), *fs)
                   for c, x in steps + [(c, h) for c in keep]):
                gfacts.append(z3.ForAll([j], mine == ssub(h0, [(k0, j)]),
                                        patterns=[mine]))
                self.stats['prefix'] = self.stats.get('prefix', 0) + 1
                return
        self.prefixvals.append((k, h, ctx, b, steps, list(gfacts) + tf))

    def _lockstep(self, appends, read, base, heads, k, cont, reach, gfacts):
        """Lists that grow together, by items of which one is a function of
        the other: so they agree, item by item, after any number of
        iterations.  [the lists so related to one that is read]"""
        def items(l):
            if not isinstance(base.get(l), SList) or base[l].items or \
                    not isinstance(heads.get(l), SBase):
                return None
            r = []
            for t in cont:
                if t.src not in reach[0]:
                    continue
                p = t.piece.get(l)
                if p is None or isinstance(p, SList) and not p.items:
                    r.append(None)
                elif isinstance(p, SList) and len(p.items) == 1 and \
                        isinstance(p.items[0], Sym):
                    r.append(p.items[0].t)
                    types.setdefault(l, []).append(p.items[0].ty)
                else:
                    return None
            return r if any(x is not None for x in r) else None
        types = {}
        its = {l: items(l) for l in appends}

        def elem(l, i):
            h = heads[l]
            if all(t == types[l][0] for t in types[l]):
                h = SBase(h.oid, types[l][0])
            return self.elem(State(), h, i).t
        found = []
        n0 = len(gfacts)
        for a in appends:
            for b in appends:
                if a == b or its[a] is None or its[b] is None or not (
                        a in read or b in read) or any(
                            (x is None) != (y is None)
                            for x, y in zip(its[a], its[b])):
                    continue
                phis = []
                for x, y in zip(its[a], its[b]):
                    if x is None:
                        continue
                    isobj = z3.is_app(x) and x.num_args() == 1 and \
                        x.decl().eq(Val.vobj)
                    at = x.arg(0) if isobj else x
                    hole = z3.Const('hole', at.sort())
                    phi = ssub(y, [(at, hole)])
                    if term_has(phi, [k]) or phis and not phi.eq(phis[0]):
                        break
                    phis.append(phi)
                else:
                    i = z3.Int('i!%d' % self.uid())
                    j = z3.Int('g!%d' % self.uid())
                    ea = elem(a, i)
                    eb = elem(b, i)
                    hole = z3.Const('hole', (self.oid(ea) if isobj
                                             else ea).sort())
                    if isobj:
                        ea = self.oid(ea)
                    la, lb = LEN(heads[a].oid), LEN(heads[b].oid)
                    at = lambda x: ssub(x, [(k, j)])
                    gfacts.append(z3.ForAll([j], z3.Implies(
                        j >= 0, at(la) == at(lb)),
                        patterns=[at(la), at(lb)]))
                    gfacts.append(z3.ForAll([j, i], z3.Implies(
                        z3.And(j >= 0, i >= 0, i < at(la)),
                        at(eb) == at(ssub(phis[0], [(hole, ea)]))),
                        patterns=[at(ea), at(eb)]))
                    found += [l for l in (a, b) if l not in read + found]
        self.together.extend(gfacts[n0:])
        return found

    def _prefix(self, l, base, h, k, cont, reach, gfacts):
        """A list read while it grows, whatever the abstract state: two loops
        that grow equal lists by the same items under the same condition hold
        the same list after as many iterations, by induction.  What is
        appended when is compared by the solver."""
        if l not in base or not isinstance(base[l], SList) or base[l].items:
            return
        def unsat(*fs):
            sv = z3.Solver()
            sv.set('timeout', 3000)
            sv.add(*fs)
            return sv.check() == z3.unsat
        cases = []
        for t in cont:
            if t.src in reach[0]:
                c = _nosel(t.cond)
                p = t.piece.get(l)
                if c is None:
                    return
                cases.append((c, SList([]) if p is None else p))
        cases = self._mergecases(cases)
        grow = [(c, p) for c, p in cases
                if not (isinstance(p, SList) and not p.items)]
        keep = [c for c, p in cases if isinstance(p, SList) and not p.items]
        if not grow or not all(
                isinstance(p, SList) and len(p.items) == 1 and
                isinstance(p.items[0], Sym) for c, p in grow):
            return
        grow = [(c, p.items[0].t) for c, p in grow]
        for i, (c, x) in enumerate(grow):
            if not all(unsat(c, d) for d in keep + [
                    d for d, y in grow[:i]]):
                return
        # before the first loop: what is appended, or nothing
        ctx = list(self.ctx)
        for k0, h0, ctx0, grow0, facts0 in self.prefixes:
            if len(ctx0) != len(ctx) or any(
                    not a.eq(b) for a, b in zip(ctx, ctx0)):
                continue
            sub = [(h0, h.oid), (k0, k)]
            g0 = [(ssub(c, sub), ssub(x, sub)) for c, x in grow0]
            fs = [ssub(f, sub) for f in facts0] + list(gfacts) + [
                k >= 0, ssub(h0, [(k0, k)]) == h.oid]
            some = z3.Or([c for c, x in g0])
            few = self.together + fs[-2:]
            if all(unsat(c, some, *fs) for c in keep) and all(
                    any(unsat(c, z3.Not(z3.Or([z3.And(d, x == y)
                                               for d, y in g0])), *given)
                        for given in ((few, fs) if self.together else (fs,)))
                    for c, x in grow):
                j = z3.Int('g!%d' % self.uid())
                mine = ssub(h.oid, [(k, j)])
                gfacts.append(z3.ForAll(
                    [j], mine == ssub(h0, [(k0, j)]), patterns=[mine]))
                self.stats['prefix'] = self.stats.get('prefix', 0) + 1
                return
        self.prefixes.append((k, h.oid, ctx, grow, list(gfacts)))

    # ---------------------------------------------------------- results
    def _finish(self, st0, n, k, base, modes, heads, order, trans, gfacts,
                wr, older):
        cont = [t for t in trans if t.out is None]
        exits = [t for t in trans if t.out is not None]
        nq = len(order)
        succ = {i: set() for i in range(nq)}
        for t in cont:
            succ[t.src].add(t.dst)

        def closure(src, edges):
            seen, todo = {src}, [src]
            while todo:
                for y in edges[todo.pop()]:
                    if y not in seen:
                        seen.add(y)
                        todo.append(y)
            return seen
        reach = {i: closure(i, succ) for i in range(nq)}
        accs = [l for l, m in modes.items() if m == 'acc']
        stores = [l for l in accs if any(l in t.store for t in cont)]
        appends = [l for l in accs if l not in stores]
        # accumulated content after K iterations
        gfacts = list(gfacts)
        head_used = {}
        for l, m in modes.items():
            if isinstance(m, tuple) and m[0] == 'rec' and l in heads:
                self._prefixval(l, base, heads[l].t, k, cont, reach, gfacts,
                                modes.rec.get(l, ()), stores)
        for l in appends:
            for t in cont:
                if l in t.store:
                    raise Unsupported('append and element store mixed')
            h = heads.get(l)
            used = h is not None and any(
                term_has(t.cond, [h.oid]) or
                (t.piece.get(l) is not None and qhas(t.piece[l], [h.oid]))
                for t in trans)
            head_used[l] = used
        read = [l for l in appends if head_used[l]]
        if read and not stores:
            read += self._lockstep(appends, read, base, heads, k, cont, reach,
                                   gfacts)
            for l in read:
                h = heads[l]
                self._prefix(l, base, h, k, cont, reach, gfacts)
        tv = {}
        for l in stores:
            b = base[l]
            ty = None
            if isinstance(b, STab):
                ty = self.tyof(b.val)
            for t in cont:
                if l in t.store:
                    idx, val = t.store[l]
                    if not (z3.simplify(idx).eq(k) or z3.is_true(
                            z3.simplify(idx == k))):
                        raise Unsupported('element store at other than the '
                                          'loop index')
                    vty = self.tyof(val)
                    if isinstance(b, STab) and isinstance(b.val, Con) and \
                            b.val.o is None:
                        ty = vty if ty is None or ty.kind == 'none' else \
                            self.join(ty, vty)
                    else:
                        ty = self.join(ty, vty)
            fname = 'tab!%d' % self.uid()
            tv[l] = (fname, ty or ANY)

        def tabval(l, j):
            nm, ty = tv[l]
            return self.ap(State(), nm, list(self.ctx) + [j], ty)

        def tcond(t, j):
            """condition of transition t taken at index j"""
            c = t.cond
            extra = []
            for l in stores:
                b = base[l]
                if l in t.store:
                    val = t.store[l][1]
                    if isinstance(val, Rec):
                        raise Unsupported('record stored in list')
                    extra.append(self.lift(tabval(l, k)) == self.lift(val))
                else:
                    if isinstance(b, STab):
                        bv = vsub(b.val, [(b.k, k)])
                        extra.append(self.lift(tabval(l, k)) ==
                                     self.lift(bv))
                    else:
                        extra.append(self.lift(tabval(l, k)) ==
                                     self.elem(State(), b, k).t)
            if extra:
                c = z3.And([c] + extra)
            return ssub(c, [(k, j)])

        JA, JE, KG = [z3.Int('%s!%d' % (nm, self.uid()))
                      for nm in ('ja', 'je', 'kg')]
        LO, HI = z3.Int('lo!%d' % self.uid()), z3.Int('hi!%d' % self.uid())
        tcache, acache, fcache = {}, {}, {}

        def tconde(t):
            """condition of transition t taken at index JE"""
            key = id(t)
            if key not in tcache:
                tcache[key] = tcond(t, JE)
            return tcache[key]

        def alls(ts, lo, hi):
            """forall lo<=j<hi: one of ts is taken at j"""
            key = frozenset(id(t) for t in ts)
            if key not in acache:
                cs = [z3.simplify(ssub(tconde(t), [(JE, JA)])) for t in ts]
                if any(z3.is_true(c) for c in cs):
                    acache[key] = None
                else:
                    acache[key] = z3.ForAll([JA], z3.Implies(
                        z3.And(JA >= LO, JA < HI),
                        z3.Or(cs) if cs else FALSE))
            if acache[key] is None:
                return None
            return ssub(acache[key], [(LO, lo), (HI, hi)])

        def facts_for(q, K):
            if q not in fcache:
                fcache[q] = facts_gen(q, KG)
            fs, co = fcache[q]
            return [ssub(f, [(KG, K)]) for f in fs], co

        def facts_gen(q, K):
            out = []
            co = [t for t in cont if t.src in reach[0] and
                  q in reach[t.dst]]
            f = alls(co, z3.IntVal(0), K)
            if not any(True for _ in co):
                out.append(K == 0)
            elif f is not None:
                out.append(f)
            if q == 0 and not any(t.dst == 0 for t in co):
                out.append(K == 0)
            # closed sets entered on the way
            sets = []
            for p in range(nq):
                if p != 0 and 0 not in reach[p] and q in reach[p]:
                    sets.append(frozenset(reach[p]))
            locs_ = set(l for items in order for l, v in items)
            for l in locs_:
                T = frozenset(i for i in range(nq)
                              if l in dict(order[i]))
                if 0 not in T and q in T and all(succ[i] <= T for i in T):
                    sets.append(T)
            for T in set(sets):
                ent = [t for t in co if t.src not in T and t.dst in T]
                pre = [t for t in co if t.src not in T and t.dst not in T]
                post = [t for t in co if t.src in T and t.dst in T]
                j = JE
                conj = [j >= 0, j < K,
                        z3.Or([tconde(t) for t in ent])]
                if pre:
                    a = alls(pre, z3.IntVal(0), j)
                    if a is not None:
                        conj.append(a)
                else:
                    conj.append(j == 0)
                if post:
                    b = alls(post, j + 1, K)
                    if b is not None:
                        conj.append(b)
                else:
                    conj.append(j == K - 1)
                out.append(z3.Exists([j], z3.And(conj)))
            return out, co

        def apply(s, q, K, co, wmap):
            """state at the loop head after K iterations in abstract state q;
            fills wmap: substitution pairs for head symbols."""
            for loc, m in modes.items():
                if m == 'dead':
                    self._kill(s, loc)
                elif isinstance(m, tuple) and m[0] == 'affine':
                    self.setloc(s, loc, self.mkint(z3.simplify(
                        self.zint(base[loc]) + m[1] * K)))
                elif m == 'N':
                    b0 = self.zint(base[loc])
                    f = self._count(s, loc, cont, k, K, nq, stores)
                    f = self.fresh('cnt', I) if f is None else b0 + f
                    s.add(f >= b0)
                    incs = [t for t in co if t.incs.get(loc, 0) > 0]
                    j = JE
                    if not incs:
                        s.add(f == b0)
                    else:
                        s.add((f > b0) == z3.Exists([j], z3.And(
                            j >= 0, j < K,
                            z3.Or([tconde(t) for t in incs]))))
                        mx = max(t.incs[loc] for t in incs)
                        s.add(f <= b0 + mx * K)
                    v = Sym(Val.vint(f), INT)
                    self.setloc(s, loc, v)
                    if loc in heads:
                        wmap.append((heads[loc].t, v.t))
                elif isinstance(m, tuple) and m[0] == 'rec':
                    self.setloc(s, loc, Sym(ssub(heads[loc].t, [(k, K)]),
                                            heads[loc].ty))
                elif isinstance(m, tuple) and m[0] == 'fold':
                    v = self._foldval(loc, base[loc], heads.get(loc), k, K,
                                      cont)
                    self.setloc(s, loc, v)
            for loc, v in order[q]:
                if v == 'W':
                    m = modes[loc]
                    w = self.fresh_typed(s, 'w', m[1])
                    asg = [t for t in co if loc in t.assign]
                    non = [t for t in co if loc not in t.assign]
                    j = JE
                    alt = []
                    for t in asg:
                        pre = [u for u in co if t.src in reach[u.dst]]
                        conj = [tconde(t), self.lift(w) == ssub(
                            self.lift(t.assign[loc]), [(k, j)])]
                        if pre:
                            a = alls(pre, z3.IntVal(0), j)
                            if a is not None:
                                conj.append(a)
                        else:
                            conj.append(j == 0)
                        post = [u for u in non if u.src in reach[t.dst]]
                        if post:
                            b = alls(post, j + 1, K)
                            if b is not None:
                                conj.append(b)
                        else:
                            conj.append(j == K - 1)
                        alt.append(z3.And(conj))
                    if alt:
                        s.add(z3.Exists([j], z3.And(j >= 0, j < K,
                                                    z3.Or(alt))))
                    self.setloc(s, loc, w)
                    if loc in heads and isinstance(w, Sym):
                        wmap.append((heads[loc].t, w.t))
                else:
                    self.setloc(s, loc, v)
            seqs = {}
            for l in accs:
                if l in stores:
                    b = base[l]
                    ln = self.seqlen(s, b)
                    j = z3.Int('t!%d' % self.uid())
                    tab = STab(ln, j, tabval(l, j))
                    jj = z3.Int('j!%d' % self.uid())
                    if isinstance(b, STab):
                        bv = vsub(b.val, [(b.k, jj)])
                    else:
                        bv = self.elem(s, b, jj)
                    # elements not (yet) stored keep their initial value
                    s.fact(z3.ForAll([jj], z3.Implies(
                        z3.And(jj >= K, jj < ln),
                        self.lift(tabval(l, jj)) == self.lift(bv))))
                    if tv[l][1].kind == 'opt':
                        pass
                    seqs[l] = tab
                else:
                    cases = []
                    for t in cont:
                        if not (t.src in reach[0]):
                            continue
                        p = t.piece.get(l)
                        if p is None:
                            p = SList([])
                        cases.append((tcond(t, k), p))
                    cases = self._mergecases(cases)
                    if all(isinstance(p, SList) and not p.items
                           for c, p in cases):
                        seqs[l] = base[l]
                    else:
                        h = heads[l].oid if head_used.get(l) else None
                        if h is not None:
                            seqs[l] = SFlat(K, k, cases, h, base[l])
                        else:
                            seqs[l] = self.cat(base[l],
                                               SFlat(K, k, cases))
                if l[0] == 'seq' or l[0] == 'oseq':
                    self.setloc(s, l, seqs[l])
            return seqs

        results = []
        if n is not None:
            for q in range(nq):
                s = st0.copy()
                s.facts.extend(gfacts)
                s.writes.extend(w for w in wr)
                fs, co = facts_for(q, n)
                s.pc.extend(fs)
                wmap = []
                apply(s, q, n, co, wmap)
                s.fact(n >= 0)
                if self.feasible(s):
                    results.append((s, None))
        for t in exits:
            if t.src not in reach[0]:
                continue
            K = self.fresh('K', I)
            hs = st0.copy()
            hs.facts.extend(gfacts)
            hs.writes.extend(w for w in wr)
            fs, co = facts_for(t.src, K)
            hs.add(K >= 0)
            if n is not None:
                hs.add(K < n)
            hs.pc.extend(fs)
            wmap = []
            seqs = apply(hs, t.src, K, co, wmap)
            # state of the exit path, transported from generic k to K
            pairs = [(k, K)]
            wsub = [(ssub(a, pairs), b) for a, b in wmap]
            smap = {}
            for l in accs:
                if l in heads:
                    smap[ssub(heads[l].oid, pairs).sexpr()] = seqs[l]
            # base store tables: content at K
            s = self._transport(t.state, pairs, wsub, smap)
            cond = ssub(ssub(t.cond, pairs), wsub) if wsub else ssub(
                t.cond, pairs)
            s.pc = list(hs.pc) + [cond]
            s.facts = list(hs.facts) + [
                ssub(ssub(f, pairs), wsub) if wsub else ssub(f, pairs)
                for f in t.state.facts[len(st0.facts):]]
            for l, q in seqs.items():
                if head_used.get(l):
                    h = ssub(heads[l].oid, pairs)
                    ne = self.seq_exists(s, q, lambda s_, x: TRUE)
                    s.fact((LEN(h) > 0) == ne)
            s.writes = list(hs.writes)
            out = self._tout(t.out, pairs, wsub, smap)
            if n is None:
                # guard held at every earlier iteration; instantiate at K-1
                for f in fs:
                    if z3.is_quantifier(f) and f.is_forall() and \
                            f.num_vars() == 1:
                        s.pc.append(z3.substitute_vars(f.body(), K - 1))
            if not self.feasible(s):
                continue
            if out == 'exit':
                out = None
            results.append((s, out))
        return results

    def _mergecases(self, cases):
        """Merge cases with identical pieces."""
        out = []
        for c, p in cases:
            for e in out:
                if self._sameq(e[1], p):
                    e[0].append(c)
                    break
            else:
                out.append(([c], p))
        return [(z3.simplify(z3.Or(cs)) if len(cs) > 1 else
                 z3.simplify(cs[0]), p) for cs, p in out]

    def _sameq(self, a, b):
        if isinstance(a, SList) and isinstance(b, SList):
            return len(a.items) == len(b.items) and all(
                self.samev(x, y) for x, y in zip(a.items, b.items))
        return a is b

    def _foldval(self, loc, init, head, k, K, cont):
        """value after K steps of x := step(x, k), as FOLD applied to a
        canonical description of the step."""
        steps = []
        acc = z3.Int('acc!fold')
        kk = z3.Int('k!fold')
        for t in cont:
            v = t.assign.get(loc)
            body = acc if v is None else ssub(
                self.stt(v.t), [(self.stt(head.t), acc), (k, kk)])
            steps.append((z3.simplify(ssub(t.cond, [(k, kk)])).sexpr(),
                          z3.simplify(body).sexpr()))
        key = repr(sorted(steps))
        f = fn('FOLD!%d' % INTERN.s('fold:' + key), I, I, I)
        return Sym(Val.vstr(f(self.stt(self.lift(init)), K)), STR)

    def _transport(self, st, pairs, wsub, smap):
        s = st.copy()

        def tv(v):
            return self._tval(v, pairs, wsub, smap)
        for e in s.envs.values():
            for nm in list(e):
                e[nm] = tv(e[nm])
        for h in s.heap.values():
            for a in list(h.attrs):
                h.attrs[a] = tv(h.attrs[a])
            if h.seq is not None:
                h.seq = self._tseq(h.seq, pairs, wsub, smap)
            if h.mp is not None:
                h.mp = MapC(h.mp.base if h.mp.base is None else
                            ssub(h.mp.base, pairs),
                            [(a, b if a == 'upd' else tv(b),
                              None if c is None else tv(c))
                             for a, b, c in h.mp.log], h.mp.kty, h.mp.vty)
            if h.pos is not None and z3.is_expr(h.pos):
                h.pos = ssub(h.pos, pairs)
        for f in list(s.over):
            s.over[f] = [(ssub(o, pairs), tv(v)) for o, v in s.over[f]]
        ref = {}
        for i, (t, ty) in s.refine.items():
            t2 = ssub(t, pairs)
            if wsub:
                t2 = ssub(t2, wsub)
            ref[t2.get_id()] = (t2, ty)
        s.refine.update(ref)
        return s

    def _tval(self, v, pairs, wsub, smap):
        if isinstance(v, (Sym, Tup, Rec, Bound)):
            v = vsub(v, pairs)
            if wsub:
                v = vsub(v, wsub)
            if isinstance(v, Sym):
                t = z3.simplify(v.t) if v.ty.kind == 'int' else v.t
                return self.mkint(self.it(t)) if v.ty.kind == 'int' else v
            return v
        if isinstance(v, SeqV):
            return SeqV(self._tseq(v.seq, pairs, wsub, smap), v.cls)
        return v

    def _tseq(self, q, pairs, wsub, smap):
        q = qsub(q, pairs)
        if wsub:
            q = qsub(q, wsub)

        def rep(q):
            if isinstance(q, SBase):
                return smap.get(q.oid.sexpr(), q)
            if isinstance(q, SCat):
                r = SList([])
                for p in q.parts:
                    r = self.cat(r, rep(p))
                return r
            if isinstance(q, SStore):
                return SStore(rep(q.base), q.idx, q.val)
            if isinstance(q, SSlice):
                return SSlice(rep(q.base), q.start)
            return q
        return rep(q)

    def _tout(self, out, pairs, wsub, smap):
        if isinstance(out, tuple) and out[0] == 'ret':
            return ('ret', self._tval(out[1], pairs, wsub, smap))
        if isinstance(out, tuple):
            return out
        return out

