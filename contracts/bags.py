"""Equality of sequences of any length, by congruence.

seqeq gives a formula that implies that two sequence expressions denote the
same sequence.  It is exact for concrete and for indexable sequences; for
conditional concatenations it is sufficient only, and then the state is
marked so that a failed obligation is reported as unknown, not as refuted."""
from .common import *           # noqa


def seq_of(eng, st, v):
    if isinstance(v, Raise):
        return None
    return eng.content(st, v)


def _parts(q):
    if isinstance(q, SCat):
        return [x for p in q.parts for x in _parts(p)]
    if isinstance(q, SFlat) and q.init is not None:
        return _parts(q.init) + [SFlat(q.n, q.k, q.cases, q.head)]
    if isinstance(q, SList):
        return [SList([i]) for i in q.items]
    return [q]


def _same_part(a, b):
    return a is b or isinstance(a, SBase) and isinstance(b, SBase) and \
        z3.eq(z3.simplify(a.oid), z3.simplify(b.oid))


INDEXABLE = (SBase, STab, SSlice, SStore)


def _inexact(eng, st):
    if eng.unroll is None:
        st.suff = True


def term_same(eng, st, x, y):
    return eng.lift(x) == eng.lift(y)


def seqeq(eng, st, a, b, same=term_same):
    la, lb = eng.aslist(a), eng.aslist(b)
    if la is not None and lb is not None:
        if len(la) != len(lb):
            return FALSE
        return z3.simplify(z3.And([same(eng, st, x, y)
                                   for x, y in zip(la, lb)] or [TRUE]))
    pa, pb = _parts(a), _parts(b)
    while pa and pb and _same_part(pa[0], pb[0]):
        pa, pb = pa[1:], pb[1:]         # x ++ s == x ++ t iff s == t
    while pa and pb and _same_part(pa[-1], pb[-1]):
        pa, pb = pa[:-1], pb[:-1]
    if not pa and not pb:
        return TRUE
    if len(pa) == 1 and len(pb) == 1:
        return _eq1(eng, st, pa[0], pb[0], same)
    if not pa:
        return z3.And([_empty(eng, st, p) for p in pb])
    if not pb:
        return z3.And([_empty(eng, st, p) for p in pa])
    _inexact(eng, st)
    if len(pa) == len(pb):
        return z3.And([_eq1(eng, st, x, y, same) for x, y in zip(pa, pb)])
    # drop parts that may be empty, longest common alignment
    big, small, sw = (pa, pb, False) if len(pa) > len(pb) else (pb, pa, True)
    alts = []
    import itertools
    if len(big) > 6:
        return FALSE
    for keep in itertools.combinations(range(len(big)), len(small)):
        fs = [_empty(eng, st, big[i]) for i in range(len(big))
              if i not in keep]
        for i, s in zip(keep, small):
            x, y = (s, big[i]) if sw else (big[i], s)
            fs.append(_eq1(eng, st, x, y, same))
        alts.append(z3.And(fs))
    return z3.Or(alts)


def _empty(eng, st, q):
    if isinstance(q, SList):
        return z3.BoolVal(not q.items)
    return z3.Not(eng.seq_exists(st, q, lambda s, x: TRUE))


def _asflat(eng, st, q):
    if isinstance(q, SFlat):
        return q
    if isinstance(q, INDEXABLE):
        k = z3.Int('k!%d' % eng.uid())
        n = eng.seqlen(st, q)
        return SFlat(n, k, [(TRUE, SList([eng.elem(st, q, k)]))])
    return None


def _eq1(eng, st, a, b, same):
    la, lb = eng.aslist(a), eng.aslist(b)
    if la is not None and not la:
        return _empty(eng, st, b)
    if lb is not None and not lb:
        return _empty(eng, st, a)
    if la is not None and lb is not None:
        return seqeq(eng, st, a, b, same)
    if isinstance(a, INDEXABLE) and isinstance(b, INDEXABLE):
        n = eng.seqlen(st, a)
        j = z3.Int('j!%d' % eng.uid())
        body = eng.under(st, j, z3.And(j >= 0, j < n), lambda s: same(
            eng, s, eng.elem(s, a, j), eng.elem(s, b, j)))
        return z3.And(n == eng.seqlen(st, b), z3.ForAll(
            [j], z3.Implies(z3.And(j >= 0, j < n), body)))
    _inexact(eng, st)
    if la is not None or lb is not None:
        # one element against a conditional concatenation of length one
        l, f = (a, b) if la is not None else (b, a)
        f = _asflat(eng, st, f)
        l = la if la is not None else lb
        if f is None or len(l) != 1:
            return FALSE
        p = [qsub(p, [(f.k, z3.IntVal(0))]) for c, p in f.cases]
        c = [ssub(c, [(f.k, z3.IntVal(0))]) for c, p in f.cases]
        return z3.And(f.n == 1, z3.Or(c), *[z3.Implies(
            x, seqeq(eng, st, SList(l), y, same)) for x, y in zip(c, p)])
    a, b = _asflat(eng, st, a), _asflat(eng, st, b)
    if a is None or b is None:
        return FALSE
    j = z3.Int('j!%d' % eng.uid())
    ca = [(ssub(c, [(a.k, j)]), qsub(p, [(a.k, j)])) for c, p in a.cases]
    cb = [(ssub(c, [(b.k, j)]), qsub(p, [(b.k, j)])) for c, p in b.cases]
    hyp = [j >= 0, j < a.n]
    if a.head is not None and b.head is not None:
        # induction on the step: both prefixes are the same so far
        hyp.append(ssub(a.head, [(a.k, j)]) == ssub(b.head, [(b.k, j)]))

    def body(s):
        fs = []
        for c1, p1 in ca:
            for c2, p2 in cb:
                c = z3.simplify(z3.And(c1, c2))
                if z3.is_false(c):
                    continue
                s2 = s.copy()
                s2.add(c)
                if not eng.feasible(s2):
                    continue
                fs.append(z3.Implies(c, seqeq(eng, s, p1, p2, same)))
        for xs, ys in ((ca, cb), (cb, ca)):
            oth = z3.Or([c for c, p in ys]) if ys else FALSE
            for c, p in xs:
                if isinstance(p, SList) and not p.items:
                    continue
                fs.append(z3.Implies(z3.And(c, z3.Not(oth)),
                                     _empty(eng, s, p)))
        return z3.And(fs) if fs else TRUE
    s0 = st.copy()
    f = eng.under(s0, j, z3.And(hyp), body)
    st.facts.extend(s0.facts[len(st.facts):])
    _inexact(eng, st)
    return z3.And(a.n == b.n, z3.ForAll([j], z3.Implies(z3.And(hyp), f)))
