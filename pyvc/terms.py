"""Sorts, values, types and sequence expressions of the verifier."""
import z3

z3.set_param('auto_config', False)


class Unsupported(Exception):
    """Construct outside the verified subset (never a verdict)."""


def _mk():
    d = z3.Datatype('Val')
    d.declare('vnone')
    d.declare('vbool', ('b', z3.BoolSort()))
    d.declare('vint', ('i', z3.IntSort()))
    d.declare('vstr', ('s', z3.IntSort()))
    d.declare('vflt', ('f', z3.IntSort()))
    d.declare('vobj', ('o', z3.IntSort()))
    return d.create()


Val = _mk()
I = z3.IntSort()
B = z3.BoolSort()
TRUE = z3.BoolVal(True)
FALSE = z3.BoolVal(False)

_FN = {}


def fn(name, *sig):
    key = (name,) + tuple(str(s) for s in sig)
    f = _FN.get(key)
    if f is None:
        f = _FN[key] = z3.Function(name, *sig)
    return f


LEN = fn('LEN', I, I)
TYP = fn('TYP', Val, I)
TRUTHY = fn('TRUTHY', Val, B)
PYEQ = fn('PYEQ', Val, Val, B)
STRLEN = fn('STRLEN', I, I)


class Interner(object):
    def __init__(self):
        self.strs = {}
        self.flts = {}
        self.objs = {}
        self.keep = []
        self.rstr = {}

    def s(self, x):
        if x not in self.strs:
            self.strs[x] = len(self.strs) + 1
            self.rstr[self.strs[x]] = x
        return self.strs[x]

    def f(self, x):
        k = repr(x)
        return self.flts.setdefault(k, len(self.flts) + 1)

    def o(self, x):
        k = id(x)
        if k not in self.objs:
            self.objs[k] = -(len(self.objs) + 1)
            self.keep.append(x)
        return self.objs[k]


INTERN = Interner()


# ---------------------------------------------------------------- types

class Ty(object):
    """Static knowledge about a symbolic value."""
    __slots__ = ('kind', 'cls', 'exact', 'elem', 'inner', 'vals', 'fields')

    def __init__(self, kind, cls=None, exact=False, elem=None, inner=None,
                 vals=None, fields=None):
        self.kind, self.cls, self.exact = kind, cls, exact
        self.elem, self.inner, self.vals = elem, inner, vals
        self.fields = fields or {}

    def __repr__(self):
        return 'Ty(%s,%s%s%s)' % (self.kind, getattr(self.cls, '__name__', ''),
                                  '!' if self.exact else '',
                                  '' if self.inner is None else self.inner)


ANY = Ty('any')
BOOL = Ty('bool', cls=bool, exact=True)
INT = Ty('int', cls=int)
STR = Ty('str', cls=str)
FLT = Ty('flt', cls=float)
NONE = Ty('none', cls=type(None), exact=True)


def Inst(cls, exact=False, **fields):
    return Ty('inst', cls=cls, exact=exact, fields=fields)


def SeqT(elem, cls=list, exact=False, **fields):
    return Ty('inst', cls=cls, exact=exact, elem=elem, fields=fields)


def Opt(inner):
    return Ty('opt', inner=inner)


def StrIn(*vals):
    return Ty('str', cls=str, vals=vals)


# ---------------------------------------------------------------- values

class Con(object):
    """A concrete live Python object."""
    __slots__ = ('o',)

    def __init__(self, o):
        self.o = o

    def __repr__(self):
        return 'Con(%r)' % (self.o,)


class Sym(object):
    """A symbolic value: a Val term plus static type knowledge."""
    __slots__ = ('t', 'ty')

    def __init__(self, t, ty=ANY):
        self.t, self.ty = t, ty

    def __repr__(self):
        return 'Sym(%s:%r)' % (self.t, self.ty)


class Ref(object):
    """Object allocated during the execution under verification."""
    __slots__ = ('id',)

    def __init__(self, id):
        self.id = id

    def __repr__(self):
        return 'Ref(%d)' % self.id


class Tup(object):
    __slots__ = ('items',)

    def __init__(self, items):
        self.items = list(items)

    def __repr__(self):
        return 'Tup(%r)' % (self.items,)


class SeqV(object):
    """Immutable sequence value with symbolic content (tuple, set, ...)."""
    __slots__ = ('seq', 'cls')

    def __init__(self, seq, cls=tuple):
        self.seq, self.cls = seq, cls

    def __repr__(self):
        return 'SeqV(%s,%r)' % (self.cls.__name__, self.seq)


class Rec(object):
    """A frozen object created inside a loop iteration."""
    __slots__ = ('cls', 'attrs', 'seq')

    def __init__(self, cls, attrs, seq=None):
        self.cls, self.attrs, self.seq = cls, attrs, seq

    def __repr__(self):
        return 'Rec(%s,%r)' % (self.cls.__name__, self.attrs)


class Closure(object):
    __slots__ = ('node', 'envs', 'mod', 'kls', 'defaults', 'kwdefaults', 'name')

    def __init__(self, node, envs, mod, kls, defaults=(), kwdefaults=None,
                 name='<lambda>'):
        self.node, self.envs, self.mod, self.kls = node, envs, mod, kls
        self.defaults, self.kwdefaults = defaults, kwdefaults or {}
        self.name = name


class GenV(object):
    """Unevaluated generator expression."""
    __slots__ = ('node', 'fr')

    def __init__(self, node, fr):
        self.node, self.fr = node, fr


class Bound(object):
    __slots__ = ('f', 'self')

    def __init__(self, f, self_):
        self.f, self.self = f, self_


class SuperV(object):
    __slots__ = ('cls', 'self')

    def __init__(self, cls, self_):
        self.cls, self.self = cls, self_


class ClsOf(object):
    """Class of an object whose exact class is not statically known."""
    __slots__ = ('v', 'cls')

    def __init__(self, v, cls):
        self.v, self.cls = v, cls


class IterSrc(object):
    """Iteration view (enumerate, zip, range, reversed, dict items...)."""
    __slots__ = ('n', 'get')

    def __init__(self, n, get):
        self.n, self.get = n, get


class Exc(object):
    """An exception value."""
    __slots__ = ('cls', 'exact', 'args', 'attrs')

    def __init__(self, cls, exact=True, args=(), attrs=None):
        self.cls, self.exact, self.args = cls, exact, args
        self.attrs = attrs or {}

    def __repr__(self):
        return 'Exc(%s%s)' % (self.cls.__name__, '' if self.exact else '+')


class Raise(object):
    __slots__ = ('exc', 'line')

    def __init__(self, exc, line=None):
        self.exc, self.line = exc, line

    def __repr__(self):
        return 'Raise(%r@%s)' % (self.exc, self.line)


class Dead(object):
    """Unknown value that may not be read."""

    def __repr__(self):
        return 'DEAD'


DEAD = Dead()


# ---------------------------------------------------------------- sequences

class SList(object):
    def __init__(self, items):
        self.items = list(items)

    def __repr__(self):
        return 'SList%r' % (self.items,)


class SBase(object):
    """Contents of an input list object: id term (Int) and element type."""

    def __init__(self, oid, ety):
        self.oid, self.ety = oid, ety

    def __repr__(self):
        return 'SBase(%s)' % self.oid


class STab(object):
    """[ val(k) for k in range(n) ]"""

    def __init__(self, n, k, val):
        self.n, self.k, self.val = n, k, val

    def __repr__(self):
        return 'STab(%s,%s.%r)' % (self.n, self.k, self.val)


class SCat(object):
    def __init__(self, parts):
        self.parts = parts

    def __repr__(self):
        return 'SCat%r' % (self.parts,)


class SFlat(object):
    """concatenation over k<n of the piece of the case whose condition holds.
    head: z3 Int term over k denoting the content accumulated before step k
    (None when no condition or piece looks at it)."""

    def __init__(self, n, k, cases, head=None, init=None):
        self.n, self.k, self.cases = n, k, cases
        self.head, self.init = head, init

    def __repr__(self):
        return 'SFlat(%s,%s,%r)' % (self.n, self.k, self.cases)


class SSlice(object):
    def __init__(self, base, start):
        self.base, self.start = base, start

    def __repr__(self):
        return 'SSlice(%r,%d)' % (self.base, self.start)


class SStore(object):
    def __init__(self, base, idx, val):
        self.base, self.idx, self.val = base, idx, val

    def __repr__(self):
        return 'SStore(%r,%s,%r)' % (self.base, self.idx, self.val)


class MapC(object):
    """Dictionary content: symbolic base (Int id or None) plus a write log of
    ('set', key, val) / ('del', key, None), oldest first."""

    def __init__(self, base=None, log=(), kty=ANY, vty=ANY):
        self.base, self.log, self.kty, self.vty = base, tuple(log), kty, vty

    def put(self, k, v):
        return MapC(self.base, self.log + (('set', k, v),), self.kty, self.vty)

    def upd(self, other):
        """dict.update from another dictionary"""
        if self.base is None and not self.log:
            return other
        return MapC(self.base, self.log + (('upd', other, None),), self.kty,
                    self.vty)

    def rem(self, k):
        return MapC(self.base, self.log + (('del', k, None),), self.kty,
                    self.vty)

    def __repr__(self):
        return 'MapC(%s,%r)' % (self.base, self.log)


def ssub(e, pairs):
    """z3 substitution, tolerant of no-ops."""
    return z3.substitute(e, *pairs)


def vsub(v, pairs):
    """Substitute z3 terms in a verifier value."""
    if isinstance(v, Sym):
        return Sym(ssub(v.t, pairs), v.ty)
    if isinstance(v, Tup):
        return Tup([vsub(i, pairs) for i in v.items])
    if isinstance(v, SeqV):
        return SeqV(qsub(v.seq, pairs), v.cls)
    if isinstance(v, Rec):
        return Rec(v.cls, {a: vsub(x, pairs) for a, x in v.attrs.items()},
                   None if v.seq is None else qsub(v.seq, pairs))
    if isinstance(v, Bound):
        return Bound(v.f, vsub(v.self, pairs))
    return v


def qsub(s, pairs):
    if isinstance(s, SList):
        return SList([vsub(i, pairs) for i in s.items])
    if isinstance(s, SBase):
        return SBase(ssub(s.oid, pairs), s.ety)
    if isinstance(s, STab):
        return STab(ssub(s.n, pairs), s.k, vsub(s.val, pairs))
    if isinstance(s, SCat):
        return SCat([qsub(p, pairs) for p in s.parts])
    if isinstance(s, SFlat):
        return SFlat(ssub(s.n, pairs), s.k,
                     [(ssub(c, pairs), qsub(p, pairs)) for c, p in s.cases],
                     None if s.head is None else ssub(s.head, pairs),
                     None if s.init is None else qsub(s.init, pairs))
    if isinstance(s, SSlice):
        return SSlice(qsub(s.base, pairs), s.start)
    if isinstance(s, SStore):
        return SStore(qsub(s.base, pairs), ssub(s.idx, pairs),
                      vsub(s.val, pairs))
    raise Unsupported('substitution in %r' % (s,))


def term_has(t, consts):
    """Does z3 term t mention any of the given constants (by ast id)?"""
    ids = set(c.get_id() for c in consts)
    seen = set()
    todo = [t]
    while todo:
        x = todo.pop()
        i = x.get_id()
        if i in ids:
            return True
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(x):
            todo.append(x.body())
        else:
            todo.extend(x.children())
    return False


def vhas(v, consts):
    if isinstance(v, Sym):
        return term_has(v.t, consts)
    if isinstance(v, Tup):
        return any(vhas(i, consts) for i in v.items)
    if isinstance(v, SeqV):
        return qhas(v.seq, consts)
    if isinstance(v, Rec):
        return any(vhas(i, consts) for i in v.attrs.values()) or (
            v.seq is not None and qhas(v.seq, consts))
    if isinstance(v, Bound):
        return vhas(v.self, consts)
    return False


def qhas(s, consts):
    if isinstance(s, SList):
        return any(vhas(i, consts) for i in s.items)
    if isinstance(s, SBase):
        return term_has(s.oid, consts)
    if isinstance(s, STab):
        return term_has(s.n, consts) or vhas(s.val, consts)
    if isinstance(s, SCat):
        return any(qhas(p, consts) for p in s.parts)
    if isinstance(s, SFlat):
        return term_has(s.n, consts) or any(
            term_has(c, consts) or qhas(p, consts) for c, p in s.cases)
    if isinstance(s, SSlice):
        return qhas(s.base, consts)
    if isinstance(s, SStore):
        return (qhas(s.base, consts) or term_has(s.idx, consts) or
                vhas(s.val, consts))
    return False


_QC = {}


def has_quant(t):
    """Does the term contain a quantifier?  (cached per ast)"""
    i = t.get_id()
    r = _QC.get(i)
    if r is not None:
        return r[0]
    todo, seen, res = [t], set(), False
    while todo:
        x = todo.pop()
        j = x.get_id()
        if j in seen:
            continue
        seen.add(j)
        if z3.is_quantifier(x):
            res = True
            break
        todo.extend(x.children())
    _QC[i] = (res, t)
    return res
