"""P15: function identifiers resolve to the function they name, or to an
error."""
import importlib
import pkgutil
from .common import *           # noqa
from .funcs import CLASSES, FACTORY, V1, V2, refuse
from .p17 import content_of, same_map, zf
from ndg.xacml.core import functions as FN
from ndg.xacml.core.functions import (AbstractFunction, FunctionMap,
                                      FunctionClassFactoryBase)
from ndg.xacml.core.apply import Apply
from ndg.xacml.utils import factory as FAC
from pyvc.verify import Target as T

PKG = 'ndg.xacml.core.functions.'
TYPE = dict(CLASSES)
TYPE['base64Binary'] = FACTORY(AttributeValue.BASE64BINARY_TYPE_URI)

# ------------------------------------------------------------------- oracle
# identifier -> (module of the family, data type or None): what this version
# implements of the XACML functions
ALL14 = ('string', 'boolean', 'integer', 'double', 'time', 'date', 'dateTime',
         'anyURI', 'hexBinary', 'base64Binary', 'dayTimeDuration',
         'yearMonthDuration', 'x500Name', 'rfc822Name')
IMPLEMENTED = {V1 + 'and': ('v1.and', None), V1 + 'not': ('v1.not', None),
               V1 + 'round': ('v1.round', None),
               V1 + 'string-regexp-match': ('v1.regexp_match', 'string'),
               V2 + 'string-concatenate': ('v2.concatenate', 'string'),
               V2 + 'url-string-concatenate': ('v2.concatenate', 'anyURI'),
               # the code's reading of the node functions: on their text
               V1 + 'xpath-node-equal': ('v1.equal', 'string'),
               V1 + 'xpath-node-match': ('v1.match', 'string')}
for _n in ALL14:
    for _s, _m in (('equal', 'equal'), ('one-and-only', 'one_and_only'),
                   ('bag', 'bag'),
                   ('at-least-one-member-of', 'at_least_one_member_of')):
        IMPLEMENTED['%s%s-%s' % (V1, _n, _s)] = ('v1.' + _m, _n)
for _n in ('x500Name', 'rfc822Name'):
    IMPLEMENTED['%s%s-match' % (V1, _n)] = ('v1.match', _n)
for _n in ('anyURI', 'ipAddress', 'dnsName', 'rfc822Name', 'x500Name'):
    IMPLEMENTED['%s%s-regexp-match' % (V2, _n)] = ('v2.regexp_match', _n)
# evaluation of these is in the first version's module
EVALUATED = {'v2.regexp_match': 'v1.regexp_match'}


def modules():
    out = {}
    for v in ('v1', 'v2'):
        p = importlib.import_module(PKG + v)
        for m in pkgutil.iter_modules(p.__path__):
            out['%s.%s' % (v, m.name)] = importlib.import_module(
                '%s%s.%s' % (PKG, v, m.name))
    return out


MODULES = modules()
FAMILIES = set(PKG + m for m in MODULES)


def implements(c, fid):
    """is the class the one that implements exactly that function?"""
    if not (isinstance(c, type) and issubclass(c, AbstractFunction)):
        return False
    mod, ty = IMPLEMENTED[fid]
    if getattr(c, 'FUNCTION_NS', None) != fid:
        return False
    if ty is not None and getattr(c, 'TYPE', None) is not TYPE[ty]:
        return False
    at = getattr(c.evaluate, '__module__', None)
    return at == PKG + EVALUATED.get(mod, mod) or at not in FAMILIES


class Custom(AbstractFunction):
    """A function the code knows nothing about."""
    FUNCTION_NS = 'urn:example:custom'

    def evaluate(self, *inputs):
        return None


class NotAFunction(object):
    pass


def do_find(f, fid):
    return f(fid)


def do_get(m, fid):
    return m.get(fid)


def do_get_default(m, fid):
    return m.get(fid, NotAFunction)


def do_item(m, fid):
    return m[fid]


def do_load(m, fid):
    m.loadFunction(fid)
    return m[fid]


def do_custom(m, fid, factory):
    m.load_custom_function(fid, factory)


def do_custom_kw(m, fid, factory):
    m.load_custom_function(fid, function_factory=factory)


def do_custom_path(m, fid, path):
    m.load_custom_function(fid, function_factory_path=path)


def do_match_id(m, fid):
    m.matchId = fid


def do_function_id(m, fid):
    m.functionId = fid


def made(eng, st, cls, *args):
    rs = [(s, r) for s, r in eng.call(st, Con(cls), list(args), {})
          if not isinstance(r, Raise)]
    if len(rs) != 1:
        raise Unsupported('%s cannot be constructed' % cls.__name__)
    return rs[0]


def not_one_of(eng, st, x, names):
    st.add(z3.And([eng.lift(x) != eng.lift(Con(n)) for n in names]))


# ----------------------------------------------------------- class factories
def caches(eng, st, ref):
    """the dictionaries inside an object"""
    h = st.heap[ref.id]
    return [x for x in h.attrs.values()
            if isinstance(x, Ref) and st.heap[x.id].mp is not None]


def any_content(eng, st, refs, name):
    """arbitrary content for each: no entry is nothing"""
    out = []
    for i, r in enumerate(refs):
        b = MapC(z3.Int('%s%d' % (name, i)), (), ANY, ANY)
        st.heap[r.id].mp = b
        out.append(b)
    return out


def family(name):
    """the factory of one module: for an identifier it lists, the class
    implementing it, the same one every time; for any other, nothing"""
    mod = MODULES[name]
    ids = sorted(f for f, (m, t) in IMPLEMENTED.items() if m == name)

    def build(cx):
        cls = getattr(mod, 'FunctionClassFactory', None)
        cx.oblige('has a factory', [], z3.BoolVal(isinstance(cls, type)))
        if not isinstance(cls, type):
            return
        for fid in ids:
            eng = cx.engine({}, [], GHOSTS)
            st, f = made(eng, eng.start(), cls)
            seen = []

            def first(e, s, code, sp):
                ok = isinstance(code, Con) and implements(code.o, fid)
                if ok:
                    seen.append((s, code))
                return z3.BoolVal(ok)
            cx.refine(eng, st, do_find, [(st.copy(), None)], [f, Con(fid)],
                      first, label='%s ' % fid)
            for s, c in seen[:1]:
                cx.refine(eng, s, do_find, [(s.copy(), None)], [f, Con(fid)],
                          lambda e, s, code, sp: z3.BoolVal(
                              isinstance(code, Con) and code.o is c.o),
                          label='%s again ' % fid)
        eng = cx.engine({}, [], GHOSTS)
        st, f = made(eng, eng.start(), cls)
        fid = eng.param(st, 'identifier', STR)
        not_one_of(eng, st, fid, ids)
        # invariant of the cache: only listed identifiers
        for b in any_content(eng, st, caches(eng, st, f), 'cache'):
            has = fn('MAPHAS', I, Val, B)
            st.add(z3.Not(has(b.base, eng.lift(fid))))
        cx.refine(eng, st, do_find, [(st.copy(), None)], [f, fid],
                  lambda e, s, code, sp: z3.BoolVal(isinstance(
                      code, Raise)) if isinstance(code, Raise) else
                  e.lift(code) == Val.vnone, label='any other identifier ')
    return T('factory of %s' % name, build)


# ----------------------------------------------------------------- the map
class AnyFactory(FN.FunctionClassFactoryInterface):
    """A factory found by a computed path."""

    def __call__(self, identifier):
        pass


def c_call_module(eng, st, args, kw):
    """callModuleObject of a computed path: nothing can be imported, or what
    is found is the factory of some module of the package."""
    out = eng.rz(st.copy(), ImportError) + eng.rz(st.copy(), AttributeError)
    s = st.copy()
    s, f = made(eng, s, AnyFactory)
    return out + [(s, f)]


def c_any_factory(eng, st, args, kw):
    """what the factories of the package do (see the targets "factory of
    ..."): nothing or a failure for an identifier none of them lists, maybe a
    class for any other"""
    k = eng.lift(args[1])
    ids = z3.Or([k == eng.lift(Con(n)) for n in sorted(IMPLEMENTED)])
    out = []
    for s, b in eng.branch(st, ids):
        if b:
            out.append((s.copy(), Con(Custom)))
        out.append((s.copy(), Con(None)))
        out += eng.rz(s.copy(), Exception)
    return out


def do_probe(m, k, v):
    m[k] = v


def a_map(eng, st, known=True):
    """(state, a function map with any content, the content).

    Its own invariant: factories are remembered for no other identifiers than
    those with a function."""
    st, m = made(eng, st, FunctionMap)
    refs = caches(eng, st, m)
    s, r = [x for x in eng.run(st.copy(), do_probe, [
        m, Con('urn:probe'), Con(Custom)]) if not isinstance(
            x[1], Raise)][0]
    main = [x for x in refs if s.heap[x.id].mp.log]
    if len(main) != 1:
        raise Unsupported('which dictionary holds the content')
    has = fn('MAPHAS', I, Val, B)
    base, = any_content(eng, st, main, 'functions')
    rest = any_content(eng, st, [x for x in refs if x is not main[0]],
                       'other')
    k = z3.Const('anykey', Val)
    for b in rest:
        st.fact(z3.ForAll([k], z3.Implies(has(b.base, k), has(base.base, k)),
                          patterns=[has(b.base, k)]))
    # entries are never nothing: the value filter
    get = fn('MAPGET', I, Val, Val)
    return st, m, main[0], base


def in_map(eng, base, k):
    return fn('MAPHAS', I, Val, B)(base.base, eng.lift(k))


def known(driver):
    """an identifier already resolved gives the same class again"""
    def build(cx):
        eng = cx.engine({}, [], GHOSTS)
        st, m, ref, base = a_map(eng, eng.start())
        fid = eng.param(st, 'identifier', ANY)
        st.add(in_map(eng, base, fid))
        (s, old), = eng.map_lookup(st.copy(), base, fid)
        st = s
        # by the value filter an entry is a class or NotImplemented
        st.add(eng.lift(old) != Val.vnone)

        def compare(e, s, code, sp):
            if isinstance(code, Raise):
                return FALSE
            return z3.And(e.lift(code) == e.lift(old), same_map(
                e, s, s.heap[ref.id].mp, base))
        eng.assumptions.add('dictionary keys are hashable')
        cx.refine(eng, st, driver, [(st.copy(), None)], [m, fid], compare)
    return T('known identifier, %s' % driver.__name__, build)


def implemented(driver, ids, what):
    """an identifier not yet resolved gives the class implementing it, kept
    for the next time; nothing else changes"""
    def build(cx):
        for fid in ids:
            eng = cx.engine({}, [], GHOSTS)
            st, m, ref, base = a_map(eng, eng.start())
            st.add(z3.Not(in_map(eng, base, Con(fid))))

            def compare(e, s, code, sp):
                ok = isinstance(code, Con) and implements(code.o, fid)
                if not ok:
                    return FALSE
                want = MapC(base.base, (('set', Con(fid), code),), ANY, ANY)
                return same_map(e, s, s.heap[ref.id].mp, want)
            cx.refine(eng, st, driver, [(st.copy(), None)], [m, Con(fid)],
                      compare, label='%s ' % fid)
    return T('%s, %s' % (what, driver.__name__), build)


def unknown(driver):
    """any other identifier gives no function, now or later"""
    def build(cx):
        eng = cx.engine({}, [], GHOSTS)
        st, m, ref, base = a_map(eng, eng.start())
        fid = eng.param(st, 'identifier', STR)
        not_one_of(eng, st, fid, sorted(IMPLEMENTED))
        st.add(z3.Not(in_map(eng, base, fid)))
        eng.fcontracts[FAC.callModuleObject] = c_call_module
        eng.fcontracts[AnyFactory.__call__] = c_any_factory
        eng.assumptions.add('callModuleObject of the path computed from an '
                            'identifier that is not implemented raises '
                            'ImportError or AttributeError or gives the '
                            'factory of a module of the package')

        def compare(e, s, code, sp):
            now = s.heap[ref.id].mp
            none = MapC(base.base, (('set', fid, Con(NotImplemented)),), ANY,
                        ANY)
            kept = same_map(e, s, now, base)
            if isinstance(code, Raise):
                return z3.Or(kept, same_map(e, s, now, none))
            return z3.And(z3.Or(e.lift(code) == Val.vnone,
                                e.lift(code) == e.lift(Con(NotAFunction)),
                                e.lift(code) == e.lift(Con(NotImplemented))),
                          z3.Or(kept, same_map(e, s, now, none)))
        cx.refine(eng, st, driver, [(st.copy(), None)], [m, fid], compare)
    return T('unknown identifier, %s' % driver.__name__, build)


# ---------------------------------------------------------- custom functions
def custom(driver, kind):
    """a custom function is added under any identifier but a standard one"""
    standard = sorted(set(FN.XacmlFunctionNames.FUNCTION_NAMES) |
                      set(IMPLEMENTED))

    def setup(eng):
        st, m, ref, base = a_map(eng, eng.start())
        fid = eng.param(st, 'identifier', STR)
        if driver is do_custom_path:
            arg = eng.param(st, 'path', STR)
            s, f = made(eng, st, AnyFactory)
            st = s

            def module(e, s, a, kw):
                return e.rz(s.copy(), ImportError) + e.rz(
                    s.copy(), AttributeError) + [(s.copy(), f)]
            eng.fcontracts[FAC.callModuleObject] = module
        else:
            st, arg = made(eng, st, AnyFactory)
        gives = {'a function class': Con(Custom), 'nothing': Con(None),
                 'no function class': Con(NotAFunction)}.get(kind)

        def call(e, s, a, kw):
            if gives is None:
                return e.rz(s, Exception)
            return [(s, gives)]
        eng.fcontracts[AnyFactory.__call__] = call
        return st, m, ref, base, fid, arg

    def build(cx):
        eng = cx.engine({}, [], GHOSTS)
        st, m, ref, base, fid, arg = setup(eng)
        st.add(z3.Or([eng.lift(fid) == eng.lift(Con(n)) for n in standard]))
        cx.refine(eng, st, driver, [(st.copy(), None)], [m, fid, arg],
                  lambda e, s, code, sp: z3.And(
                      z3.BoolVal(isinstance(code, Raise)),
                      same_map(e, s, s.heap[ref.id].mp, base)),
                  label='standard ')
        eng = cx.engine({}, [], GHOSTS)
        st, m, ref, base, fid, arg = setup(eng)
        not_one_of(eng, st, fid, standard)

        def compare(e, s, code, sp):
            now = s.heap[ref.id].mp
            if isinstance(code, Raise):
                return z3.And(z3.BoolVal(kind != 'a function class' or
                                         driver is do_custom_path),
                              same_map(e, s, now, base))
            want = MapC(base.base, (('set', fid, Con(Custom)),), ANY, ANY)
            return z3.And(z3.BoolVal(kind == 'a function class'),
                          same_map(e, s, now, want))
        cx.refine(eng, st, driver, [(st.copy(), None)], [m, fid, arg],
                  compare, label='other ')
    return T('%s: factory gives %s' % (driver.__name__, kind), build)


# ------------------------------------------------------------------ the use
def use(cls, driver, attr):
    """setting the identifier: the function is an instance of exactly the
    class the map gives, or the setting is refused and nothing changes"""
    class Other(AbstractFunction):
        FUNCTION_NS = 'urn:example:other'

        def evaluate(self, *inputs):
            return None

    def build(cx):
        for before in (False, True):
            for default in (True, False):
                one(cx, before, default)

    def one(cx, before, default):
        eng = cx.engine({}, [], GHOSTS)
        st = eng.start()
        fid = eng.param(st, 'identifier', STR)
        asked = []

        def get(e, s, args, kw):
            """FunctionMap.get as verified above, one case of each kind"""
            asked.append(args)
            k = e.lift(args[1])
            c = z3.Int('kind_of')
            out = []
            for i, v in enumerate([Con(Custom), Con(Other),
                                   Con(NotImplemented), Con(None), None]):
                s2 = s.copy()
                s2.add(fn('KIND', Val, I)(k) == i)
                out += [(s2, v)] if v is not None else e.rz(
                    s2, FN.FunctionMapConfigError)
            return out
        eng.fcontracts[FunctionMap.get] = get
        eng.fcontracts[FunctionMap.__getitem__] = get
        st, m = made(eng, st, cls)
        if not default:
            st, fm = made(eng, st, FunctionMap)
            (st, r), = eng.setattr_(st, m, 'functionMap', fm)
        if before:
            old = eng.param(st, 'old', STR)
            st.add(fn('KIND', Val, I)(eng.lift(old)) == 0)
            st = [s for s, r in eng.setattr_(st, m, attr, old)
                  if not isinstance(r, Raise)][0]
        else:
            old = Con(None)
        K = fn('KIND', Val, I)(eng.lift(fid))
        (_, was), = eng.getattr_(st.copy(), m, 'function')

        def compare(e, s, code, sp):
            fs = []
            for s1, i in e.getattr_(s.copy(), m, attr):
                for s2, f in e.getattr_(s1, m, 'function'):
                    if isinstance(code, Raise):
                        fs.append(z3.And(
                            K != 0, K != 1, e.lift(i) == e.lift(old),
                            e.lift(f) == e.lift(was)))
                        continue
                    c, exact = e.cls_of(s2, f)
                    fs.append(z3.And(
                        e.lift(i) == e.lift(fid),
                        z3.Or(z3.And(K == 0, z3.BoolVal(c is Custom)),
                              z3.And(K == 1, z3.BoolVal(c is Other)))))
            return z3.And(fs)
        cx.refine(eng, st, driver, [(st.copy(), None)], [m, fid], compare,
                  label='%s %s map ' % ('another' if before else 'first',
                                        'default' if default else 'given'))
    return T('%s.%s' % (cls.__name__, attr), build)


def targets(tier):
    out = [family(n) for n in sorted(MODULES)
           if hasattr(MODULES[n], 'FunctionClassFactory')]
    fams = {}
    for fid, (m, t) in IMPLEMENTED.items():
        fams.setdefault(m, []).append(fid)
    for d in (do_get, do_get_default, do_item, do_load):
        out.append(known(d))
        out += [implemented(d, sorted(ids), m)
                for m, ids in sorted(fams.items())]
        out.append(unknown(d))
    for d in (do_custom, do_custom_kw, do_custom_path):
        for k in ('a function class', 'nothing', 'no function class',
                  'an error'):
            out.append(custom(d, k))
    out += [use(c, do_match_id, 'matchId') for c in (
        SubjectMatch, ResourceMatch, ActionMatch, EnvironmentMatch)]
    out.append(use(Apply, do_function_id, 'functionId'))
    return out
