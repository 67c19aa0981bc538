"""P15: lookups of function identifiers, near and far, directly and through
match and apply elements, and custom functions."""
import importlib
import itertools
from ndg.xacml.core import functions as FN
from ndg.xacml.core.functions import (AbstractFunction, FunctionMap,
                                      functionMap)
from ndg.xacml.core.match import (SubjectMatch, ResourceMatch, ActionMatch,
                                  EnvironmentMatch)
from ndg.xacml.core.apply import Apply
from ndg.xacml.core.functions.v1.bag import Bag
from ndg.xacml.core.attributevalue import AttributeValue
from values import *         # noqa

FILES = ['ndg/xacml/core/functions/*.py', 'ndg/xacml/core/functions/v*/*.py',
         'ndg/xacml/core/match.py', 'ndg/xacml/core/apply.py',
         'ndg/xacml/utils/__init__.py', 'ndg/xacml/utils/factory.py']
RULE = ('sequences of 1..6 lookups of, settings to and custom registrations '
        'under identifiers: implemented, listed and not implemented, near '
        'variants (case, version, separators, foreign types), on a new map '
        'and on the shared one; classes compared with the table and by what '
        'they compute; each family\'s factory asked directly, repeatedly and '
        'for identifiers of no or another family')
ALL14 = ('string', 'boolean', 'integer', 'double', 'time', 'date', 'dateTime',
         'anyURI', 'hexBinary', 'base64Binary', 'dayTimeDuration',
         'yearMonthDuration', 'x500Name', 'rfc822Name')
P = 'ndg.xacml.core.functions.'
IMPL = {V1 + 'and': ('v1.and', None), V1 + 'not': ('v1.not', None),
        V1 + 'round': ('v1.round', None),
        V1 + 'string-regexp-match': ('v1.regexp_match', 'string'),
        V2 + 'string-concatenate': ('v2.concatenate', 'string'),
        V2 + 'url-string-concatenate': ('v2.concatenate', 'anyURI'),
        V1 + 'xpath-node-equal': ('v1.equal', 'string'),
        V1 + 'xpath-node-match': ('v1.match', 'string')}
for _n in ALL14:
    for _s, _m in (('equal', 'equal'), ('one-and-only', 'one_and_only'),
                   ('bag', 'bag'),
                   ('at-least-one-member-of', 'at_least_one_member_of')):
        IMPL['%s%s-%s' % (V1, _n, _s)] = ('v1.' + _m, _n)
for _n in ('x500Name', 'rfc822Name'):
    IMPL['%s%s-match' % (V1, _n)] = ('v1.match', _n)
for _n in ('anyURI', 'ipAddress', 'dnsName', 'rfc822Name', 'x500Name'):
    IMPL['%s%s-regexp-match' % (V2, _n)] = ('v1.regexp_match', _n)
IDS = sorted(IMPL)
LISTED = sorted(FN.XacmlFunctionNames.FUNCTION_NAMES)
STANDARD = set(IDS) | set(LISTED)
URI = dict(URI)
URI['base64Binary'] = AttributeValue.BASE64BINARY_TYPE_URI
fresh = itertools.count()


class Custom(AbstractFunction):
    FUNCTION_NS = 'urn:example:custom'

    def evaluate(self, *inputs):
        return 'custom'


class Custom2(Custom):
    pass


class NoFunction(object):
    pass


GIVES = [Custom, Custom2, None, NoFunction, 'x', 3, NotImplemented]


class Factory(object):
    def __init__(self, i):
        self.i = i

    def __call__(self, fid):
        if self.i == 'raise':
            raise ValueError(fid)
        return GIVES[self.i]


def variants(f):
    p, n = f[:len(V1)], f[len(V1):]
    q = V2 if p == V1 else V1
    yield q + n
    yield p + n[0].upper() + n[1:]
    yield p + n.lower()
    yield p + n.upper()
    yield p + n + ' '
    yield ' ' + f
    yield f + '-'
    yield f[:-1]
    yield p + n.replace('-', '_')
    yield p + n.replace('-', '')
    yield p + 'foo-' + n
    yield p + n + '-' + n
    yield p + n + ':' + n
    yield 'foo-' + f
    yield f + f
    yield p + p + n
    yield n
    yield f.replace('urn:', 'URN:')
    yield f.replace('function:', 'function')
    yield f.replace('oasis', 'example')
    parts = n.split('-')
    yield p + '-'.join(parts[1:])
    yield p + '-' + '-'.join(parts[1:])
    yield p + '-'.join(parts[::-1])
    yield p + 'ipAddress-' + '-'.join(parts[1:])
    yield p + 'String-' + '-'.join(parts[1:])
    yield p + 'url-string-' + '-'.join(parts[1:])
    yield p + 'xpath-node-' + '-'.join(parts[1:])


def behaves(c, fid):
    """does the class compute what the identifier says?"""
    mod, ty = IMPL[fid]
    f = c()
    if mod not in ('v1.equal', 'v1.bag', 'v1.one_and_only',
                   'v1.at_least_one_member_of') or 'xpath' in fid:
        return None
    D = F(URI[ty])
    other = value(['integer' if ty != 'integer' else 'string', 1])

    def refuses(*a):
        try:
            f.evaluate(*a)
        except Exception:
            return True
        return False

    def bag(*xs):
        b = Bag(D)
        for x in xs:
            b.append(x)
        return b
    if mod == 'v1.equal' and not refuses(other, other):
        return 'takes values of another type'
    if ty == 'base64Binary':
        return None
    a, a2, b = value([ty, 1]), value([ty, 1]), value([ty, 2])
    if mod == 'v1.equal':
        if f.evaluate(a, a2) is not True or f.evaluate(a, b) is not False:
            return 'is not equality'
    elif mod == 'v1.bag':
        r = f.evaluate(a, b)
        if [x.value for x in r] != [a.value, b.value] or type(r) is not Bag:
            return 'does not make bags'
        if not refuses(a, other):
            return 'takes values of another type'
    elif mod == 'v1.one_and_only':
        if f.evaluate(bag(a)).value != a.value or not refuses(bag(a, b)):
            return 'is not one-and-only'
    else:
        if f.evaluate(bag(a), bag(b, a2)) is not True or \
                f.evaluate(bag(a), bag(b)) is not False:
            return 'is not at-least-one-member-of'
    return None


def implements(c, fid):
    mod, ty = IMPL[fid]
    if not (isinstance(c, type) and issubclass(c, AbstractFunction)):
        return 'gave %r' % (c,)
    if c.FUNCTION_NS != fid:
        return 'gave the class of %r' % c.FUNCTION_NS
    if ty is not None and c.TYPE is not F(URI[ty]):
        return 'gave a class for %r' % c.TYPE
    at = c.evaluate.__module__
    if at.startswith(P) and at != P + mod and at[len(P):] in MODS:
        return 'gave a class of %s' % at
    return behaves(c, fid)


MODS = set(m for m, t in IMPL.values()) | {'v2.regexp_match'}
USERS = [SubjectMatch, ResourceMatch, ActionMatch, EnvironmentMatch, Apply]


def gen(rng, hints, tier):
    for mod in sorted({home(k) for k in IDS}):
        mine = [k for k in IDS if home(k) == mod]
        for k in mine:
            yield dict(mod=mod, ids=[k, k])
        for k in LISTED:
            if k not in mine:
                yield dict(mod=mod, ids=[mine[0], k, k, mine[0]])
        for k in mine:
            for v in variants(k):
                yield dict(mod=mod, ids=[v, k, v, k])
        for _ in range(10 if tier == 'quick' else 200):
            yield dict(mod=mod, ids=[rng.choice(mine) for _ in range(
                rng.randint(2, 8))])
    for f in LISTED + IDS:
        for how in ('get', 'item', 'load', 'getd'):
            yield dict(ops=[[how, 0, f], ['get', 0, f], ['item', 0, f],
                            ['get', 1, f]])
            yield dict(ops=[['getd', 1, f], ['get', 1, f],
                            ['getd', 1, f]])
        for u in range(len(USERS)):
            yield dict(ops=[['use', u, f], ['use', u, IDS[3]],
                            ['use', u, f]])
        yield dict(ops=[['custom', 0, f, 0], ['get', 0, f]])
        yield dict(ops=[['custom', 1, f, 0], ['get', 1, f]])
    near = []
    for f in IDS:
        near += [[f, v] for v in variants(f)]
    for f, v in near:
        yield dict(ops=[['get', 0, v], ['item', 0, v], ['get', 0, f],
                        ['get', 0, v], ['use', 0, v], ['use', 4, v]])
    pool = IDS + LISTED + [v for f, v in near] + hints.strs + [
        'new', 'new', 'new2', '', 'urn:x']
    N = 3000 if tier == 'quick' else 50000
    for _ in range(N):
        ks = [rng.choice(pool), rng.choice(IDS), 'new', rng.choice(pool)]
        if rng.random() < .3:
            ks[0] = rng.choice(list(variants(ks[1])))
        ops = []
        for _ in range(rng.randint(1, 6)):
            op = rng.choice(['get', 'item', 'load', 'getd', 'use', 'custom', 'path',
                             'get', 'put'])
            k = rng.choice(ks)
            if op == 'use':
                ops.append([op, rng.randrange(len(USERS)), k])
            elif op == 'custom':
                ops.append([op, rng.randrange(2), k, rng.choice(
                    list(range(len(GIVES))) + [0, 1, 0, 1, 'raise'])])
            elif op == 'path':
                ops.append([op, rng.randrange(2), k, rng.choice(
                    ['p15.makes_custom', 'p15.nowhere', 'nowhere.x',
                     'p15.makes_nothing'])])
            elif op == 'put':
                ops.append([op, rng.randrange(2), 'new', rng.randrange(2)])
            else:
                ops.append([op, rng.randrange(2), k])
        yield dict(ops=ops)


DEFAULT = object()


def makes_custom():
    return Factory(0)


def makes_nothing():
    return Factory(2)


def home(k):
    """the module whose factory makes it"""
    if k not in IMPL:
        return None
    return ('v2' if k.startswith(V2) else 'v1') + IMPL[k][0][2:]


def check_factory(case):
    """a family's factory, asked directly"""
    f = importlib.import_module(
        'ndg.xacml.core.functions.' + case['mod']).FunctionClassFactory()
    seen = {}
    for k in case['ids']:
        try:
            c = f(k)
        except Exception as e:
            return '%s: %r failed with %r' % (case['mod'], k, e)
        if home(k) == case['mod']:
            bad = implements(c, k)
            if bad:
                return '%s: %s' % (k, bad)
            if seen.setdefault(k, c) is not c:
                return '%s: gave %r, before it was %r' % (k, c, seen[k])
        elif c is not None:
            return '%s: %r is not of this family, but gave %r' % (
                case['mod'], k, c)


def check(case):
    if 'mod' in case:
        return check_factory(case)
    n0 = next(fresh)
    maps = [FunctionMap(), functionMap]
    known = [{}, {}]     # identifier -> class seen or registered
    users = [U() for U in USERS]
    state = [(None, None)] * len(USERS)
    for i, op in enumerate(case['ops']):
        k = op[2]
        if k.startswith('new'):
            k = 'urn:example:%s:%d' % (k, n0)
        where = 'step %d (%s): ' % (i, op)
        err, r = None, None
        if op[0] in ('get', 'item', 'load', 'getd'):
            m = maps[op[1]]
            try:
                if op[0] == 'load':
                    m.loadFunction(k)
                r = m[k] if op[0] == 'item' else m.get(
                    k, DEFAULT) if op[0] == 'getd' else m.get(k)
            except Exception as e:
                err = e
            d = known[op[1]]
            if k in d:
                if r is not d[k]:
                    return where + 'gave %r, before it was %r' % (
                        err or r, d[k])
            elif k in IMPL:
                if err is not None:
                    return where + 'failed with %r' % err
                bad = implements(r, k)
                if bad:
                    return where + bad
                d[k] = r
            elif err is None and r is not NotImplemented and r is not None \
                    and not (op[0] == 'getd' and r is DEFAULT):
                return where + 'not implemented, but gave %r' % r
            elif op[0] == 'get' and err is None and k in LISTED and \
                    r is not NotImplemented:
                return where + 'gave %r' % r
        elif op[0] == 'use':
            u = users[op[1]]
            attr = 'functionId' if isinstance(u, Apply) else 'matchId'
            try:
                setattr(u, attr, k)
            except Exception as e:
                err = e
            d = known[1]
            good = k in d or k in IMPL
            now = getattr(u, attr), u.function
            if good != (err is None):
                return where + 'setting: %r' % (err or now,)
            if not good:
                old = state[op[1]] if u is users[op[1]] else (None, None)
                if now[0] != old[0] or now[1] is not old[1]:
                    return where + 'refused, but is %r, %r now' % now
            else:
                c = type(u.function)
                if k in d:
                    bad = None if c is d[k] else 'made a %r' % c
                else:
                    bad = implements(c, k)
                    d[k] = c
                if bad or now[0] != k:
                    return where + (bad or 'identifier is %r' % now[0])
                if u is users[op[1]]:
                    state[op[1]] = now
        elif op[0] in ('custom', 'path'):
            m, d = maps[op[1]], known[op[1]]
            had = k in m
            try:
                if op[0] == 'custom':
                    m.load_custom_function(k, Factory(op[3]))
                else:
                    m.load_custom_function(k, function_factory_path=op[3])
            except Exception as e:
                err = e
            g = (GIVES[op[3]] if op[3] != 'raise' else None) \
                if op[0] == 'custom' else \
                Custom if op[3] == 'p15.makes_custom' else None
            good = k not in STANDARD and (g is NotImplemented or isinstance(
                g, type) and issubclass(g, AbstractFunction))
            if good != (err is None):
                return where + 'registration: %r' % (err or 'accepted')
            if good:
                d[k] = g
                if g is NotImplemented:
                    d.pop(k)
            elif (k in m) != had:
                return where + 'refused, but changed the map'
            if good and op[1] == 1 and not op[2].startswith('new'):
                # leave the shared map as it was
                del functionMap[k]
                d.pop(k, None)
        else:
            m, d = maps[op[1]], known[op[1]]
            m[k] = GIVES[op[3]]
            d[k] = GIVES[op[3]]
        # everything resolved so far is still there
        for m, d in zip(maps, known):
            for x, c in d.items():
                try:
                    now = m.get(x)
                except Exception as e:
                    now = e
                if now is not c:
                    return where + '%r is %r now' % (x, now)
    return None
