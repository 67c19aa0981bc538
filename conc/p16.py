"""P16: sequences of operations on attribute values and on the table of
attribute value classes."""
import itertools
from datetime import datetime, date, time, timedelta
from ndg.xacml.core.attributevalue import (AttributeValue,
                                           AttributeValueClassMap,
                                           AttributeValueClassFactory as F,
                                           AttributeValueClassMap)
from ndg.xacml.core.attribute import Attribute
from stubs import *         # noqa
from values import URI, NATIVE

FILES = ['ndg/xacml/core/attributevalue.py', 'ndg/xacml/core/expression.py']
RULE = ('sequences of 1..6 operations (construct, assign, compare, look a '
        'class up, register one) on 3 values of all data types and custom '
        'ones, with contents of every native kind and near kinds; contents '
        'and the whole class table checked after each')


class Text(str):
    pass


class Number(int):
    pass


class Money(object):
    def __init__(self, n):
        self.n = n

    def __eq__(self, o):
        return isinstance(o, Money) and o.n == self.n

    def __repr__(self):
        return 'Money(%r)' % self.n


class MoneyValue(AttributeValue):
    TYPE = Money
    IDENTIFIER = 'urn:example:money'


class OtherValue(AttributeValue):
    TYPE = list
    IDENTIFIER = 'urn:example:other'


class DerivedValue(MoneyValue):
    IDENTIFIER = 'urn:example:derived'


D0 = datetime(2010, 3, 31, 12)
VALS = [None, '', 'a', 'A', 'ab', 'a\x00', '1', 'true', '2010-03-31', b'a',
        b'', 0, 1, -1, 10 ** 20, True, False, 0.0, 1.0, 1.5, -0.0,
        float('inf'), float('nan'), D0, D0.replace(microsecond=1), D0.date(),
        D0.time(), D0 + timedelta(1), timedelta(0), timedelta(1),
        timedelta(0, 86400), [], ['a'], ('a',), (), {}, set(), 1j, object,
        str, int, Text('a'), Text(''), Number(1), Money(1), Money(2),
        NotImplemented, Exception('a')]
TYPES = dict(NATIVE)
NAMES = sorted(URI) + ['base64Binary', 'money']
URIS = dict(URI)
URIS['base64Binary'] = AttributeValue.BASE64BINARY_TYPE_URI
URIS['money'] = MoneyValue.IDENTIFIER
for _n in URI:
    TYPES.setdefault(_n, str)
TYPES['money'] = Money
CLASSES = {n: F()(URIS[n]) for n in NAMES if n != 'money'}
CLASSES['money'] = MoneyValue
OPS = ['set', 'set', 'eq', 'ne', 'make', 'find', 'add', 'over', 'find']
REG = [MoneyValue, OtherValue, DerivedValue, CLASSES['integer'], CLASSES['string'], str,
       object, None, 'MoneyValue', MoneyValue(Money(1)), 3, Attribute, int]
KEYS = [None, 3, b'urn:new', ('urn:new',)]
fresh = itertools.count()


def keys_of(hints):
    near = [u + x for u in URIS.values() for x in ('#', ' ', '/')] + \
        [u.upper() for u in URIS.values()] + [u[:-1] for u in URIS.values()]
    return sorted(URIS.values()) + near + ['', 'string', 'String', 'new',
                                           'new2'] + hints.strs


def ok(n, v):
    return n != 'base64Binary' and isinstance(v, TYPES[n])


def gen(rng, hints, tier):
    ks = keys_of(hints)
    for n in NAMES:
        for i in range(len(VALS)):
            for j in (None, i):
                yield dict(vals=[[n, j], [n, None], [n, None]],
                           ops=[['make', 0, n, i], ['set', 0, i],
                                ['eq', 0, 1], ['set', 1, i], ['eq', 0, 1],
                                ['ne', 1, 0], ['set', 0, 0],
                                ['eq', 0, 'v', i]])
    for n in NAMES:
        for m in NAMES:
            for i in (None, 2, 12, 15, 23):
                yield dict(vals=[[n, i], [m, i], [n, i]],
                           ops=[['eq', 0, 1], ['ne', 0, 1], ['eq', 1, 0],
                                ['eq', 0, 2]])
    for k in ks:
        yield dict(vals=[], ops=[['find', k]])
        for r in range(4):
            yield dict(vals=[], ops=[['over', k, r], ['add', k, (r + 1) % 4],
                                     ['find', k]])
        for r in range(len(REG)):
            yield dict(vals=[], ops=[['find', k], ['add', k, r], ['find', k],
                                     ['over', k, (r + 1) % 5], ['find', k],
                                     ['add', k, r], ['find', k]])
    N = 4000 if tier == 'quick' else 60000
    for _ in range(N):
        a = rng.choice(NAMES)
        vals = []
        for _ in range(3):
            n = a if rng.random() < .7 else rng.choice(NAMES)
            good = [i for i, v in enumerate(VALS) if v is None or ok(n, v)]
            vals.append([n, rng.choice(good)])
        ops = []
        pool = rng.sample(ks, 2) + ['new']
        for _ in range(rng.randint(1, 6)):
            op = rng.choice(OPS)
            if op == 'set':
                ops.append([op, rng.randrange(3), rng.randrange(len(VALS))])
            elif op in ('eq', 'ne'):
                ops.append([op, rng.randrange(3), rng.randrange(3)]
                           if rng.random() < .9 else
                           [op, rng.randrange(3), 'v',
                            rng.randrange(len(VALS))])
            elif op == 'make':
                ops.append([op, 0, rng.choice(NAMES),
                            rng.randrange(len(VALS))])
            elif op == 'find':
                ops.append([op, rng.choice(pool)])
            else:
                ops.append([op, rng.choice(pool) if rng.random() < .95 else
                            ['k', rng.randrange(len(KEYS))],
                            rng.randrange(5) if rng.random() < .8 else
                            rng.randrange(len(REG))])
        yield dict(vals=vals, ops=ops)


def same(a, b):
    return a is b or (type(a) is type(b) and a == b)


def table():
    return dict(F.IDENTIFIER2CLASS_MAP.items())


def check(case):
    before = table()
    try:
        return _check(case, dict(before))
    finally:
        m = F.IDENTIFIER2CLASS_MAP
        for k in list(m.keys()):
            if k not in before:
                del m[k]
        for k, c in before.items():
            m[k] = c


def _check(case, tab):
    n0 = next(fresh)
    objs, model, tys = [], [], []
    for n, j in case['vals']:
        v = None if j is None else VALS[j]
        if v is not None and not ok(n, v):
            j = v = None
        try:
            objs.append(CLASSES[n]() if j is None else CLASSES[n](value=v))
        except Exception as e:
            return 'cannot make a %s of %r: %r' % (n, v, e)
        model.append(v)
        tys.append(n)

    def states():
        for i, o in enumerate(objs):
            if not same(o.value, model[i]) or o.dataType != URIS[tys[i]]:
                return 'value %d holds %r, not %r' % (i, o.value, model[i])
        now = table()
        if now != tab:
            return 'class table: %r instead of %r' % (
                [k for k in set(now) | set(tab) if now.get(k) is not
                 tab.get(k)][:3], len(tab))
        return None
    m = states()
    if m:
        return 'at the start: ' + m
    for i, op in enumerate(case['ops']):
        where = 'step %d (%s): ' % (i, op)
        try:
            res, err = None, None
            if op[0] == 'make':
                v = VALS[op[3]]
                o = None
                try:
                    o = CLASSES[op[2]](value=v)
                except Exception as e:
                    err = e
                good = v is None or ok(op[2], v)
                if good != (err is None):
                    return where + 'construction with %r: %r' % (
                        v, err or 'accepted')
                if good and (type(o) is not CLASSES[op[2]] or
                             not same(o.value, v) or
                             o.dataType != URIS[op[2]]):
                    return where + 'made %r' % o.value
            elif op[0] == 'set':
                v = VALS[op[2]]
                try:
                    objs[op[1]].value = v
                except Exception as e:
                    err = e
                good = ok(tys[op[1]], v)
                if good != (err is None):
                    return where + 'assigning %r to a %s: %r' % (
                        v, tys[op[1]], err or 'accepted')
                if good:
                    model[op[1]] = v
            elif op[0] in ('eq', 'ne'):
                a = objs[op[1]]
                b = VALS[op[3]] if op[2] == 'v' else objs[op[2]]
                try:
                    res = a == b if op[0] == 'eq' else a != b
                except Exception as e:
                    err = e
                good = op[2] != 'v' and tys[op[1]] == tys[op[2]]
                if good != (err is None):
                    return where + 'comparison of %s with %r: %r' % (
                        tys[op[1]], b, err or res)
                if good:
                    want = (model[op[1]] == model[op[2]]) == (op[0] == 'eq')
                    if res is not want:
                        return where + 'gave %r' % res
            elif op[0] == 'find':
                k = op[1]
                if k.startswith('new'):
                    k = 'urn:example:%s:%d' % (k, n0)
                for f in (F(), F(None), F(F.IDENTIFIER2CLASS_MAP)):
                    if f(k) is not tab.get(k):
                        return where + 'found %r' % f(k)
                own = AttributeValueClassMap()
                own['urn:own'] = MoneyValue
                for x, w in ((k, None), ('urn:own', MoneyValue)):
                    if x != 'urn:own' and F(own)(x) is not w:
                        return where + 'found %r in a table without it' % (
                            F(own)(x),)
                    if x == 'urn:own' and F(own)(x) is not w:
                        return where + 'not found in its own table'
            else:
                k = KEYS[op[1][1]] if isinstance(op[1], list) else op[1]
                if isinstance(k, str) and k.startswith('new'):
                    k = 'urn:example:%s:%d' % (k, n0)
                c = REG[op[2]]
                try:
                    if op[0] == 'add':
                        F.addClass(k, c)
                    else:
                        F.addClass(k, c, overwrite=True)
                except Exception as e:
                    err = e
                good = isinstance(k, str) and isinstance(c, type) and \
                    issubclass(c, AttributeValue)
                if good != (err is None):
                    return where + 'registering %r: %r' % (
                        c, err or 'accepted')
                if good and (op[0] == 'over' or k not in tab):
                    tab[k] = c
        except Exception as e:
            return where + 'failed with %r' % e
        m = states()
        if m:
            return where + m
    return None
