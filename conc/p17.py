"""P17: sequences of operations on the typed collections against plain
Python models of them."""
import itertools
from ndg.xacml.utils import (TypedList, UniqList, VettedDict,
                             RestrictedKeyNamesDict)
from stubs import *         # noqa

FILES = ['ndg/xacml/utils/__init__.py']
RULE = ('sequences of 1..6 operations on lists and dictionaries of 0..4 '
        'initial items; every batch given as list, tuple, one-shot iterator, '
        'generator or the collection itself, with or without a wrongly typed '
        'item at any position, with and without repeated items')
FORM = ['list', 'tuple', 'iter', 'gen', 'typed', 'self', 'keys']
ET = {'str': str, 'int': int, 'both': (str, float), 'list': list}
KEYF = {'all': lambda k: True, 'a': lambda k: k[:1] == 'a' if isinstance(
            k, str) else False, 'none': lambda k: 0, 'truthy': lambda k: k,
        'raise': lambda k: KEYF['all'](k) if k != 'a1' else 1 // 0}
KEYS = ['a', 'a1', 'b', '', 'c', 0, None]
VALS = [0, 1, None, '', 'x', 'a', False]


def items(rng, hints, et, bad):
    good = {'str': ['a', 'b', 'c', ''], 'int': [1, 2, 0, True, 5],
            'both': ['a', 1.5, ''], 'list': [[], [1]]}[et]
    if et == 'str' and rng.random() < .3:
        good = good + [pick_str(rng, hints)]
    n = rng.choice([0, 1, 1, 2, 2, 3, 4] + hints.sizes[:12])
    l = [rng.choice(good) for _ in range(n)]
    if bad and l:
        l[rng.randrange(n)] = rng.choice(
            [None, (), {}] + ([1] if et != 'int' else ['a']))
    return l


def gen(rng, hints, tier):
    for et in ET:
        for op in ('extend', 'iadd'):
            for form in FORM:
                for bad in (False, True):
                    for _ in range(3):
                        yield dict(c='typed', et=et, init=items(
                            rng, hints, et, False), ops=[
                                [op, form, items(rng, hints, et, bad)]])
    for init in ([], ['a'], ['a', 'b']):
        for form in FORM:
            for op in ('extend', 'iadd'):
                for l in itertools.product('abc', repeat=3):
                    yield dict(c='uniq', init=init, ops=[[op, form,
                                                          list(l)]])
    for _ in range(2500 if tier == 'quick' else 50000):
        r = rng.random()
        if r < .35:
            et = rng.choice(list(ET))
            ops = []
            for _ in range(rng.randint(1, 6)):
                op = rng.choice(['append', 'extend', 'iadd'])
                l = items(rng, hints, et, rng.random() < .3)
                ops.append([op, rng.choice(FORM), l])
            yield dict(c='typed', et=et, init=items(rng, hints, et, False),
                       ops=ops)
        elif r < .6:
            ops = []
            for _ in range(rng.randint(1, 6)):
                op = rng.choice(['append', 'extend', 'iadd'])
                ops.append([op, rng.choice(FORM), items(
                    rng, hints, rng.choice(['str', 'int']), False)])
            yield dict(c='uniq', init=sorted(set(items(
                rng, hints, 'str', False))), ops=ops)
        elif r < .8:
            ops = []
            for _ in range(rng.randint(1, 8)):
                ops.append([rng.choice(['set', 'set', 'get', 'getd', 'item',
                                        'in', 'del', 'all', 'getk']),
                            rng.choice(KEYS), rng.choice(VALS)])
            yield dict(c='vetted', k=rng.choice(list(KEYF)),
                       v=rng.choice(list(KEYF)), ops=ops)
        else:
            init = {k: rng.choice(VALS) for k in rng.sample(
                KEYS, rng.randint(0, 4))}
            ops = []
            for _ in range(rng.randint(1, 6)):
                other = [[k, rng.choice(VALS)] for k in rng.sample(
                    KEYS, rng.randint(0, 3))]
                kw = rng.choice([{}, {}, {'a': 7}, {'b': 8, 'zz': 9},
                                 {'zz': 9}])
                ops.append([rng.choice(['set', 'update', 'updk']),
                            rng.choice(KEYS), rng.choice(VALS), other, kw])
            yield dict(c='restricted', init=[[k, v] for k, v in
                                             init.items()], ops=ops,
                       form=rng.choice([0, 0, 1, 2, 3]))


def batch(form, l, me):
    if form == 'tuple':
        return tuple(l)
    if form == 'iter':
        return iter(l)
    if form == 'gen':
        return (x for x in l)
    if form == 'typed':
        t = TypedList(object)
        for x in l:
            list.append(t, x)
        return t
    if form == 'self':
        return me
    if form == 'keys':
        return map(lambda x: x, l)
    return list(l)


def same(a, b):
    return len(a) == len(b) and all(
        type(x) is type(y) and x == y for x, y in zip(a, b))


def check(case):
    c = case['c']
    if c in ('typed', 'uniq'):
        et = ET.get(case.get('et'))
        me = TypedList(et) if c == 'typed' else UniqList()
        model = []
        for x in case['init']:
            me.append(x)
            model.append(x)
        orig = me
        for i, (op, form, l) in enumerate(case['ops']):
            if op == 'append':
                if not l:
                    continue
                l = l[:1]
                arg = l[0]
            else:
                arg = batch(form, l, me)
                if form == 'self':
                    l = list(model)
            if c == 'typed':
                good = all(isinstance(x, et) for x in l)
                new = model + l
            else:
                good, new = True, list(model)
                for x in l:
                    if x not in new:
                        new.append(x)
            try:
                if op == 'append':
                    me.append(arg)
                elif op == 'extend':
                    me.extend(arg)
                else:
                    me += arg
            except Exception as e:
                if good:
                    return 'step %d: %s(%r) raised %r' % (i, op, l, e)
                if not same(me, model):
                    return 'step %d: a refused %s(%r) left %r' % (
                        i, op, l, list(me))
                continue
            if not good:
                return 'step %d: %s(%r) accepted' % (i, op, l)
            if me is not orig:
                return 'step %d: += gave another list' % i
            model = new
            if not same(me, model):
                return 'step %d: after %s(%r) as %s: %r, expected %r' % (
                    i, op, l, form, list(me), model)
            if c == 'typed' and me.elementType is not et:
                return 'element type changed'
    elif c == 'vetted':
        kf, vf = KEYF[case['k']], KEYF[case['v']]
        me = VettedDict(kf, vf)
        model = {}
        for i, (op, k, v) in enumerate(case['ops']):
            try:
                want = None
                if op == 'set':
                    if kf(k) and vf(v):
                        model[k] = v
                elif op == 'get':
                    want = model.get(k)
                elif op in ('getd', 'getk'):
                    want = model.get(k, v)
                elif op == 'item':
                    want = model[k]
                elif op == 'in':
                    want = k in model
                elif op == 'del':
                    del model[k]
                wrong = None
            except Exception as e:
                wrong = type(e)
            try:
                r = None
                if op == 'set':
                    me[k] = v
                elif op == 'get':
                    r = me.get(k)
                elif op in ('getd', 'getk'):
                    r = me.get(k, v)
                elif op == 'item':
                    r = me[k]
                elif op == 'in':
                    r = k in me
                elif op == 'del':
                    del me[k]
                got = None
            except Exception as e:
                got = type(e)
            if (got is None) != (wrong is None) or (
                    wrong is KeyError and got is not KeyError):
                return 'step %d: %s %r raised %r, expected %r' % (
                    i, op, k, got, wrong)
            if wrong is None and (r is not want and r != want or
                                  type(r) is not type(want)):
                return 'step %d: %s %r gave %r, expected %r' % (i, op, k, r,
                                                               want)
            if dict(me.items()) != model or len(me) != len(model) or list(
                    me) != list(model) or list(me.values()) != list(
                        model.values()) or list(me.keys()) != list(model):
                return 'step %d: after %s content is %r, expected %r' % (
                    i, op, me, model)
    else:
        init = dict((k, v) for k, v in case['init'])
        form = case.get('form')
        me = RestrictedKeyNamesDict(init) if not form else \
            RestrictedKeyNamesDict(list(init.items())) if form == 1 else \
            RestrictedKeyNamesDict(init, extra=5) if form == 2 else \
            RestrictedKeyNamesDict(extra=5)
        if form == 3:
            init = {}
        if form in (2, 3):
            init['extra'] = 5
            if dict(me) != init:
                return 'made with %r' % dict(me)
        names = set(init)
        model = dict(init)
        for i, (op, k, v, other, kw) in enumerate(case['ops']):
            other = dict((a, b) for a, b in other)
            if op == 'updk':
                other = {a: b for a, b in other.items() if a in names}
            if op == 'set':
                good = k in names
            else:
                good = set(other) <= names and set(kw) <= names
            try:
                if op == 'set':
                    me[k] = v
                else:
                    me.update(other, **kw)
            except KeyError as e:
                if good:
                    return 'step %d: %s raised %r' % (i, op, e)
            except Exception as e:
                return 'step %d: %s raised %r' % (i, op, e)
            else:
                if not good:
                    return 'step %d: %s %r %r %r accepted' % (i, op, k,
                                                              other, kw)
                if op == 'set':
                    model[k] = v
                else:
                    model.update(other, **kw)
            if dict(me) != model:
                return 'step %d: content %r, expected %r' % (i, dict(me),
                                                             model)
