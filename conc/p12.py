"""P12: logical, equality and match functions on generated arguments."""
import itertools
from ndg.xacml.core.functions import functionMap
from stubs import *         # noqa
from values import *        # noqa

FILES = ['ndg/xacml/core/functions/v1/*.py']
RULE = ('and/not: every argument list up to length 4 over true, false and '
        'non-booleans, then random lists with lengths from the literals in '
        'the code; equality and match functions: all pairs of contents from '
        'a pool, all pairs of types, raw values and wrong argument counts')
RAW = [1, 0, 'true', None, 1.5, [], 'x']


def gen(rng, hints, tier):
    for n in range(5):
        for a in itertools.product([True, False, 1, None, 'x'], repeat=n):
            yield dict(f='and', a=list(a))
            if n < 4:
                yield dict(f='not', a=list(a))
    fs = [t + '-equal' for t in EQUAL] + ['x500Name-match',
                                          'rfc822Name-match']
    for f in fs:
        t = f.split('-')[0]
        for i, j in itertools.product(range(14), repeat=2):
            yield dict(f=f, a=[[t, i], [t, j]])
        for i, j in itertools.product((0, 3, 4, 7) + SPECIAL, repeat=2):
            yield dict(f=f, a=[[t, i], [t, j]])
            if i == j:
                yield dict(f=f, a=[[t, i], [t, j]], same=1)
        for t1, t2 in itertools.product(EQUAL, repeat=2):
            if t in (t1, t2):
                yield dict(f=f, a=[[t1, 1], [t2, 1]])
        for r in RAW:
            yield dict(f=f, a=[[t, 1], {'raw': r}])
            yield dict(f=f, a=[{'raw': r}, [t, 1]])
            yield dict(f=f, a=[{'raw': r}, {'raw': r}])
        for n in (0, 1, 3, 4):
            yield dict(f=f, a=[[t, 1]] * n)
    for _ in range(2000 if tier == 'quick' else 40000):
        r = rng.random()
        if r < .3:
            n = rng.choice(hints.sizes)
            a = [True] * n
            for _ in range(rng.choice([0, 0, 1, 1, 2])):
                if a:
                    a[rng.randrange(n)] = rng.choice(
                        [False, False, 1, 0, 'True', None])
            yield dict(f='and', a=a)
        elif r < .35:
            yield dict(f='not', a=[rng.choice([True, False, 1, 0, None])])
        else:
            f = rng.choice(fs)
            t = f.split('-')[0]
            k1 = pick_str(rng, hints) if rng.random() < .6 else \
                rng.choice(hints.ints + [1, 2, 3])
            k2 = k1 if rng.random() < .5 else (
                pick_str(rng, hints) if rng.random() < .5 else
                (k1.upper() if isinstance(k1, str) else k1 + 1))
            t2 = t if rng.random() < .85 else rng.choice(EQUAL)
            yield dict(f=f, a=[[t, k1], [t2, k2]])


def check(case):
    f, a = case['f'], case['a']
    cls = functionMap[V1 + f]
    fn_ = cls()
    if f in ('and', 'not'):
        args = a
        good = all(isinstance(x, bool) for x in a) and (
            f == 'and' or len(a) == 1)
        want = None if not good else all(a) if f == 'and' else not a[0]
    else:
        t = f.split('-')[0]
        args = [value(x) for x in a]
        good = len(a) == 2 and all(isinstance(x, list) and x[0] == t
                                   for x in a)
        if case.get('same'):
            args[1] = args[0]
        want = good and native(*a[0]) == native(*a[1])
    before = [getattr(x, 'value', x) for x in args]
    for again in (0, 1):
        try:
            r = fn_.evaluate(*args)
        except Exception as e:
            if good:
                return '%s raised %r' % (f, e)
            continue
        if not good:
            return '%s accepted its arguments and returned %r' % (f, r)
        if r is not want:
            return '%s returned %r, expected %r' % (f, r, want)
    if [getattr(x, 'value', x) for x in args] != before:
        return 'arguments changed'
