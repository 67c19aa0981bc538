"""P13: bag, one-and-only and at-least-one-member-of functions."""
import itertools
from ndg.xacml.core.functions import functionMap
from ndg.xacml.core.attributevalue import AttributeValue
from ndg.xacml.utils import TypedList
from stubs import *         # noqa
from values import *        # noqa

FILES = ['ndg/xacml/core/functions/v1/*.py', 'ndg/xacml/utils/__init__.py']
RULE = ('for each of the 13 types: argument lists and bags of sizes 0..4 and '
        'sizes named in the code, values repeated or not, one value or one '
        'bag of another type, plain lists, tuples and raw values')


def gen(rng, hints, tier):
    for t in EQUAL:
        o = 'anyURI' if t == 'string' else 'string'
        for n in range(4):
            for ks in itertools.product([1, 2], repeat=n):
                vs = [[t, k] for k in ks]
                yield dict(f=t + '-bag', a=vs)
                yield dict(f=t + '-bag', a=vs, shared=1)
                yield dict(f=t + '-one-and-only', a=[dict(t=t, v=vs)])
        for i in range(3):
            vs = [[t, 1], [t, 1], [t, 2]]
            for bad in ([o, 1], {'raw': native(t, 1)}, {'raw': None}):
                w = list(vs)
                w[i] = bad
                yield dict(f=t + '-bag', a=w)
        for b in (dict(t=o, v=[[o, 1]]), dict(t=o, v=[]),
                  dict(t='any', v=[[t, 1]]), dict(t='list', v=[[t, 1]]),
                  dict(t='tuple', v=[[t, 1]]), dict(t='raw', v=[[t, 1]]),
                  dict(t='none', v=[])):
            yield dict(f=t + '-one-and-only', a=[b])
            yield dict(f=t + '-at-least-one-member-of', a=[b, b], same=1)
            g = dict(t=t, v=[[t, 1]])
            f = t + '-at-least-one-member-of'
            for p in ([b, g], [g, b], [b, b]):
                yield dict(f=f, a=p)
        for n in range(4):
            g = dict(t=t, v=[[t, k] for k in range(n)])
            yield dict(f=f, a=[g, g], same=1)
        for n in (0, 2, 3):
            g = dict(t=t, v=[[t, 1]])
            yield dict(f=t + '-one-and-only', a=[g] * n)
            yield dict(f=f, a=[g] * (n if n != 2 else 1))
        for x in itertools.product(range(4), repeat=2):
            for ks in itertools.product([1, 2, 3], repeat=sum(x)):
                if sum(x) > 3 and t not in ('string', 'integer'):
                    continue
                yield dict(f=f, a=[dict(t=t, v=[[t, k] for k in ks[:x[0]]]),
                                   dict(t=t, v=[[t, k] for k in ks[x[0]:]])])
        for ks in itertools.product((0, 3) + SPECIAL[:3], repeat=2):
            yield dict(f=f, a=[dict(t=t, v=[[t, k]]) for k in ks])
            yield dict(f=t + '-one-and-only',
                       a=[dict(t=t, v=[[t, k] for k in ks])])
            yield dict(f=t + '-bag', a=[[t, k] for k in ks])
    for _ in range(1500 if tier == 'quick' else 30000):
        t = rng.choice(EQUAL)
        n = rng.choice(hints.sizes)

        def val(lo, hi):
            return [t, pick_str(rng, hints) if rng.random() < .3 else
                    rng.randint(lo, hi)]
        r = rng.random()
        if r < .3:
            yield dict(f=t + '-bag', a=[val(0, 50) for _ in range(n)])
        elif r < .5:
            yield dict(f=t + '-one-and-only', a=[dict(
                t=t, v=[val(0, 50) for _ in range(
                    1 if rng.random() < .5 else n)])])
        else:
            yield dict(f=t + '-at-least-one-member-of', a=[
                dict(t=t, v=[val(0, 60) for _ in range(n)]),
                dict(t=t, v=[val(50, 99) for _ in range(
                    rng.choice(hints.sizes))])])


def bag(b):
    vs = [value(v) for v in b['v']]
    t = b['t']
    if t == 'list':
        return vs
    if t == 'tuple':
        return tuple(vs)
    if t == 'raw':
        return vs[0]
    if t == 'none':
        return None
    l = TypedList(AttributeValue if t == 'any' else F(URI[t]))
    for v in vs:
        l.append(v)
    return l


def check(case):
    f, a = case['f'], case['a']
    t, kind = f.split('-', 1)
    fn_ = functionMap[V1 + f]()
    if kind == 'bag':
        args = [value(x) for x in a]
        if case.get('shared'):
            # equal values are the same object
            args = [args[a.index(x)] for x in a]
        good = all(isinstance(x, list) and x[0] == t for x in a)
    else:
        args = []
        for i, x in enumerate(a):
            args.append(args[0] if i and case.get('same') else bag(x))
        good = len(a) == (1 if kind == 'one-and-only' else 2) and all(
            x['t'] == t for x in a)
        if good and kind == 'one-and-only':
            good = len(a[0]['v']) == 1
        snap = [list(x) if isinstance(x, list) else x for x in args]
    for again in (0, 1):
        try:
            r = fn_.evaluate(*args)
        except Exception as e:
            if good:
                return '%s raised %r' % (f, e)
            continue
        if not good:
            return '%s accepted its arguments and returned %r' % (f, r)
        if kind == 'bag':
            if type(r) is not TypedList or r.elementType is not F(URI[t]):
                return 'not a bag of %s: %r' % (t, r)
            if len(r) != len(args) or any(x is not y
                                          for x, y in zip(r, args)):
                return 'bag holds %r' % ([x.value for x in r],)
        elif kind == 'one-and-only':
            if r is not args[0][0]:
                return '%s returned %r' % (f, r)
        else:
            want = any(native(*x) == native(*y) for x in a[0]['v']
                       for y in a[1]['v'])
            if r is not want:
                return '%s returned %r, expected %r' % (f, r, want)
    if kind != 'bag':
        for x, y in zip(args, snap):
            if isinstance(x, list) and (len(x) != len(y) or any(
                    p is not q for p, q in zip(x, y))):
                return 'a bag argument changed'
