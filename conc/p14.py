"""P14: concatenate, regexp-match and round on generated histories."""
import itertools
import re
from ndg.xacml.core.functions import functionMap
from stubs import *         # noqa
from values import *        # noqa

FILES = ['ndg/xacml/core/functions/v1/r*.py',
         'ndg/xacml/core/functions/v2/*.py']
RULE = ('concatenate: every list of up to 3 right, wrong-typed or raw '
        'arguments and longer random ones; regexp-match: sequences of '
        'evaluations over a pool of patterns and texts, including invalid '
        'patterns, repeated patterns across data types, literals in the '
        'code; round: numbers around .5 boundaries and non-numbers')
CONCAT = {'string-concatenate': 'string', 'url-string-concatenate': 'anyURI'}
REGEXP = {V1 + 'string-regexp-match': 'string'}
REGEXP.update({V2 + n + '-regexp-match': n for n in (
    'anyURI', 'ipAddress', 'dnsName', 'rfc822Name', 'x500Name')})
PATS = ['', 'a', 'a*', '^a$', 'b', 'A', 'a|b', '.', '.*b', 'ab', '(', '[',
        'a{2}', '\\d+', '^.*y$', '$']
TEXTS = ['', 'a', 'b', 'ab', 'ba', 'aa', 'A', '1', '12', 'xy', 'x\ny', '(']
NUMS = [0, 1, -1, 7, 10 ** 20, 10 ** 20 + 1, -10 ** 25 - 1,
        2. ** 31 + .75, 2. ** 31 + 1.5, -2. ** 31 - 1.75, 2. ** 40 + .6,
        2. ** 50 + .75, 2. ** 52 + 1, -99999.5, 1e5 + .5, 0.4, 0.5, 0.6, 1.5, 2.5, -0.5, -1.5, 3.7,
        -3.2, 1e300, True]
NOTNUM = [None, 'x', '1', [], {}, ['string', 1]]


def near(rng, p):
    """a string a careless cache could take for p"""
    return rng.choice([' ' + p, p + ' ', p.upper(), p.lower(), p[:-1],
                       p + '\n', '\t' + p, p + '$', '^' + p, p[1:],
                       p.swapcase(), p[::-1], p * 2, p.title()])


def gen(rng, hints, tier):
    for f, t in CONCAT.items():
        o = 'anyURI' if t == 'string' else 'string'
        pool = [[t, 'p'], ['string', 'q'], [o, 'r'], {'raw': 's'},
                ['integer', 3], ['string', ''], [t, '']]
        for n in range(4):
            for a in itertools.product(pool, repeat=n):
                yield dict(k='c', f=f, a=list(a))
                if n > 1 and len(set(map(str, a))) < n:
                    yield dict(k='c', f=f, a=list(a), shared=1)
        for n in hints.sizes[:30]:
            for bad in (None, rng.randrange(n) if n else None):
                a = [[t if i == 0 else 'string', rng.choice(
                    ['v%d;', ' v%d', 'v%d ', '%d'] if n < 9 else
                    ['v%d;']) % i] for i in range(n)]
                if bad is not None:
                    a[bad] = rng.choice([['dnsName', 'z'], {'raw': 'z'}])
                yield dict(k='c', f=f, a=a)
    for f, t in REGEXP.items():
        for p in PATS:
            yield dict(k='r', s=[[f, [t, p], [t, x]] for x in TEXTS])
        yield dict(k='r', s=[[f, [t, 'a'], ['integer', 1]],
                             [f, ['boolean', 1], [t, 'a']],
                             [f, {'raw': 'a'}, [t, 'a']],
                             [f, [t, 'a'], {'raw': 'a'}],
                             [f, [t, 'a'], {'raw': None}],
                             [f, [t, 'a'], [t, 'a']]])
        for t2 in ('string', 'anyURI', 'ipAddress', 'dnsName', 'rfc822Name',
                   'x500Name'):
            yield dict(k='r', s=[[f, [t, 'a'], [t2, 'ab']],
                                 [f, [t2, 'a'], [t, 'ab']]])
        for n in (0, 1, 3):
            yield dict(k='r', s=[[f] + [[t, 'a']] * n])
    for x in NUMS + [h + d for h in hints.ints for d in (0, .5, -.25)]:
        yield dict(k='n', a=[x], ok=True)
    for x in NOTNUM:
        yield dict(k='n', a=[x], ok=False)
    yield dict(k='n', a=[], ok=False)
    yield dict(k='n', a=[1, 2], ok=False)
    for _ in range(600 if tier == 'quick' else 20000):
        s = []
        pats = [pick_str(rng, hints) if rng.random() < .3 else
                rng.choice(PATS) for _ in range(3)]
        pats += [near(rng, p) for p in pats]
        texts = [pick_str(rng, hints) if rng.random() < .3 else
                 rng.choice(TEXTS) for _ in range(3)] + pats
        texts += [near(rng, x) for x in texts]
        n = rng.choice([3, 10, 40]) if rng.random() < .95 else 400
        for i in range(n):
            f = rng.choice(list(REGEXP))
            t = REGEXP[f]
            p = rng.choice(pats) if n < 400 else 'k%d' % i
            s.append([f, [t, p], [t if rng.random() < .9 else 'dnsName',
                                  rng.choice(texts)]])
        if n == 400:
            s = s + s[:20]
        yield dict(k='r', s=s)


def check(case):
    k = case['k']
    if k == 'c':
        f, a = case['f'], case['a']
        t = CONCAT[f]
        args = [value(x) for x in a]
        if case.get('shared'):
            # equal values are the same object
            args = [args[a.index(x)] for x in a]
        good = len(a) >= 2 and all(
            isinstance(x, list) and x[0] == (t if i == 0 else 'string')
            for i, x in enumerate(a))
        before = [getattr(x, 'value', x) for x in args]
        for again in (0, 1):
            try:
                r = functionMap[V2 + f]().evaluate(*args)
            except Exception as e:
                if good:
                    return '%s raised %r' % (f, e)
                continue
            if not good:
                return '%s accepted its arguments and returned %r' % (f, r)
            if type(r) is not F(URI[t]):
                return '%s returned a %r' % (f, type(r))
            if r.value != ''.join(x[1] for x in a):
                return '%s returned %r' % (f, r.value)
        if [getattr(x, 'value', x) for x in args] != before:
            return 'arguments changed'
    elif k == 'r':
        for i, (f, *a) in enumerate(case['s']):
            t = REGEXP[f]
            good = len(a) == 2 and all(isinstance(x, list) and x[0] == t
                                       for x in a)
            if good:
                try:
                    want = re.match(a[0][1], a[1][1]) is not None
                except re.error:
                    good = False
            try:
                r = functionMap[f]().evaluate(*[value(x) for x in a])
            except Exception as e:
                if good:
                    return 'step %d: %r raised %r' % (i, a, e)
                continue
            if not good:
                return 'step %d: %s%r returned %r' % (i, f, a, r)
            if r is not want:
                return 'step %d: %r matched: %r, expected %r' % (i, a, r,
                                                                 want)
    else:
        a = [value(x) if isinstance(x, list) and x else x for x in case['a']]
        try:
            r = functionMap[V1 + 'round']().evaluate(*a)
        except Exception as e:
            if case['ok']:
                return 'round%r raised %r' % (tuple(a), e)
            return
        if not case['ok']:
            return 'round%r returned %r' % (tuple(a), r)
        if r != round(a[0]):
            return 'round(%r) returned %r' % (a[0], r)
