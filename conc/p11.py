"""P11: apply expressions and conditions with scripted arguments."""
import itertools
from ndg.xacml.core.apply import Apply
from ndg.xacml.core.condition import Condition
from ndg.xacml.core.expression import Expression
from ndg.xacml.core.functions import AbstractFunction, functionMap
from ndg.xacml.core.context.request import Request
from stubs import *         # noqa
from dress import dress, code
from values import *        # noqa

FILES = ['ndg/xacml/core/apply.py', 'ndg/xacml/core/condition.py',
         'ndg/xacml/core/expression.py', 'ndg/xacml/core/attributevalue.py']
RULE = ('apply elements with every argument list up to length 4 of values, '
        'raw results and failures, then sizes named in the code, nested '
        'applies, several applies of one function as arguments; applies of '
        'nine standard functions on right and wrong values and failures; '
        'conditions over every kind of value: booleans, typed values, bags, '
        'strings, numbers, None, failures')


class Arg(Expression):
    ELEMENT_LOCAL_NAME = 'Arg'

    def __init__(self, out):
        super(Arg, self).__init__()
        self.out, self.seen = out, []

    def evaluate(self, context):
        self.seen.append(context)
        return outcome(self.out)


class Func(AbstractFunction):
    FUNCTION_NS = 'stub'

    def evaluate(self, *inputs):
        self.log.append(inputs)
        return outcome(self.out)


V = lambda t, i: dict(t=t, i=i)
REAL = {V1 + 'and': [True, False, True, False, 0, 'x'],
        V1 + 'not': [True, False, 1],
        V1 + 'string-equal': [V('string', 1), V('string', 2), V('string', 1),
                              V('anyURI', 1)],
        V1 + 'integer-equal': [V('integer', 1), V('integer', 2), 1],
        V1 + 'boolean-equal': [V('boolean', 1), V('boolean', 0), True],
        V1 + 'string-bag': [V('string', 1), V('string', 1), V('integer', 1)],
        V1 + 'round': [1.5, 2, 'x', None],
        V1 + 'string-regexp-match': [V('string', 1), V('string', 2)],
        V2 + 'string-concatenate': [V('string', 1), V('string', 2),
                                    V('integer', 1)]}


def real(rng, tier):
    """apply elements of the standard functions"""
    for f, pool in REAL.items():
        pool = pool + ['!Odd']
        for n in range(3):
            for a in itertools.product(pool, repeat=n):
                yield dict(k='x', f=f, a=list(a))
        for _ in range(60 if tier == 'quick' else 1000):
            yield dict(k='x', f=f, a=[rng.choice(pool) for _ in range(
                rng.randint(2, 6))], two=True)


def check_real(case):
    req = Request()
    f = case['f']
    args = []
    for x in case['a']:
        args.append(Arg(value([x['t'], x['i']]) if isinstance(x, dict)
                        else x))
    fails = any(isinstance(x.out, str) and x.out.startswith('!')
                for x in args)
    want = None
    if not fails:
        try:
            want = functionMap[f]().evaluate(*[x.out for x in args])
        except Exception:
            fails = True
    a = Apply()
    a.functionId = f
    for x in args:
        a.expressions.append(x)
    for again in range(2 if case.get('two') else 1):
        try:
            r = a.evaluate(req)
        except Exception as ex:
            if fails:
                continue
            return 'apply raised %r' % (ex,)
        if fails:
            return 'apply returned %r' % (r,)
        if type(r) is not type(want) or not (
                r == want or getattr(r, 'value', 0) == getattr(
                    want, 'value', 1)):
            return 'apply returned %r, its function %r' % (r, want)
        if any(not x.seen for x in args):
            return 'argument not evaluated'


def gen(rng, hints, tier):
    yield from real(rng, tier)
    for t in ('string', 'integer'):
        for n in range(1, 4):
            for p in itertools.product([[1, 1], [1, 2], [2, 2]], repeat=n):
                yield dict(k='t', f=t, a=list(p))
    for n in range(4):
        for a in itertools.product([1, 'x', None, '!Odd', 1], repeat=n):
            yield dict(k='a', a=list(a), f='r')
    yield dict(k='a', a=[1], f=None)
    for r in (True, False, None, 0, '', [], '!Odd', '!TypeError'):
        yield dict(k='a', a=[1, 2], f=r if r is not None else 'none')
    for e in EXCNAMES:
        yield dict(k='a', a=[1, '!' + e, 2], f=True)
        yield dict(k='a', a=[1], f='!' + e)
        yield dict(k='c', v='!' + e)
    for v in (True, False, 1, 0, 'true', '', None, [], [True], ['v', 0],
              1.0, {}):
        yield dict(k='c', v=v)
    for t in sorted(URI):
        for i in range(4):
            yield dict(k='c', v=dict(t=t, i=i))
    yield dict(k='c', v='unset')
    for _ in range(1500 if tier == 'quick' else 30000):
        n = rng.choice(hints.sizes)
        a = [rng.choice([0, 1, 'x', None, True]) for _ in range(n)]
        if a and rng.random() < .2:
            a[rng.randrange(n)] = '!' + rng.choice(EXCNAMES)
        yield dict(k='a', a=a, f=rng.choice([True, False, 'r', '!Odd']),
                   nest=rng.random() < .4, z=code(rng, hints))


def check_twins(case):
    """arguments that are applies of one function to their own values"""
    a = Apply()
    a.functionId = V1 + 'and'
    for i, j in case['a']:
        b = Apply()
        b.functionId = V1 + case['f'] + '-equal'
        for k in (i, j):
            b.expressions.append(Arg(value([case['f'], k])))
        a.expressions.append(b)
    want = all(native(case['f'], i) == native(case['f'], j)
               for i, j in case['a'])
    for again in (0, 1):
        try:
            r = a.evaluate(Request())
        except Exception as ex:
            return 'apply raised %r' % (ex,)
        if r is not want:
            return 'apply returned %r for equalities of %r' % (r, case['a'])


def check(case):
    if case['k'] == 't':
        return check_twins(case)
    req = dress(Request(), case.get('z'))
    if case['k'] == 'x':
        return check_real(case)
    if case['k'] == 'c':
        c = Condition()
        if c.expression is not None:
            return 'a new condition has an expression'
        v = case['v']
        want = v if isinstance(v, bool) else None
        if isinstance(v, dict) and 't' in v:
            if v['t'] == 'boolean':
                want = native('boolean', v['i'])
            v = value([v['t'], v['i']])
        if not (isinstance(v, str) and v == 'unset'):
            e = Arg(v)
            c.expression = e
        try:
            r = c.evaluate(req)
        except Exception as ex:
            return None if want is None else 'condition raised %r' % (ex,)
        if want is None:
            return 'condition value %r counts as %r' % (case['v'], r)
        if r is not want:
            return 'condition returned %r for %r' % (r, case['v'])
        if any(x is not req for x in e.seen) or not e.seen:
            return 'expression evaluated on another request'
        return
    a = Apply()
    args = [Arg(x) for x in case['a']]
    objs = []
    for i, x in enumerate(args):
        if not (isinstance(x.out, str) and x.out.startswith('!')):
            x.out = (x.out, i)       # told apart by identity
        objs.append(x.out)
        a.expressions.append(x)
    f = None
    a.loadFunctionFromId = False
    if case['f'] is not None:
        a.functionId = 'stub'
        a.setFunctionFromMap({'stub': Func})
        f = a.function
        f.log, f.out = [], None if case['f'] == 'none' else case['f']
    isx = lambda o: isinstance(o, str) and o.startswith('!')
    top = a
    if case.get('nest'):
        top = Apply()
        top.loadFunctionFromId = False
        top.functionId = 'stub'
        top.setFunctionFromMap({'stub': Func})
        top.function.log, top.function.out = [], 'outer'
        top.expressions.append(a)
    fails = f is None or isx(f.out) or any(isx(o) for o in objs)
    for again in (0, 1):
        try:
            r = top.evaluate(req)
        except Exception as ex:
            if fails:
                continue
            return 'apply raised %r' % (ex,)
        if fails:
            return 'apply returned %r' % (r,)
        if top is not a:
            if r != 'outer' or any(i != (f.out,) for i in top.function.log):
                return 'nested apply: %r %r' % (r, top.function.log)
        elif r is not f.out:
            return 'apply returned %r, the function %r' % (r, f.out)
        for inp in f.log:
            if len(inp) != len(objs) or any(x is not y for x, y in
                                            zip(inp, objs)):
                return 'function called with %r' % (inp,)
    if not fails and not f.log:
        return 'function never called'
    for x in args:
        if any(s is not req for s in x.seen) or (not fails and not x.seen):
            return 'argument evaluated on another request'
