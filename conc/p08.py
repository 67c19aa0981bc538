"""P08: match elements with scripted designators, selectors and functions."""
from ndg.xacml.core.match import (SubjectMatch, ResourceMatch, ActionMatch,
                                  EnvironmentMatch)
from ndg.xacml.core.attributeselector import AttributeSelector
from ndg.xacml.core.attributevalue import (AttributeValue,
                                           AttributeValueClassFactory)
from ndg.xacml.core.functions import AbstractFunction
from ndg.xacml.core.context.request import Request
from ndg.xacml.utils import TypedList
from stubs import *         # noqa
from dress import dress, code

FILES = ['ndg/xacml/core/match.py']
RULE = ('a match class, a source (designator, selector or none, in some order '
        'of assignments), a bag of scripted function outcomes (true, false, '
        'raises) or a failing source; all bags up to length 4, then random '
        'bags with counts and texts from the literals in the code')
CLS = {'s': (SubjectMatch, SubjectAttributeDesignator),
       'r': (ResourceMatch, ResourceAttributeDesignator),
       'a': (ActionMatch, ActionAttributeDesignator),
       'e': (EnvironmentMatch, EnvironmentAttributeDesignator)}
STRING = 'http://www.w3.org/2001/XMLSchema#string'
SV = AttributeValueClassFactory()(STRING)


def stub(cls):
    class S(cls):
        def evaluate(self, context):
            self.seen.append(context)
            return outcome(self.out)
    S.__name__ = 'Stub' + cls.__name__
    return S


DES = {k: stub(d) for k, (m, d) in CLS.items()}
SEL = stub(AttributeSelector)
OUT = [True, False, '!Odd']


class Func(AbstractFunction):
    FUNCTION_NS = 'stub'

    def evaluate(self, *inputs):
        self.log.append(inputs)
        if len(inputs) != 2 or inputs[0] is not self.pv:
            raise Odd('bad arguments')
        for v, o in self.bag:
            if v is inputs[1]:
                return outcome(o)
        raise Odd('unknown value')


def gen(rng, hints, tier):
    import itertools
    for k in 'srae':
        for n in range(5):
            for b in itertools.product(OUT, repeat=n):
                for src in ('d', 's'):
                    if n > 2 and (src == 's') != (k == 'r'):
                        continue
                    yield dict(k=k, ops=[src], bag=list(b), txt=None)
        for ops in itertools.product(['d', 's', 'D', 'S', 'x', 'y'],
                                     repeat=3):
            yield dict(k=k, ops=list(ops), bag=[True, False], txt=None)
        yield dict(k=k, ops=[], bag=[True], txt=None)
        for e in EXCNAMES:
            yield dict(k=k, ops=['d'], bag='!' + e, txt=None)
            yield dict(k=k, ops=['s'], bag='!' + e, txt=None)
            yield dict(k=k, ops=['d'], bag=[True, '!' + e], txt=None)
            yield dict(k=k, ops=['d'], bag=['!' + e, True, False], txt=None)
    for _ in range(3000 if tier == 'quick' else 60000):
        n = rng.choice([0, 1, 2, 3]) if rng.random() < .7 else \
            rng.choice(hints.sizes)
        r = rng.random()
        bag = [rng.random() < .15 for _ in range(n)]
        if bag and r < .3:
            bag[rng.randrange(n)] = '!' + rng.choice(EXCNAMES)
        txt = [pick_str(rng, hints) for _ in range(n + 1)]
        yield dict(k=rng.choice('srae'), ops=[rng.choice('ds')], bag=bag,
                   txt=txt, z=code(rng, hints))


def check(case):
    mc, dc = CLS[case['k']]
    m = mc()
    if m.attributeDesignator is not None or m.attributeSelector is not None:
        return 'a new match has a source'
    bagspec = case['bag']
    txt = case.get('txt')
    if isinstance(bagspec, list):
        bag = TypedList(AttributeValue)
        outs = []
        for i, o in enumerate(bagspec):
            v = SV(value=txt[i] if txt else 'v')
            bag.append(v)
            outs.append((v, o))
        result = bag
    else:
        result, outs = bagspec, []
    pv = SV(value=txt[-1] if txt else 'p')
    m.attributeValue = pv
    d1, d2 = DES[case['k']](), DES[case['k']]()
    s1, s2 = SEL(), SEL()
    for x in (d1, d2, s1, s2):
        x.out, x.seen = result, []
    cur = (None, None)
    for o in case['ops']:
        if o in 'dD':
            m.attributeDesignator = {'d': d1, 'D': d2}[o]
            cur = ({'d': d1, 'D': d2}[o], None)
        elif o in 'sS':
            m.attributeSelector = {'s': s1, 'S': s2}[o]
            cur = (None, {'s': s1, 'S': s2}[o])
        else:
            for bad in (s1 if o == 'x' else d1, None, 'a', 1, object()):
                try:
                    if o == 'x':
                        m.attributeDesignator = bad
                    else:
                        m.attributeSelector = bad
                except Exception:
                    pass
                else:
                    return 'source %r accepted' % (bad,)
        if (m.attributeDesignator, m.attributeSelector) != cur:
            return 'after %r: sources %r, expected %r' % (
                case['ops'], (m.attributeDesignator, m.attributeSelector),
                cur)
    m.loadFunctionFromId = False
    m.matchId = 'stub'
    m.setFunctionFromMap({'stub': Func})
    f = m.function
    f.pv, f.bag, f.log = pv, outs, []
    req = dress(Request(), case.get('z'))
    none = cur == (None, None)
    isx = lambda o: isinstance(o, str)
    fails = none or isx(bagspec) or any(isx(o) for o in bagspec)
    try:
        r = m.evaluate(req)
    except Exception as e:
        return None if fails else 'raised %r' % (e,)
    if fails:
        return 'returned %r although %s' % (
            r, 'there is no source' if none else 'evaluation of a value fails')
    want = any(bagspec)
    if r is not want:
        return 'returned %r, expected %r' % (r, want)
    src = cur[0] or cur[1]
    if src.seen and any(c is not req for c in src.seen):
        return 'source asked about another request'
    for x in (d1, d2, s1, s2):
        if x is not src and x.seen:
            return 'a source that is not set was evaluated'
    if isinstance(bagspec, list) and len(result) != len(bagspec):
        return 'evaluation changed the bag'
