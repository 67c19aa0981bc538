"""P07: Target.match with scripted match elements in real target objects."""
import itertools
from ndg.xacml.core.subject import Subject
from ndg.xacml.core.resource import Resource
from ndg.xacml.core.action import Action
from ndg.xacml.core.environment import Environment
from ndg.xacml.core.match import (SubjectMatch, ResourceMatch, ActionMatch,
                                  EnvironmentMatch)
from ndg.xacml.core.context.request import Request
from stubs import *         # noqa
from dress import dress, code

FILES = ['ndg/xacml/core/target.py', 'ndg/xacml/core/__init__.py',
         'ndg/xacml/core/subject.py']
RULE = ('targets given as four lists of elements, each a list of outcomes '
        '(true, false, raises); all shapes with up to two elements of up to '
        'two matches in one section, then random targets over all sections, '
        'counts from the literals in the code')
SECT = [('subjects', Subject, SubjectMatch),
        ('resources', Resource, ResourceMatch),
        ('actions', Action, ActionMatch),
        ('environments', Environment, EnvironmentMatch)]


def mk(cls):
    class M(cls):
        def evaluate(self, context):
            self.log.append(context)
            return outcome(self.out)
    M.__name__ = 'Stub' + cls.__name__
    return M


STUB = {n: mk(m) for n, c, m in SECT}
OUT = [True, False, '!Odd']


def gen(rng, hints, tier):
    elems = [list(c) for n in range(3) for c in itertools.product(OUT,
                                                                  repeat=n)]
    for s in range(4):
        for n in range(3):
            for combo in itertools.product(elems, repeat=n):
                t = [[], [], [], []]
                t[s] = [list(e) for e in combo]
                yield dict(t=t)
    for _ in range(4000 if tier == 'quick' else 80000):
        fail = rng.random() < .4

        def el():
            k = rng.choice([0, 1, 1, 2, 3]) if rng.random() < .95 else \
                rng.choice(hints.sizes)
            r = rng.random()
            if r < .4:
                return [True] * k
            return [rng.choice(OUT if fail else OUT[:2]) if rng.random() < .5
                    else True for _ in range(k)]
        t = []
        for s in range(4):
            n = rng.choice([0, 1, 1, 2, 3]) if rng.random() < .95 else \
                rng.choice(hints.sizes)
            t.append([el() for _ in range(n)])
        if fail and rng.random() < .5:
            e = '!' + rng.choice(EXCNAMES)
            t = [[[e if x == '!Odd' else x for x in el] for el in s]
                 for s in t]
        yield dict(t=t, z=[code(rng, hints) for _ in range(4)])


def check(case):
    t = Target()
    log = []
    z = case.get('z') or [None] * 4
    for (n, c, m), sec in zip(SECT, case['t']):
        for el in sec:
            e = c()
            for o in el:
                x = STUB[n]()
                x.out, x.log = o, log
                dress(x, z[len(e.matches) % 3])
                e.matches.append(x)
            getattr(t, n).append(e)
    secs = case['t']
    isx = lambda o: isinstance(o, str)
    yes = all(not s or any(all(o is True for o in e) for e in s)
              for s in secs)
    no = any(s and all(any(o is False for o in e) for e in s) for s in secs)
    fails = any(isx(o) for s in secs for e in s for o in e)
    req = dress(Request(), z[3])
    try:
        r = t.match(req)
    except Exception as x:
        if not fails:
            return 'raised %r with no failing match element' % (x,)
        r = None
    if r is not None or not fails:
        if r is not True and r is not False:
            return 'returned %r' % (r,)
        if r and not yes:
            return 'matched, expected %s' % ('no match' if no else 'error')
        if not r and not no:
            return 'did not match, expected %s' % ('match' if yes
                                                   else 'error')
    if any(c is not req for c in log):
        return 'match asked about another request'
    # the target itself is not changed by matching
    for (n, c, m), sec in zip(SECT, secs):
        if [[x.out for x in e.matches] for e in getattr(t, n)] != sec:
            return 'matching changed the target'
