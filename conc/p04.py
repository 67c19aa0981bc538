"""P04: Rule.evaluate with scripted targets and conditions."""
import itertools
from ndg.xacml.core.rule import Rule, Effect
from ndg.xacml.core.context.request import Request
from ndg.xacml.core.context.result import Decision
from stubs import *         # noqa
from dress import dress, code

FILES = ['ndg/xacml/core/rule.py', 'ndg/xacml/core/context/result.py']
RULE = ('every combination of target absent/true/false/raises and condition '
        'absent/true/false/raises with each effect, every exception class of '
        'the list, effect objects shared or fresh or missing, rule ids from '
        'the literals in the code; sequences of evaluations on one rule')


def gen(rng, hints, tier):
    outs = [None, True, False] + ['!' + e for e in EXCNAMES]
    for t, c, e, f in itertools.product(outs, outs, ('Permit', 'Deny'),
                                        (0, 1)):
        yield dict(steps=[[t, c]], effect=e, fresh=f, id='r')
    for t, c in itertools.product(outs[:4], outs[:4]):
        yield dict(steps=[[t, c]], effect=None, fresh=0, id='r')
        yield dict(steps=[[t, c]], effect='Deny', fresh=0, id=None)
    for _ in range(1500 if tier == 'quick' else 30000):
        ht, hc = rng.random() < .8, rng.random() < .8
        steps = [[rng.choice(outs[1:]) if ht else None,
                  rng.choice(outs[1:]) if hc else None]
                 for _ in range(rng.randint(1, 4))]
        yield dict(steps=steps, effect=rng.choice(['Permit', 'Deny']),
                   fresh=rng.randint(0, 1), id=pick_str(rng, hints),
                   desc=pick_str(rng, hints), z=code(rng, hints))


def oracle(t, c, e):
    if isinstance(t, str):
        return 'Indeterminate'
    if t is False:
        return 'NotApplicable'
    if isinstance(c, str):
        return 'Indeterminate'
    if c is False:
        return 'NotApplicable'
    return e if e else 'Indeterminate'


def check(case):
    r = Rule()
    if case['id'] is not None:
        r.id = case['id']
    if case.get('desc'):
        r.description = case['desc']
    e = case['effect']
    if e:
        r.effect = Effect(e) if case['fresh'] else (
            Effect.PERMIT if e == 'Permit' else Effect.DENY)
    t0, c0 = case['steps'][0]
    if t0 is not None:
        r.target = mk_target(t0)
    if c0 is not None:
        r.condition = mk_condition(c0)
    for t, c in case['steps']:
        if t is not None:
            r.target.out = t
            r.target.seen[:] = []
        if c is not None:
            r.condition.out = c
            r.condition.seen[:] = []
        want = oracle(t, c, e)
        req = dress(Request(), case.get('z'))
        try:
            got = r.evaluate(req)
            v = got.value
        except Exception as x:
            return 'target %s condition %s effect %s: raised %r, expected %s' \
                % (t, c, e, x, want)
        if not isinstance(got, Decision) or v != want:
            return 'target %s condition %s effect %s: %s, expected %s' % (
                t, c, e, v, want)
        for o in (r.target, r.condition):
            if o is not None and any(x is not req for x in o.seen):
                return 'target or condition asked about another request'
        if e and r.effect.value != e:
            return 'evaluation changed the effect of the rule'
    if Effect.PERMIT.value != 'Permit' or Effect.DENY.value != 'Deny':
        return 'shared effect constant changed'
    return constants_ok()
