"""P19: sequences of operations on decisions, effects and the shared
constants."""
from ndg.xacml.core import rule as RU
from ndg.xacml.core import obligation as OB
from ndg.xacml.core.context import result as RE
from stubs import *         # noqa

FILES = ['ndg/xacml/core/context/result.py', 'ndg/xacml/core/rule.py',
         'ndg/xacml/core/obligation.py']
RULE = ('sequences of 1..5 operations (construct, read, set, compare, str, '
        'del) on 2 things of each class and on each shared constant, with '
        'operands that are strings in, near and outside the vocabulary, '
        'other things and constants of the class, and foreign values; the '
        'values of everything, the constants included, checked after each')
CLS = {'decision': RE.Decision, 'effect': RU.Effect, 'obligation': OB.Effect}
VOC = {'decision': ['Permit', 'Deny', 'Indeterminate', 'NotApplicable'],
       'effect': ['Permit', 'Deny'], 'obligation': ['Permit', 'Deny']}
CONST = {'decision': {'PERMIT': 'Permit', 'DENY': 'Deny',
                      'INDETERMINATE': 'Indeterminate',
                      'NOT_APPLICABLE': 'NotApplicable'},
         'effect': {'PERMIT': 'Permit', 'DENY': 'Deny'}, 'obligation': {}}
NEAR = ['', 'permit', 'PERMIT', 'Permit ', ' Deny', 'DENY', 'Not Applicable',
        'NOT_APPLICABLE', 'indeterminate', 'Perm', 'Permit\n', 'Unknown']
FOREIGN = [None, 0, 1, True, 1.5, [], ['Permit'], ('Permit',), b'Permit',
           {'Permit': 1}]
OPS = ['make', 'set', 'eq', 'ne', 'str', 'del', 'read', 'bool', 'repr']
REFUSAL = (TypeError, AttributeError, ValueError)


def operands(c):
    return [['s', x] for x in VOC[c]] + [['o', 0], ['o', 1]] + \
        [['c', n] for n in CONST[c]]


def gen(rng, hints, tier):
    near = NEAR + [h for h in hints.strs if isinstance(h, str)][:40]
    for c in CLS:
        subj = [['o', 0]] + [['c', n] for n in CONST[c]]
        allx = operands(c) + [['s', x] for x in near] + [
            ['f', i] for i in range(len(FOREIGN))] + [['x', 0]]
        for s in subj:
            for v in VOC[c]:
                for op in OPS:
                    for x in allx if op in ('make', 'set', 'eq', 'ne') else \
                            [['s', v]]:
                        yield dict(c=c, init=[v, VOC[c][0]],
                                   ops=[[op, s, x], ['read', s, x]])
        for _ in range(1500 if tier == 'quick' else 30000):
            yield dict(c=c, init=[rng.choice(VOC[c]), rng.choice(VOC[c])],
                       ops=[[rng.choice(OPS), rng.choice(subj),
                             rng.choice(allx)]
                            for _ in range(rng.randint(1, 5))])


def check(case):
    c = case['c']
    cls, voc, consts = CLS[c], VOC[c], CONST[c]
    other = [k for k in CLS if k != c][0]
    objs = [cls(v) for v in case['init']]
    model = list(case['init'])

    def thing(x):
        """(operand, its value or None)"""
        k, i = x
        if k == 'o':
            return objs[i], model[i]
        if k == 'c':
            return getattr(cls, i), consts[i]
        if k == 's':
            return i, (i if i in voc else None)
        if k == 'x':
            return CLS[other]('Permit'), None
        return FOREIGN[i], None

    def states():
        for i, o in enumerate(objs):
            if o.value != model[i]:
                return 'thing %d holds %r, not %r' % (i, o.value, model[i])
        for k in CLS:
            for n, v in CONST[k].items():
                w = getattr(CLS[k], n).value
                if w != v:
                    return 'constant %s.%s is %r now' % (k, n, w)
        return None
    for i, (op, s, x) in enumerate(case['ops']):
        d, v = thing(s)
        a, av = thing(x)
        if op in ('bool', 'repr') and c != 'effect':
            op = 'read'
        bad = None
        try:
            r = None
            if op == 'make':
                r = cls(a)
                if type(r) is not cls:
                    return 'step %d: made a %r' % (i, type(r))
                r = r.value
            elif op == 'set':
                d.value = a
            elif op == 'eq':
                r = d == a
            elif op == 'ne':
                r = d != a
            elif op == 'str':
                r = str(d)
            elif op == 'repr':
                repr(d)
            elif op == 'del':
                del d.value
            elif op == 'bool':
                r = bool(d)
            else:
                r = d.value
        except Exception as e:
            bad = e
        want, err = None, False
        if op == 'make':
            want, err = av, av is None
        elif op == 'set':
            err = av is None
            if s[0] == 'o' and not err:
                model[s[1]] = av
        elif op in ('eq', 'ne'):
            want, err = (v == av) == (op == 'eq'), av is None
        elif op in ('str', 'read'):
            want = v
        elif op == 'bool':
            want = v == 'Permit'
        elif op == 'del':
            err = True
        const_set = op == 'set' and s[0] == 'c'
        if bad is not None and not isinstance(bad, REFUSAL):
            return 'step %d: %s failed with %r' % (i, op, bad)
        if bad is not None and not err and not const_set:
            return 'step %d: %s of %r refused: %r' % (i, op, a, bad)
        if bad is None and err:
            return 'step %d: %s of %r accepted' % (i, op, a)
        if bad is None and op != 'repr' and r != want:
            return 'step %d: %s gave %r, expected %r' % (i, op, r, want)
        m = states()
        if m:
            return 'step %d (%s): %s' % (i, op, m)
    return None
