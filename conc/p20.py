"""P20: sequences of evaluations of whole policies against whole requests,
with the object graphs compared before and after each."""
import json
import os
import types
from ndg.xacml import importElementTree
from ndg.xacml.core import target as T
from ndg.xacml.core import subject, resource, action, environment
from ndg.xacml.core.apply import Apply
from ndg.xacml.core.attribute import Attribute
from ndg.xacml.core.attributeselector import AttributeSelector
from ndg.xacml.core.condition import Condition
from ndg.xacml.core.functions import functionMap
from ndg.xacml.core.match import (SubjectMatch, ResourceMatch, ActionMatch,
                                  EnvironmentMatch)
from ndg.xacml.core.obligation import Obligation
from ndg.xacml.core.policy import Policy
from ndg.xacml.core.policyset import PolicySet
from ndg.xacml.core.rule import Rule, Effect
from ndg.xacml.core.context.action import Action
from ndg.xacml.core.context.environment import Environment
from ndg.xacml.core.context.handler import CtxHandlerBase
from ndg.xacml.core.context.pdp import PDP
from ndg.xacml.core.context.request import Request
from ndg.xacml.core.context.resource import Resource
from ndg.xacml.core.context.subject import Subject
from ndg.xacml.core.context import result as RES
from ndg.xacml.utils.xpath_selector import EtreeXPathSelector
from values import *        # noqa
from stubs import *         # noqa
ET = importElementTree()

FILES = ['ndg/xacml/core/*.py', 'ndg/xacml/core/context/*.py']
RULE = ('random policies and policy sets (targets, designators, selectors, '
        'conditions over nested applies, failing and unset parts) and '
        'requests (information points, XML content); sequences of up to six '
        'evaluations of a policy or a part of it; the whole graph of policy '
        'and request compared after each, every outcome compared with the '
        'outcome of the same question asked first, of a fresh copy, and in '
        'part of the cases in a process that evaluated nothing else')
STRING, INT, BOOL = URI['string'], URI['integer'], URI['boolean']
KINDS = {'s': ('subjects', subject.Subject, SubjectMatch,
               SubjectAttributeDesignator),
         'r': ('resources', resource.Resource, ResourceMatch,
               ResourceAttributeDesignator),
         'a': ('actions', action.Action, ActionMatch,
               ActionAttributeDesignator),
         'e': ('environments', environment.Environment, EnvironmentMatch,
               EnvironmentAttributeDesignator)}
RULEALG = ['urn:oasis:names:tc:xacml:1.0:rule-combining-algorithm:' + n for n
           in ('deny-overrides', 'permit-overrides', 'first-applicable')]
POLALG = [x.replace('rule-', 'policy-') for x in RULEALG]
IDS = ['i1', 'i2']
# function: types of its arguments (None: a bag), type of its result
SIG = {'string-equal': (['string', 'string'], 'boolean'),
       'anyURI-equal': (['anyURI', 'anyURI'], 'boolean'),
       'integer-equal': (['integer', 'integer'], 'boolean'),
       'string-regexp-match': (['string', 'string'], 'boolean'),
       'and': (['boolean', 'boolean'], 'boolean'),
       'not': (['boolean'], 'boolean'),
       'string-at-least-one-member-of': (['string*', 'string*'], 'boolean'),
       'integer-at-least-one-member-of': (['integer*', 'integer*'],
                                          'boolean'),
       'string-one-and-only': (['string*'], 'string'),
       'integer-one-and-only': (['integer*'], 'integer'),
       'string-bag': (['string', 'string'], 'string*'),
       'integer-bag': (['integer', 'integer'], 'integer*'),
       'string-concatenate': (['string', 'string'], 'string')}
NS = {k: V1 for k in SIG}
NS['string-concatenate'] = V2


class Handler(CtxHandlerBase):
    def handlePEPRequest(self, request):
        raise NotImplementedError()

    def pipQuery(self, request, designator):
        return outcome(None if self.out == 'none' else self.out if
                       isinstance(self.out, str) else
                       [value(v) for v in self.out])


# ------------------------------------------------------------- generation
def gtype(rng):
    return rng.choice(['string', 'string', 'string', 'integer', 'boolean',
                       'anyURI'])


def gval(rng, t):
    return [t, rng.choice(['0', 'x', 'x', 'y', '']) if
            t in ('string', 'anyURI') else rng.randint(0, 3)]


def gsource(rng, t, kind=None):
    if rng.random() < .15:
        return ['x', rng.choice(['//v', '//w', './/u', '//v', '//w',
                                '//' if rng.random() < .1 else '//u']), t,
                rng.random() < .08]
    return ['d', kind or rng.choice('srae'), rng.choice(IDS), t,
            rng.choice([None, None, None, 'A']), rng.random() < .08]


def gexpr(rng, t, d):
    if t.endswith('*'):
        if d and rng.random() < .5:
            return ['f', t[:-1] + '-bag', [gexpr(rng, t[:-1], d - 1)
                                           for _ in range(rng.randint(0, 3))]]
        return gsource(rng, t[:-1])
    fs = [f for f, (a, r) in SIG.items() if r == t and (
        'one-and' not in f or rng.random() < .3)]
    if d and fs and rng.random() < .8:
        f = rng.choice(fs)
        return ['f', f, [gexpr(rng, a, d - 1) for a in SIG[f][0]]]
    if rng.random() < .01:
        return gsource(rng, t)
    return ['v'] + gval(rng, t)


def gmatch(rng, k):
    t = rng.choice(['string', 'string', 'integer', 'anyURI'])
    f = t + '-equal'
    if t == 'string' and rng.random() < .3:
        f = 'string-regexp-match'
    src = gsource(rng, t, k) if rng.random() < .99 else None
    return [f, gval(rng, t), src]


def gtarget(rng):
    if rng.random() < .4:
        return None
    return {k: [[gmatch(rng, k) for _ in range(rng.choice([1, 1, 2]))]
                for _ in range(rng.choice([0, 0, 0, 1, 2]))] for k in 'srae'}


def grule(rng):
    return dict(eff=rng.choice(['Permit', 'Deny', 'Permit', 'Deny', None]) if
                rng.random() < .03 else rng.choice(['Permit', 'Deny']),
                target=gtarget(rng), cond=None if rng.random() < .35 else
                gexpr(rng, 'boolean', rng.randint(0, 3)))


def gpolicy(rng, d=1):
    if d and rng.random() < .5:
        return dict(k='set', alg=rng.randint(0, 2), target=gtarget(rng),
                    members=[gpolicy(rng, d - 1)
                             for _ in range(rng.choice([0, 1, 2, 3]))])
    return dict(k='pol', alg=rng.choice([0, 1, 2] * 6 + [None]),
                target=gtarget(rng), obl=rng.random() < .2,
                members=[grule(rng) for _ in range(
                    rng.choice([0, 1, 1, 2, 3, 5]))])


def gattrs(rng):
    out = []
    for _ in range(rng.choice([0, 1, 2, 3, 4])):
        t = gtype(rng)
        out.append(dict(id=rng.choice(IDS), t=t,
                        iss=rng.choice([None, None, 'A', 'B']),
                        vals=[gval(rng, t if rng.random() < .97 else gtype(rng))
                              for _ in range(rng.choice([0, 1, 1, 2, 4]))]))
    return out


def grequest(rng):
    pip = None
    if rng.random() < .4:
        r = rng.random()
        pip = 'none' if r < .15 else '!' + rng.choice(EXCNAMES) if r < .2 \
            else [gval(rng, 'string') for _ in range(rng.randint(0, 3))]
    return dict(s=[gattrs(rng) for _ in range(rng.choice([0, 1, 1, 2]))],
                r=[gattrs(rng) for _ in range(rng.choice([0, 1, 1, 2]))],
                a=gattrs(rng), e=gattrs(rng) if rng.random() < .95 else None,
                pip=pip, xml=None if rng.random() < .5 else
                [[rng.choice('vwu'), rng.choice(['x', 'y', '1', ''])]
                 for _ in range(rng.randint(0, 4))])


def gen(rng, hints, tier):
    for i in range(1200 if tier == 'quick' else 25000):
        np, nr = rng.choice([1, 1, 2]), rng.choice([1, 2, 2, 3])
        ops = [[rng.choice(['eval', 'eval', 'pdp', 'resp', 'part', 'target']),
                rng.randrange(np), rng.randrange(nr), rng.randrange(100)]
               for _ in range(rng.randint(2, 6))]
        yield dict(pols=[gpolicy(rng) for _ in range(np)],
                   reqs=[grequest(rng) for _ in range(nr)],
                   ops=ops, alone=i % 10 == 0)


# ---------------------------------------------------------------- building
def msource(s):
    if s[0] == 'x':
        o = AttributeSelector()
        o.requestContextPath, o.dataType, o.mustBePresent = s[1], URI[s[2]], \
            s[3]
        return o
    o = KINDS[s[1]][3]()
    o.attributeId, o.dataType, o.mustBePresent = s[2], URI[s[3]], s[5]
    if s[4] is not None:
        o.issuer = s[4]
    return o


def mexpr(x):
    if x[0] == 'v':
        return value(x[1:])
    if x[0] == 'f':
        a = Apply()
        a.functionId = NS.get(x[1], V1) + x[1]
        for y in x[2]:
            a.expressions.append(mexpr(y))
        return a
    return msource(x)


def mtarget(t):
    o = T.Target()
    for k, (name, cls, mcls, _) in KINDS.items():
        for ms in t[k]:
            c = cls()
            for f, v, src in ms:
                m = mcls()
                m.matchId = V1 + f
                m.attributeValue = value(v)
                if src is not None:
                    if src[0] == 'x':
                        m.attributeSelector = msource(src)
                    else:
                        m.attributeDesignator = msource(src)
                c.matches.append(m)
            getattr(o, name).append(c)
    return o


def mpolicy(p, n='p'):
    if p['k'] == 'set':
        o = PolicySet()
        o.policySetId = n
        o.policyCombiningAlgId = POLALG[p['alg']]
        for i, m in enumerate(p['members']):
            o.policies.append(mpolicy(m, '%s.%d' % (n, i)))
    else:
        o = Policy()
        o.policyId = n
        if p['alg'] is not None:
            o.ruleCombiningAlgId = RULEALG[p['alg']]
        for i, r in enumerate(p['members']):
            x = Rule()
            x.id = '%s.%d' % (n, i)
            if r['eff'] is not None:
                x.effect = Effect(r['eff'])
            if r['target'] is not None:
                x.target = mtarget(r['target'])
            if r['cond'] is not None:
                x.condition = Condition()
                x.condition.expression = mexpr(r['cond'])
            o.rules.append(x)
        if p['obl']:
            ob = Obligation()
            ob.obligationId, ob.fulfillOn = 'o', 'Permit'
            o.obligations.append(ob)
    if p['target'] is not None:
        o.target = mtarget(p['target'])
    return o


def mattrs(o, specs):
    for s in specs:
        a = Attribute()
        a.attributeId, a.dataType = s['id'], URI[s['t']]
        if s['iss'] is not None:
            a.issuer = s['iss']
        for v in s['vals']:
            a.attributeValues.append(value(v))
        o.attributes.append(a)
    return o


def mrequest(r):
    q = Request()
    for x in r['s']:
        q.subjects.append(mattrs(Subject(), x))
    for x in r['r']:
        q.resources.append(mattrs(Resource(), x))
    q.action = mattrs(Action(), r['a'])
    if r['e'] is not None:
        q.environment = mattrs(Environment(), r['e'])
    if r['pip'] is not None:
        h = Handler()
        h.out = r['pip']
        q.ctxHandler = h
    if r['xml'] is not None:
        e = ET.Element('Request')
        for t, x in r['xml']:
            c = ET.SubElement(e, t)
            c.text = x or None
        q.elem = e
        q.attributeSelector = EtreeXPathSelector(e)
    return q


# --------------------------------------------------------------- snapshots
LEAF = (type(None), bool, int, float, complex, str, bytes, type,
        types.FunctionType, types.BuiltinFunctionType, types.MethodType,
        types.ModuleType)


SLOTS = {}


def slots(cls):
    if cls not in SLOTS:
        out = SLOTS[cls] = []
        for c in cls.__mro__:
            sl = c.__dict__.get('__slots__', ())
            for s in (sl,) if isinstance(sl, str) else tuple(sl):
                if s in ('__dict__', '__weakref__'):
                    continue
                if s.startswith('__') and not s.endswith('__'):
                    s = '_%s%s' % (c.__name__.lstrip('_'), s)
                out.append(s)
    return SLOTS[cls]


def snap(*roots):
    """structure, contents and identities of everything reachable"""
    seen, order = {}, []

    def walk(o):
        if isinstance(o, LEAF) or o is NotImplemented:
            return repr(o) if isinstance(o, LEAF[:7]) else id(o)
        if o is functionMap:
            return ('functionMap', len(o))
        if id(o) in seen:
            return seen[id(o)]
        n = seen[id(o)] = ('#', id(o))
        rec = [type(o)]
        order.append((n, rec, o))
        if hasattr(o, 'tag') and hasattr(o, 'iter'):
            rec.append(ET.tostring(o))
            return n
        if isinstance(o, (list, tuple)):
            rec.extend(walk(x) for x in list(o))
        elif isinstance(o, (set, frozenset)):
            rec.extend(sorted(repr(walk(x)) for x in o))
        elif isinstance(o, dict):
            rec.extend((walk(k), walk(v)) for k, v in list(dict.items(o)))
        for k, v in sorted(getattr(o, '__dict__', {}).items()):
            rec.append((k, walk(v)))
        for s in slots(type(o)):
            try:
                rec.append((s, walk(getattr(o, s))))
            except AttributeError:
                pass
        return n
    for r in roots:
        walk(r)
    return [(n, rec) for n, rec, o in order], [o for n, rec, o in order]


def differ(a, b):
    """name of what changed"""
    (ra, oa), (rb, ob) = a, b
    for i, (n, rec) in enumerate(ra):
        if i >= len(rb) or rb[i] != (n, rec):
            o = oa[i]
            for x, y in zip(rec, rb[i][1] if i < len(rb) else []):
                if x != y:
                    return '%s of a %s' % (x[0] if isinstance(x, tuple) and
                                           isinstance(x[0], str) else
                                           'contents', type(o).__name__)
            return 'contents of a %s' % type(o).__name__
    return None if len(ra) == len(rb) else 'number of objects'


def ask(op, pol, req):
    kind, _, _, k = op
    try:
        if kind == 'pdp':
            r = PDP(pol).evaluate(req)
        elif kind == 'resp':
            r = pol.evaluateResponse(req)
        elif kind == 'target':
            return repr(pol.target.match(req)) if pol.target is not None \
                else 'none'
        elif kind == 'part':
            ms = pol.rules if isinstance(pol, Policy) else pol.policies
            r = ms[k % len(ms)].evaluate(req) if len(ms) else None
            return r.value if r is not None else None
        else:
            return pol.evaluate(req).value
        return [(x.decision.value, x.status.statusCode.value if
                 x.status is not None else None) for x in r.results]
    except Exception as e:
        return 'raises ' + type(e).__name__


# -------------------------------------------------- a process of its own
_zygote = None


def zygote():
    """a process that has evaluated nothing and forks one that does for each
    question"""
    global _zygote
    if _zygote is None:
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        if os.fork() == 0:
            os.close(w1)
            os.close(r2)
            fi, fo = os.fdopen(r1), os.fdopen(w2, 'w')
            try:
                for line in fi:
                    if os.fork() == 0:
                        c = json.loads(line)
                        a = ask(c['op'], mpolicy(c['pol']),
                                mrequest(c['req']))
                        fo.write(json.dumps(a) + '\n')
                        fo.flush()
                        os._exit(0)
                    os.wait()
            finally:
                os._exit(0)
        os.close(r1)
        os.close(w2)
        _zygote = os.fdopen(w1, 'w'), os.fdopen(r2)
    return _zygote


zygote()


def alone(op, pol, req):
    w, r = zygote()
    w.write(json.dumps(dict(op=op, pol=pol, req=req)) + '\n')
    w.flush()
    return json.loads(r.readline())


def check(case):
    pols = [mpolicy(p) for p in case['pols']]
    reqs = [mrequest(r) for r in case['reqs']]
    consts = RES.Decision.PERMIT, RES.Decision.DENY, \
        RES.Decision.INDETERMINATE, RES.Decision.NOT_APPLICABLE
    first = {}
    before = snap(pols, reqs, consts)
    for i, op in enumerate(case['ops']):
        got = ask(op, pols[op[1]], reqs[op[2]])
        now = snap(pols, reqs, consts)
        d = differ(before, now)
        if d:
            return 'evaluation %d (%s, outcome %s) changed %s' % (
                i, op[0], got, d)
        m = constants_ok()
        if m:
            return m
        k = tuple(op)
        if k in first and first[k] != got:
            return 'evaluation %d gives %s, the same one before gave %s' % (
                i, got, first[k])
        first[k] = got
        fresh = ask(op, mpolicy(case['pols'][op[1]]),
                    mrequest(case['reqs'][op[2]]))
        if fresh != got:
            return 'evaluation %d gives %s, on fresh copies %s' % (
                i, got, fresh)
        if case['alone']:
            a = alone(op, case['pols'][op[1]], case['reqs'][op[2]])
            if json.dumps(a) != json.dumps(got):
                return 'evaluation %d gives %s, in a process of its own %s' \
                    % (i, got, a)
    # once more, in the other order
    for op in reversed(case['ops']):
        got = ask(op, pols[op[1]], reqs[op[2]])
        if got != first[tuple(op)]:
            return 'evaluated again: %s, before %s' % (got, first[tuple(op)])
    return None
