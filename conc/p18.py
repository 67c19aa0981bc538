"""P18: sequences of assignments to the attributes of model objects."""
from ndg.xacml.core.rule import Rule, Effect
from ndg.xacml.core.policy import Policy
from ndg.xacml.core.policyset import PolicySet
from ndg.xacml.core.policybase import PolicyBase
from ndg.xacml.core.policydefaults import PolicyDefaults
from ndg.xacml.core.target import Target
from ndg.xacml.core.condition import Condition
from ndg.xacml.core.expression import Expression
from ndg.xacml.core.apply import Apply
from ndg.xacml.core.attribute import Attribute
from ndg.xacml.core.attributeselector import AttributeSelector
from ndg.xacml.core.attributedesignator import AttributeDesignator
from ndg.xacml.core.attributevalue import AttributeValue
from ndg.xacml.core.match import (SubjectMatch, ResourceMatch, ActionMatch,
                                  EnvironmentMatch)
from ndg.xacml.core.obligation import Obligation
from ndg.xacml.core.functions import functionMap, FunctionMap
from ndg.xacml.core.rule_combining_alg import RuleCombiningAlgClassFactory
from ndg.xacml.core.policy_combining_alg import PolicyCombiningAlgClassFactory
from ndg.xacml.core import subject, resource, action, environment
from ndg.xacml.core.context import (subject as cs, resource as cr,
                                    action as ca, environment as ce)
from ndg.xacml.core.context.request import Request
from ndg.xacml.core.context.response import Response
from ndg.xacml.core.context.result import (Result, Status, StatusCode,
                                           Decision)
from ndg.xacml.core.context.handler import CtxHandlerInterface
from ndg.xacml.core.context.exceptions import XacmlContextError
from ndg.xacml.core.context.pdp import PDP
from ndg.xacml.utils import TypedList
from ndg.xacml.utils.xpath_selector import XPathSelectorInterface
from values import F, URI, NATIVE, V1, value
from stubs import *         # noqa

FILES = ['ndg/xacml/core/*.py', 'ndg/xacml/core/context/*.py']
RULE = ('every value of a pool of documented, subclass, falsy and foreign '
        'values assigned to every attribute of every class, alone and over an '
        'earlier assignment, then random sequences over the attributes of one '
        'object; after each assignment every attribute of it and of a second '
        'object is compared with what it was')


class Sub(str):
    pass


class Handler(CtxHandlerInterface):
    def handlePEPRequest(self, r):
        return None

    def pipQuery(self, c, d):
        return None


class XP(XPathSelectorInterface):
    def __init__(self):
        pass

    def selectText(self, p):
        return []


class SubTarget(Target):
    pass


class SubRule(Rule):
    pass


DES = (SubjectAttributeDesignator, ResourceAttributeDesignator,
       ActionAttributeDesignator, EnvironmentAttributeDesignator)
VALUES = {n: F(u) for n, u in URI.items()}
ANY = object
TABLE = {
    Rule: dict(id=str, effect=Effect, target=Target, condition=Condition,
               description=str),
    Policy: dict(policyId=str, version=str, target=Target, description=str,
                 policyDefaults=PolicyDefaults, ruleCombiningAlgId='rule',
                 ruleCombiningAlgFactory=RuleCombiningAlgClassFactory),
    PolicySet: dict(policySetId=str, version=str, target=Target,
                    description=str, policySetDefaults=PolicyDefaults,
                    policyCombiningAlgId='policy',
                    policyCombiningAlgFactory=PolicyCombiningAlgClassFactory),
    PolicyDefaults: dict(xpathVersion=str),
    Condition: dict(expression=Expression),
    Apply: dict(dataType=str, loadFunctionFromId=bool,
                functionMap=FunctionMap, functionId='function'),
    AttributeSelector: dict(requestContextPath=str, mustBePresent=bool,
                            dataType=str),
    Attribute: dict(attributeValues=TypedList, dataType=str, attributeId=str,
                    issuer=str),
    Obligation: dict(obligationId=str, fulfillOn=str),
    Request: dict(action=ca.Action, environment=ce.Environment,
                  ctxHandler=CtxHandlerInterface,
                  attributeSelector=XPathSelectorInterface),
    cs.Subject: dict(subjectCategory=str),
    cr.Resource: dict(resourceContent=ANY),
    ca.Action: {}, ce.Environment: {}, Target: {}, Response: {},
    subject.Subject: {}, resource.Resource: {}, action.Action: {},
    environment.Environment: {},
    Result: dict(resourceId=str, decision=Decision, status=Status,
                 obligations=Obligation),
    Status: dict(statusCode=StatusCode, statusMessage=str, statusDetail=ANY),
    StatusCode: dict(statusCode=StatusCode, value='status'),
    PDP: dict(policy=PolicyBase),
    XacmlContextError: dict(response=Response),
}
for _m in (SubjectMatch, ResourceMatch, ActionMatch, EnvironmentMatch):
    TABLE[_m] = dict(attributeValue=AttributeValue, matchId='function',
                     attributeDesignator=AttributeDesignator,
                     attributeSelector=AttributeSelector,
                     loadFunctionFromId=bool, functionMap=FunctionMap)
for _d in DES:
    TABLE[_d] = dict(attributeId=str, issuer=str, mustBePresent=bool,
                     dataType=str)
for _n, _c in VALUES.items():
    TABLE[_c] = dict(value=NATIVE.get(_n, str), dataType=str)
for _c in TABLE:
    if _c not in (PDP, XacmlContextError):
        TABLE[_c] = dict(TABLE[_c], xmlns=str, elem=ANY)
NAMES = {c.__module__.replace('ndg.xacml.', '') + '.' + c.__name__: c
         for c in TABLE}
NONE_OK = ('xmlns', 'xpathVersion', 'obligationId', 'fulfillOn')
VOCAB = {
    'status': ['urn:oasis:names:tc:xacml:1.0:status:' + n for n in (
        'ok', 'missing-attribute', 'processing-error', 'syntax-error')],
    'rule': ['urn:oasis:names:tc:xacml:1.0:rule-combining-algorithm:' + n
             for n in ('deny-overrides', 'permit-overrides',
                       'first-applicable')],
    'policy': ['urn:oasis:names:tc:xacml:1.0:policy-combining-algorithm:' + n
               for n in ('deny-overrides', 'permit-overrides',
                         'first-applicable')],
    'function': [V1 + 'string-equal', V1 + 'round', V1 + 'string-bag',
                 V1 + 'anyURI-equal'],
}
# other views of, or consequences of, an assignment
VIEWS = {'policyId': ['ident'], 'policySetId': ['ident'],
         'xmlns': ['isValidXmlns'],
         'ruleCombiningAlgId': ['ruleCombiningAlg'],
         'policyCombiningAlgId': ['policyCombiningAlg'],
         'matchId': ['function'], 'functionId': ['function']}
CLEARS = {'attributeDesignator': 'attributeSelector',
          'attributeSelector': 'attributeDesignator'}


def sel():
    return XP()


MAKE = {
    'str': lambda: 'text', 'empty': lambda: '', 'sub': lambda: Sub('s'),
    'bool1': lambda: True, 'bool0': lambda: False, 'int': lambda: 7,
    'zero': lambda: 0, 'float': lambda: 1.5, 'none': lambda: None,
    'list': lambda: [], 'tuple': lambda: ('a',), 'dict': lambda: {},
    'bytes': lambda: b'x', 'object': object, 'class': lambda: str,
    'exc': lambda: ValueError('x'),
    'date': lambda: value(['dateTime', 3]).value,
    'delta': lambda: value(['dayTimeDuration', 3]).value,
    'effect': lambda: Effect('Deny'), 'effectc': lambda: Effect.PERMIT,
    'decision': lambda: Decision('Deny'), 'decisionc': lambda: Decision.PERMIT,
    'target': Target, 'subtarget': SubTarget, 'condition': Condition,
    'rule': SubRule, 'policy': Policy, 'policyset': PolicySet,
    'defaults': PolicyDefaults, 'apply': Apply, 'selector': AttributeSelector,
    'sdes': SubjectAttributeDesignator, 'edes': EnvironmentAttributeDesignator,
    'attribute': Attribute, 'sval': lambda: value(['string', 1]),
    'ival': lambda: value(['integer', 1]),
    'obligation': Obligation, 'fmap': FunctionMap,
    'rfac': RuleCombiningAlgClassFactory,
    'pfac': PolicyCombiningAlgClassFactory,
    'tlist': lambda: TypedList(AttributeValue), 'request': Request,
    'response': Response, 'csubject': cs.Subject, 'cresource': cr.Resource,
    'caction': ca.Action, 'cenv': ce.Environment, 'handler': Handler,
    'xpath': sel, 'status': Status, 'code': StatusCode, 'result': Result,
    'tsubject': subject.Subject, 'taction': action.Action, 'pdp': PDP,
    # values that have something in them
    'tlist1': lambda: full(TypedList(AttributeValue), 'string'),
    'tlist2': lambda: full(TypedList(str)),
    'attribute1': lambda: put(Attribute(), attributeId='b', issuer='c',
                              dataType=URI['integer']),
    'apply1': lambda: put(Apply(), dataType=URI['boolean'],
                          functionId=V1 + 'string-equal'),
    'condition1': lambda: put(Condition(), expression=MAKE['apply1']()),
    'target1': lambda: filled_target(),
    'rule1': lambda: put(SubRule(), id='r', effect=Effect('Permit'),
                         target=filled_target(), description='d'),
    'policy1': lambda: put(Policy(), policyId='p', target=filled_target(),
                           ruleCombiningAlgId=VOCAB['rule'][1]),
    'policyset1': lambda: put(PolicySet(), policySetId='q', version='2',
                              policyCombiningAlgId=VOCAB['policy'][1]),
    'defaults1': lambda: put(PolicyDefaults(), xpathVersion='1'),
    'adesig1': lambda: put(ActionAttributeDesignator(), attributeId='a',
                           issuer='i', dataType=URI['string'],
                           mustBePresent=True),
    'selector1': lambda: put(AttributeSelector(), dataType=URI['string'],
                             requestContextPath='//x', mustBePresent=True),
    'caction1': lambda: members(ca.Action()),
    'cenv1': lambda: members(ce.Environment()),
    'status1': lambda: put(Status(), statusCode=StatusCode(),
                           statusMessage='m'),
    'code1': lambda: put(StatusCode(), statusCode=StatusCode()),
    'obligation1': lambda: put(Obligation(), obligationId='o'),
    'response1': lambda: results(Response()),
    'result1': lambda: put(Result(), resourceId='x',
                           decision=Decision('Permit')),
    'request1': lambda: put(Request(), action=members(ca.Action())),
}


def put(o, **kw):
    for k, v in kw.items():
        setattr(o, k, v)
    return o


def full(l, kind=None):
    l.append('x' if kind is None else value([kind, 1]))
    return l


def members(o):
    o.attributes.append(MAKE['attribute1']())
    return o


def results(o):
    o.results.append(Result())
    return o


def filled_target():
    t = Target()
    s = subject.Subject()
    s.matches.append(put(SubjectMatch(), matchId=V1 + 'string-equal'))
    t.subjects.append(s)
    return t


def make(x):
    return x[1] if x[0] == 's' else MAKE[x[1]]()


def gen(rng, hints, tier):
    pool = [['m', n] for n in sorted(MAKE)]
    words = [['s', w] for v in VOCAB.values() for w in v] + [
        ['s', w] for w in ('urn:x', V1 + 'string-equal2',
                           V1 + 'map', V1 + 'integer-add', V1 + 'xpath-node-count')]
    for n, c in sorted(NAMES.items()):
        for a, t in sorted(TABLE[c].items()):
            good = [p for p in pool + words if accepted(t, make(p)) is True]
            for p in pool + (words if isinstance(t, str) else []):
                yield dict(cls=n, ops=[[a, p]])
                if good:
                    yield dict(cls=n, ops=[[a, rng.choice(good)], [a, p]])
            for h in hints.strs if t is str else []:
                if tier != 'quick' or rng.random() < .1:
                    yield dict(cls=n, ops=[[a, ['s', h]]])
    for _ in range(3000 if tier == 'quick' else 40000):
        n = rng.choice(sorted(NAMES))
        at = sorted(TABLE[NAMES[n]])
        ops = []
        for _ in range(rng.randint(2, 7)):
            a = rng.choice(at)
            t = TABLE[NAMES[n]][a]
            all_ = pool + words
            good = [p for p in all_ if accepted(t, make(p)) is True]
            r = rng.random()
            ops.append([a, rng.choice(good) if good and r < .6 else
                        ['s', pick_str(rng, hints)] if r < .7 else
                        rng.choice(all_)])
        yield dict(cls=n, ops=ops)


def accepted(t, v):
    """True, False, or None when the statement does not say"""
    if isinstance(t, str):
        return isinstance(v, str) and v in VOCAB[t]
    if t is int and isinstance(v, bool):
        return None
    return isinstance(v, t)


UNSET = 'unset'


def read(o, a):
    try:
        return getattr(o, a)
    except Exception as e:
        return (UNSET, type(e))


def state(o):
    names = set()
    for k in type(o).__mro__:
        names.update(n for n, p in k.__dict__.items()
                     if isinstance(p, property))
    s = {n: read(o, n) for n in names}
    for n, v in list(s.items()):
        if isinstance(v, list):
            s[n + ' members'] = list(v)
    return s


def alike(a, b):
    if isinstance(a, tuple) and isinstance(b, tuple) and a[:1] == (UNSET,):
        return a == b
    if isinstance(a, list) and isinstance(b, list) and type(a) is list:
        return len(a) == len(b) and all(x is y for x, y in zip(a, b))
    return a is b


def diff(a, b, but=()):
    for n in a:
        if n not in but and not alike(a[n], b[n]):
            return n
    return None


def check(case):
    cls = NAMES[case['cls']]
    o, other = cls(), cls()
    os_ = state(other)
    for i, (a, p) in enumerate(case['ops']):
        v = make(p)
        t = TABLE[cls][a]
        ok = accepted(t, v)
        if t == 'function':
            if isinstance(v, str) and o.loadFunctionFromId is False:
                ok = True
            elif isinstance(v, str) and (
                    v not in VOCAB[t] or 'functionMap' in
                    [x for x, _ in case['ops'][:i]]):
                ok = None
        if t in ('rule', 'policy') and any('Factory' in x for x, _ in
                                           case['ops'][:i]):
            ok = None
        if v is None and a in NONE_OK:
            ok = None
        before = state(o)
        vs = state(v) if i == len(case['ops']) - 1 else {}
        try:
            setattr(o, a, v)
        except Exception as e:
            if ok:
                return 'step %d: %s = %r refused: %r' % (i, a, v, e)
            n = diff(before, state(o))
            if n:
                return 'step %d: refused %s = %r changed %s' % (i, a, v, n)
        else:
            if ok is False:
                return 'step %d: %s = %r accepted' % (i, a, v)
            now = state(o)
            if read(o, a) is not v:
                return 'step %d: %s = %r reads back %r' % (i, a, v,
                                                           read(o, a))
            but = [a, a + ' members'] + VIEWS.get(a, [])
            if a in CLEARS and 'Match' in cls.__name__:
                but.append(CLEARS[a])
                if read(o, CLEARS[a]) is not None:
                    return 'step %d: %s kept' % (i, CLEARS[a])
            n = diff(before, now, but)
            if n:
                return 'step %d: %s = %r changed %s' % (i, a, v, n)
            if 'ident' in but and read(o, 'ident') is not v:
                return 'step %d: ident is %r' % (i, o.ident)
        n = diff(vs, state(v), ('attributeValue',)) if vs else None
        if n:
            return 'step %d: %s = %r changed %s of the value' % (i, a, v, n)
        n = diff(os_, state(other))
        if n:
            return 'step %d: %s = %r changed %s of another object' % (
                i, a, v, n)
    return None
