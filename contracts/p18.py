"""P18: assignments to the attributes of the model."""
import itertools
from .common import *           # noqa
from .setters import *          # noqa
from .funcs import CLASSES, DATATYPES, TYOF
from ndg.xacml.core import XacmlCoreBase
from ndg.xacml.core.apply import Apply
from ndg.xacml.core import functions as FN
from ndg.xacml.core.functions import FunctionMap, AbstractFunction
from ndg.xacml.core.obligation import Obligation
from ndg.xacml.core import obligation as O
from ndg.xacml.core.policydefaults import PolicyDefaults
from ndg.xacml.core.context.response import Response
from ndg.xacml.core.context.result import StatusCode
from ndg.xacml.core.context.exceptions import (
    XacmlContextError, XacmlContextTypeError, MissingAttributeError)
from ndg.xacml.core.context.handler import CtxHandlerBase
from ndg.xacml.core.context.pdpinterface import PDPInterface
from ndg.xacml.core.context.pipinterface import PIPInterface
from ndg.xacml.core.rule_combining_alg import RuleCombiningAlgClassFactory
from ndg.xacml.core.policy_combining_alg import PolicyCombiningAlgClassFactory
from pyvc.verify import Target as T

MATCHES = (SubjectMatch, ResourceMatch, ActionMatch, EnvironmentMatch)
DESIGNATORS = (SubjectAttributeDesignator, ResourceAttributeDesignator,
               ActionAttributeDesignator, EnvironmentAttributeDesignator)
RA = 'urn:oasis:names:tc:xacml:1.0:rule-combining-algorithm:'
PA = 'urn:oasis:names:tc:xacml:1.0:policy-combining-algorithm:'
ALGS = ('deny-overrides', 'permit-overrides', 'first-applicable')
STATUS = ['urn:oasis:names:tc:xacml:1.0:status:' + n for n in (
    'ok', 'missing-attribute', 'processing-error', 'syntax-error')]


def anything(eng, st, v):
    return TRUE


# class, attribute, documented type
TABLE = [
    (Rule, 'id', str), (Rule, 'effect', Effect), (Rule, 'target', Target),
    (Rule, 'condition', Condition), (Rule, 'description', str),
    (Policy, 'policyId', str), (Policy, 'version', str),
    (Policy, 'target', Target), (Policy, 'description', str),
    (Policy, 'policyDefaults', PolicyDefaults),
    (Policy, 'ruleCombiningAlgFactory', RuleCombiningAlgClassFactory),
    (PolicySet, 'policySetId', str), (PolicySet, 'version', str),
    (PolicySet, 'target', Target), (PolicySet, 'description', str),
    (PolicySet, 'policySetDefaults', PolicyDefaults),
    (PolicySet, 'policyCombiningAlgFactory', PolicyCombiningAlgClassFactory),
    (PolicyDefaults, 'xpathVersion', str),
    (Condition, 'expression', Expression),
    (Apply, 'dataType', str), (Apply, 'loadFunctionFromId', bool),
    (Apply, 'functionMap', FunctionMap),
    (AttributeSelector, 'requestContextPath', str),
    (AttributeSelector, 'mustBePresent', bool),
    (AttributeSelector, 'dataType', str),
    (Attribute, 'attributeValues', TypedList), (Attribute, 'dataType', str),
    (Attribute, 'attributeId', str), (Attribute, 'issuer', str),
    (Obligation, 'obligationId', str), (Obligation, 'fulfillOn', str),
    (Request, 'action', CAction), (Request, 'environment', CEnvironment),
    (Request, 'ctxHandler', CtxHandlerInterface),
    (Request, 'attributeSelector', XPathSelectorInterface),
    (CSubject, 'subjectCategory', str),
    (CResource, 'resourceContent', anything),
    (Result, 'resourceId', str), (Result, 'decision', Decision),
    (Result, 'status', Status), (Result, 'obligations', Obligation),
    (Status, 'statusCode', StatusCode), (Status, 'statusMessage', str),
    (Status, 'statusDetail', anything),
    (StatusCode, 'statusCode', StatusCode),
    (PDP, 'policy', PolicyBase),
]
for _c in MATCHES:
    TABLE += [(_c, 'attributeValue', AttributeValue),
              (_c, 'loadFunctionFromId', bool),
              (_c, 'functionMap', FunctionMap)]
for _c in DESIGNATORS:
    TABLE += [(_c, 'attributeId', str), (_c, 'issuer', str),
              (_c, 'mustBePresent', bool), (_c, 'dataType', str)]
for _c in (XacmlContextError, XacmlContextTypeError, MissingAttributeError):
    TABLE.append((_c, 'response', Response))
for _n in sorted(CLASSES):
    TABLE += [(CLASSES[_n], 'value', DATATYPES[_n][1]),
              (CLASSES[_n], 'dataType', str)]
NAMED = [Rule, Policy, PolicySet, PolicyDefaults, Condition, Apply, Target,
         AttributeSelector, Attribute, Obligation, Request, CSubject,
         CResource, CAction, CEnvironment, Result, Status, StatusCode,
         Response, TSubject, TResource, TAction, TEnvironment] + list(
             MATCHES + DESIGNATORS) + [CLASSES[n] for n in sorted(CLASSES)]
for _c in NAMED:
    TABLE += [(_c, 'xmlns', str), (_c, 'elem', anything)]

# reading these raises NotImplementedError for every policy
UNSUPPORTED = ('combinerParameters', 'ruleCombinerParameters',
               'variableDefinitions', 'policySetCombinerParameters',
               'policyCombinerParameters')
# documented as "NoneType / string": None may be stored or refused
NONE_OR_STR = (('xmlns', XacmlCoreBase), ('xpathVersion', PolicyDefaults),
               ('obligationId', Obligation), ('fulfillOn', Obligation))


def reads_value(eng, st, a, val):
    return not isinstance(a, Raise) and eng.lift(a) == eng.lift(val)


# other attributes that are another view of the one set
DERIVED = {'xmlns': {'isValidXmlns': lambda eng, st, a, val: TRUE},
           'policyId': {'ident': reads_value},
           'policySetId': {'ident': reads_value}}


def plain(cls, attr, accept):
    for n, k in NONE_OR_STR:
        if attr == n and issubclass(cls, k):
            def init(eng, st, self_, val):
                st.add(z3.Not(Val.is_vnone(eng.lift(val))))
            return setter_target(cls, attr, accept, skip=UNSUPPORTED,
                                 init=init, sets=DERIVED.get(attr))
    return setter_target(cls, attr, accept, skip=UNSUPPORTED,
                         sets=DERIVED.get(attr))


def code_value(cls, words, name):
    """an attribute with a fixed vocabulary"""
    def readback(eng, st, a, val):
        return not isinstance(a, Raise) and eng.lift(a) == eng.lift(val)
    return setter_target(cls, 'value', one_of(*words), readback=readback,
                         name=name)


class Implemented(AbstractFunction):
    FUNCTION_NS = 'urn:example:implemented'

    def evaluate(self, *inputs):
        return None


def kind(eng, v):
    return fn('KIND', Val, I)(eng.lift(v))


TYPES18 = dict(TYPES)
TYPES18[MatchBase] = dict(TYPES[MatchBase], functionMap=Inst(FunctionMap))
TYPES18[Apply] = {'functionMap': Inst(FunctionMap), 'loadFunctionFromId': BOOL,
                  'functionId': Opt(STR),
                  'function': Opt(Inst(AbstractFunction))}


def loading(cls, attr):
    """the function identifier: with a function map (looked up as P15
    specifies: the class, NotImplemented, None or an error) and without"""
    def on(eng, st, self_, val):
        def get(e, s, args, kw):
            out = []
            for i, v in enumerate([Con(Implemented), Con(NotImplemented),
                                   Con(None), None]):
                s2 = s.copy()
                s2.add(kind(e, args[1]) == i)
                out += [(s2, v)] if v is not None else e.rz(
                    s2, FN.FunctionMapConfigError)
            return out
        eng.fcontracts[FunctionMap.get] = get
        eng.fcontracts[FunctionMap.__getitem__] = get
        st.add(kind(eng, val) >= 0)
        st.add(kind(eng, val) <= 3)
        field_is(eng, st, self_, 'loadFunctionFromId', True)

    def off(eng, st, self_, val):
        field_is(eng, st, self_, 'loadFunctionFromId', False)

    def implemented(eng, st, v):
        return z3.And(eng.isinst(st, v, Con(str)), kind(eng, v) == 0)

    def instance(eng, st, a, val):
        return not isinstance(a, Raise) and \
            eng.cls_of(st, a) == (Implemented, True)
    n = '%s.%s = value' % (cls.__name__, attr)
    return [setter_target(cls, attr, implemented, init=on, types=TYPES18,
                          sets={'function': instance},
                          name=n + ', loading the function'),
            setter_target(cls, attr, str, init=off, types=TYPES18,
                          name=n + ', without loading')]


def targets(tier):
    out = [plain(*t) for t in TABLE]
    out.append(code_value(StatusCode, STATUS, None))
    for c in MATCHES:
        out += loading(c, 'matchId')
        for a, b, k in (('attributeDesignator', 'attributeSelector',
                         AttributeDesignator),
                        ('attributeSelector', 'attributeDesignator',
                         AttributeSelector)):
            out.append(setter_target(c, a, k, clears=(b,)))
    out += loading(Apply, 'functionId')
    return out
