"""Types of the model classes, ghost functions and callee contracts."""
import sys
import os

REPO = os.environ.get('PYVC_REPO', '/repo')
if REPO not in sys.path:
    sys.path.insert(0, REPO)

# the XML library the package uses when it is installed, as in the tests
LXML = '/opt/venv/lib/python3.12/site-packages'
if LXML not in sys.path:
    sys.path.append(LXML)

import logging
logging.disable(logging.CRITICAL)

from pyvc.terms import *            # noqa
from pyvc.prove import CallContract

from ndg.xacml.core.context.result import Decision, Result, Status
from ndg.xacml.core.rule import Rule, Effect
from ndg.xacml.core.target import Target
from ndg.xacml.core.condition import Condition
from ndg.xacml.core.policybase import PolicyBase
from ndg.xacml.core.policy import Policy
from ndg.xacml.core.policyset import PolicySet
from ndg.xacml.core.rule_combining_alg import RuleCombiningAlgInterface
from ndg.xacml.core.policy_combining_alg import PolicyCombiningAlgInterface
from ndg.xacml.core.context.request import Request
from ndg.xacml.core.context.pdp import PDP
from ndg.xacml.utils import TypedList
from ndg.xacml.core import TargetChildBase
from ndg.xacml.core.match import (MatchBase, SubjectMatch, ResourceMatch,
                                  ActionMatch, EnvironmentMatch)
from ndg.xacml.core.attributevalue import AttributeValue
from ndg.xacml.core.attributedesignator import (
    AttributeDesignator, SubjectAttributeDesignator,
    ResourceAttributeDesignator, ActionAttributeDesignator,
    EnvironmentAttributeDesignator)
from ndg.xacml.core.attributeselector import AttributeSelector
from ndg.xacml.core.expression import Expression
from ndg.xacml.core.functions import AbstractFunction
from ndg.xacml.core.attribute import Attribute
from ndg.xacml.core.context import RequestChildBase
from ndg.xacml.core.context.subject import Subject as CSubject
from ndg.xacml.core.context.resource import Resource as CResource
from ndg.xacml.core.context.action import Action as CAction
from ndg.xacml.core.context.environment import Environment as CEnvironment
from ndg.xacml.core.context.handler import CtxHandlerInterface
from ndg.xacml.utils.xpath_selector import XPathSelectorInterface
from ndg.xacml.core.attributevalue import AttributeValueClassFactory
from ndg.xacml.core.subject import Subject as TSubject
from ndg.xacml.core.resource import Resource as TResource
from ndg.xacml.core.action import Action as TAction
from ndg.xacml.core.environment import Environment as TEnvironment

DECISIONS = ('Permit', 'Deny', 'Indeterminate', 'NotApplicable')

TYPES = {
    Decision: {'value': StrIn(*DECISIONS)},
    Effect: {'value': StrIn('Permit', 'Deny')},
    Rule: {'id': Opt(STR), 'effect': Opt(Inst(Effect)),
           'target': Opt(Inst(Target)), 'condition': Opt(Inst(Condition)),
           'description': Opt(STR)},
    PolicyBase: {'ident': Opt(STR), 'target': Opt(Inst(Target))},
    Policy: {'policyId': Opt(STR), 'target': Opt(Inst(Target)),
             'ruleCombiningAlgId': Opt(STR),
             'ruleCombiningAlg': Opt(Inst(RuleCombiningAlgInterface)),
             'rules': SeqT(Inst(Rule), TypedList)},
    PolicySet: {'policySetId': Opt(STR), 'target': Opt(Inst(Target)),
                'policyCombiningAlgId': Opt(STR),
                'policyCombiningAlg': Opt(Inst(PolicyCombiningAlgInterface)),
                'policies': SeqT(Inst(PolicyBase), TypedList)},
    Target: {'subjects': SeqT(Inst(TSubject), TypedList),
             'resources': SeqT(Inst(TResource), TypedList),
             'actions': SeqT(Inst(TAction), TypedList),
             'environments': SeqT(Inst(TEnvironment), TypedList)},
    TSubject: {'matches': SeqT(Inst(SubjectMatch), TypedList)},
    TResource: {'matches': SeqT(Inst(ResourceMatch), TypedList)},
    TAction: {'matches': SeqT(Inst(ActionMatch), TypedList)},
    TEnvironment: {'matches': SeqT(Inst(EnvironmentMatch), TypedList)},
    MatchBase: {'attributeValue': Opt(Inst(AttributeValue)),
                'attributeDesignator': Opt(Inst(AttributeDesignator)),
                'attributeSelector': Opt(Inst(AttributeSelector)),
                'matchId': Opt(STR),
                'loadFunctionFromId': BOOL,
                'function': Opt(Inst(AbstractFunction))},
    Request: {'subjects': SeqT(Inst(CSubject), TypedList),
              'resources': SeqT(Inst(CResource), TypedList),
              'action': Opt(Inst(CAction)),
              'environment': Opt(Inst(CEnvironment)),
              'ctxHandler': Opt(Inst(CtxHandlerInterface)),
              'attributeSelector': Opt(Inst(XPathSelectorInterface))},
    RequestChildBase: {'attributes': SeqT(Inst(Attribute), TypedList)},
    Attribute: {'attributeValues': SeqT(Inst(AttributeValue), TypedList),
                'dataType': Opt(STR), 'attributeId': Opt(STR),
                'issuer': Opt(STR)},
    CSubject: {'subjectCategory': Opt(STR)},
    Expression: {'dataType': Opt(STR)},
    AttributeDesignator: {'attributeId': Opt(STR), 'issuer': Opt(STR),
                          'mustBePresent': BOOL,
                          'attributeValueFactory':
                          Inst(AttributeValueClassFactory)},
    PDP: {'policy': Inst(PolicyBase)},
}


def oid(eng, v):
    return eng.oid(eng.lift(v))


# ------------------------------------------------------------------ ghosts
# Ghost functions are declared as Python functions so that specification
# programs can call them; the handlers below give their meaning.

def decision_of(x, context):
    """The decision x (a rule or a policy) gives for the request."""


def _decobj(eng, st, x, ctx):
    return eng.ap(st, 'DECISION_OF', [oid(eng, x), oid(eng, ctx)],
                  Inst(Decision))


def g_decision_of(eng, st, args, kw):
    d = _decobj(eng, st, args[0], args[1])
    return [(st, eng.ap(st, 'F:value', [oid(eng, d)], StrIn(*DECISIONS)))]


def c_evaluate(eng, st, recv, args, kw):
    """Rule.evaluate / PolicyBase.evaluate: returns the ghost decision, never
    raises, changes nothing (P04, P05, P20)."""
    return [(st, _decobj(eng, st, recv, args[0] if args else kw['context']))]


def target_match(target, context):
    """Does the target match?  May raise."""


def condition_holds(condition, context):
    """Value of the condition.  May raise."""


def combined(alg, members, context):
    """Decision the combining algorithm gives.  May raise."""


def ghost_call(eng, st, name, objs, ty):
    """deterministic pure operation that returns a ty or raises"""
    ts = [oid(eng, o) for o in objs]
    r = fn(name + ':raises', *([I] * len(ts) + [B]))(*ts)
    out = []
    for s, b in eng.branch(st, r):
        if b:
            out.append((s, Raise(Exc(Exception, False))))
        else:
            out.append((s, eng.ap(s, name, ts, ty)))
    return out


def arg(args, kw, i, name):
    return args[i] if i < len(args) else kw[name]


def c_target_match(eng, st, recv, args, kw):
    return ghost_call(eng, st, 'TARGET_MATCH',
                      [recv, arg(args, kw, 0, 'request')], BOOL)


def c_condition(eng, st, recv, args, kw):
    return ghost_call(eng, st, 'CONDITION',
                      [recv, arg(args, kw, 0, 'context')], BOOL)


def c_alg(mname):
    def apply(eng, st, recv, args, kw):
        return ghost_call(eng, st, 'COMBINED',
                          [recv, arg(args, kw, 0, mname),
                           arg(args, kw, 1, 'context')], Inst(Decision))
    return apply


def g_combined(eng, st, args, kw):
    out = []
    a = eng.norm(st, args[0])
    if isinstance(a, Con) and a.o is None:
        return eng.rz(st, AttributeError, 'no algorithm')
    if isinstance(a, Sym) and a.ty.kind == 'opt':
        res = []
        for s, b in eng.branch(st, Val.is_vnone(a.t)):
            if b:
                res.extend(eng.rz(s, AttributeError, 'no algorithm'))
            else:
                res.extend(g_combined(eng, s, [Sym(a.t, a.ty.inner)] +
                                      list(args[1:]), kw))
        return res
    for s, v in ghost_call(eng, st, 'COMBINED', args, Inst(Decision)):
        if isinstance(v, Raise):
            out.append((s, v))
        else:
            out.append((s, eng.ap(s, 'F:value', [oid(eng, v)],
                                  StrIn(*DECISIONS))))
    return out


TARGET_MATCH = CallContract(Target, 'match', c_target_match)
CONDITION_EVALUATE = CallContract(Condition, 'evaluate', c_condition)
RULE_ALG = CallContract(RuleCombiningAlgInterface, 'evaluate', c_alg('rules'))
POLICY_ALG = CallContract(PolicyCombiningAlgInterface, 'evaluate',
                          c_alg('policies'))
RULE_EVALUATE = CallContract(Rule, 'evaluate', c_evaluate)
POLICY_EVALUATE = CallContract(PolicyBase, 'evaluate', c_evaluate)

# non-branching connectives for specification formulas
def either(*xs):
    """disjunction"""


def both(*xs):
    """conjunction"""


def no(x):
    """negation"""


def zb(eng, st, v):
    v = eng.norm(st, v)
    if isinstance(v, Con) and isinstance(v.o, bool):
        return z3.BoolVal(v.o)
    if isinstance(v, Sym) and v.ty.kind == 'bool':
        return eng.bt(v.t)
    raise Unsupported('specification formula %r' % (v,))


def g_either(eng, st, a, kw):
    return [(st, eng.mkbool(z3.simplify(z3.Or([zb(eng, st, x) for x in a]))))]


def g_both(eng, st, a, kw):
    return [(st, eng.mkbool(z3.simplify(z3.And([zb(eng, st, x)
                                                for x in a]))))]


def g_no(eng, st, a, kw):
    return [(st, eng.mkbool(z3.simplify(z3.Not(zb(eng, st, a[0])))))]


def some(pred, seq):
    """some element of seq satisfies pred (a formula)"""


def every(pred, seq):
    """all elements of seq satisfy pred (a formula)"""


def some_f(eng, st, pred, v):
    q = eng.content(st, v) if not isinstance(v, SPEC_SEQ) else v
    if q is None and eng.map_of(st, v) is not None:
        q = eng.map_keys(st, eng.map_of(st, v))
    if q is None:
        raise Unsupported('specification sequence %r' % (v,))
    return eng.seq_exists(st, q, lambda s, x: eng.formula(
        s, lambda s2: pred(s2, x)))


SPEC_SEQ = (SList, SBase, STab, SCat, SFlat, SSlice)


def g_some(eng, st, a, kw):
    f = some_f(eng, st, lambda s, x: eng.call(s, a[0], [x], {}), a[1])
    return [(st, eng.mkbool(f))]


def g_every(eng, st, a, kw):
    f = some_f(eng, st, lambda s, x: g_not_of(eng, s, eng.call(
        s, a[0], [x], {})), a[1])
    return [(st, eng.mkbool(z3.simplify(z3.Not(f))))]


def g_not_of(eng, st, outs):
    res = []
    for s, v in outs:
        if isinstance(v, Raise):
            res.append((s, v))
        else:
            res.append((s, eng.mkbool(z3.simplify(z3.Not(zb(eng, s, v))))))
    return res


# a match element's outcome for a request
def match_is(m, context, what):
    """what: 'true', 'false' or 'fails'"""


def g_match_is(eng, st, a, kw):
    ts = [oid(eng, a[0]), oid(eng, a[1])]
    r = fn('MATCH:raises', I, I, B)(*ts)
    b = fn('MATCH:b', I, I, B)(*ts)
    w = a[2].o
    f = {'fails': r, 'true': z3.And(z3.Not(r), b),
         'false': z3.And(z3.Not(r), z3.Not(b))}[w]
    return [(st, eng.mkbool(f))]


def c_match(eng, st, recv, args, kw):
    return ghost_call(eng, st, 'MATCH', [recv, arg(args, kw, 0, 'context')],
                      BOOL)


MATCH_EVALUATE = CallContract(MatchBase, 'evaluate', c_match)

# a bag an expression gives for a request
BAG = SeqT(Inst(AttributeValue), TypedList)


def bag_of(expr, context):
    """The bag the expression yields.  May raise."""


def c_bag(eng, st, recv, args, kw):
    return ghost_call(eng, st, 'BAG', [recv, arg(args, kw, 0, 'context')],
                      BAG)


# outcome of a two-argument function
def func_is(f, a, b, what):
    """what: 'true', 'false', 'fails' (no function: fails)"""


def g_func_is(eng, st, a, kw):
    f = eng.lift(a[0])
    ts = [eng.lift(a[1]), eng.lift(a[2])]
    o = eng.oid(f)
    r = z3.Or(Val.is_vnone(f), fn('FUNC:raises', I, Val, Val, B)(o, *ts))
    b = fn('FUNC2:b', I, Val, Val, B)(o, *ts)
    w = a[3].o
    return [(st, eng.mkbool({'fails': r, 'true': z3.And(z3.Not(r), b),
                             'false': z3.And(z3.Not(r), z3.Not(b))}[w]))]


def c_func2(eng, st, recv, args, kw):
    if len(args) != 2 or kw:
        raise Unsupported('function called with %d arguments' % len(args))
    ts = [oid(eng, recv)] + [eng.lift(i) for i in args]
    out = []
    for s, b in eng.branch(st, fn('FUNC:raises', I, Val, Val, B)(*ts)):
        out.append((s, Raise(Exc(Exception, False))) if b else
                   (s, eng.ap(s, 'FUNC2', ts, BOOL)))
    return out


DESIGNATOR_EVALUATE = CallContract(AttributeDesignator, 'evaluate', c_bag)
SELECTOR_EVALUATE = CallContract(AttributeSelector, 'evaluate', c_bag)
FUNC2_EVALUATE = CallContract(AbstractFunction, 'evaluate', c_func2)

GHOSTS = {
    bag_of: lambda e, st, a, kw: ghost_call(e, st, 'BAG', a, BAG),
    func_is: g_func_is,
    some: g_some, every: g_every, either: g_either, both: g_both, no: g_no, match_is: g_match_is,
    decision_of: g_decision_of,
    target_match: lambda e, st, a, kw: ghost_call(e, st, 'TARGET_MATCH', a,
                                                  BOOL),
    condition_holds: lambda e, st, a, kw: ghost_call(e, st, 'CONDITION', a,
                                                     BOOL),
    combined: g_combined,
}


# ------------------------------------------------------------------ compare
def cmp_decision(eng, st, code, spec):
    """code returned a Decision whose value is the specified string"""
    if isinstance(code, Raise):
        return False
    cls, _ = eng.cls_of(st, code)
    if cls is None or not issubclass(cls, Decision):
        return False
    outs = eng.getattr_(st.copy(), code, 'value')
    assert len(outs) == 1 and not isinstance(outs[0][1], Raise)
    s2, v = outs[0]
    st.facts.extend(s2.facts[len(st.facts):])
    return eng.lift(v) == eng.lift(spec)


def no_writes(eng, st, out):
    return '; '.join(sorted(set(w[1] for w in st.writes))) or None
