"""P22: parsing yields exactly what the element states, or refuses it."""
from .xml import *          # noqa
from .funcs import refuse
from .bags import seqeq, seq_of
from .p18 import Implemented, kind
from ndg.xacml.core import functions as FN
from ndg.xacml.core.functions import FunctionMap
from ndg.xacml.core.apply import Apply
from ndg.xacml.core.policydefaults import PolicyDefaults
from ndg.xacml.parsers.etree.factory import ReaderFactory
from ndg.xacml.parsers.etree.rulereader import RuleReader
from ndg.xacml.core.attributevalue import AttributeValueClassFactory
from ndg.xacml.core.policybase import PolicyBase
from ndg.xacml.core.rule_combining_alg import (RuleCombiningAlgInterface,
                                                RuleCombiningAlgClassFactory)
from ndg.xacml.core.policy_combining_alg import (PolicyCombiningAlgInterface,
                                                  PolicyCombiningAlgClassFactory)
from ndg.xacml.parsers import XMLParseError
from ndg.xacml.parsers.common import Common
from ndg.xacml.finder.policyfinderbase import PolicyFinderBase
from ndg.xacml.parsers.etree.policysetreader import PolicySetReader
from .p15 import made
from pyvc.verify import Target as T


def do_read(reader, elem, common):
    return reader()(elem, common)


def required(elem, name):
    value = elem.attrib.get(name)
    if value is None:
        refuse()
    return value


def named(elem, name):
    if local(elem.tag) != name:
        refuse()


# ------------------------------------------------------- what elements state
def rule(elem, common):
    named(elem, 'Rule')
    r = Rule()
    r.id = required(elem, 'RuleId')
    e = Effect()
    e.value = required(elem, 'Effect')
    r.effect = e
    for child in elem.children:
        if not isinstance(child.tag, str):
            continue
        name = local(child.tag)
        if name == 'Description':
            if r.description is not None:
                refuse()
            text = text_of(child)
            if text is not None:
                r.description = text.strip()
        elif name == 'Target':
            if r.target is not None:
                refuse()
            r.target = stated(Target, child)
        elif name == 'Condition':
            if r.condition is not None:
                refuse()
            r.condition = stated(Condition, child)
        else:
            refuse()
    return r


def target(elem, common):
    named(elem, 'Target')
    t = Target()
    for section in elem.children:
        if not isinstance(section.tag, str):
            continue
        name = local(section.tag)
        if name == 'Subjects':
            for child in section.children:
                if isinstance(child.tag, str):
                    t.subjects.append(stated(TSubject, child))
        elif name == 'Resources':
            for child in section.children:
                if isinstance(child.tag, str):
                    t.resources.append(stated(TResource, child))
        elif name == 'Actions':
            for child in section.children:
                if isinstance(child.tag, str):
                    t.actions.append(stated(TAction, child))
        elif name == 'Environments':
            for child in section.children:
                if isinstance(child.tag, str):
                    t.environments.append(stated(TEnvironment, child))
        else:
            refuse()
    return t


def child_of(cls, match):
    def target_child(elem, common):
        named(elem, cls.__name__)
        t = cls()
        for child in elem.children:
            if not isinstance(child.tag, str):
                continue
            if local(child.tag) != cls.__name__ + 'Match':
                refuse()
            t.matches.append(stated(match, child))
        return t
    return target_child


def match_of(cls, designator):
    def match(elem, common):
        named(elem, cls.__name__)
        m = cls()
        m.matchId = required(elem, 'MatchId')
        for child in elem.children:
            if not isinstance(child.tag, str):
                continue
            name = local(child.tag)
            if name == 'AttributeValue':
                m.attributeValue = stated(AttributeValue, child)
            elif name == designator.__name__:
                if m.attributeDesignator is not None or \
                        m.attributeSelector is not None:
                    refuse()
                m.attributeDesignator = stated(designator, child)
            elif name == 'AttributeSelector':
                if m.attributeDesignator is not None or \
                        m.attributeSelector is not None:
                    refuse()
                m.attributeSelector = stated(AttributeSelector, child)
            else:
                refuse()
        return m
    return match


def condition(elem, common):
    named(elem, 'Condition')
    only = None
    for child in elem.children:
        if isinstance(child.tag, str):
            if only is not None:
                refuse()
            only = child
    if only is None:
        refuse()
    if local(only.tag) != 'Apply':
        refuse()
    c = Condition()
    c.expression = stated(Apply, only)
    return c


def apply(elem, common):
    named(elem, 'Apply')
    a = Apply()
    a.functionId = required(elem, 'FunctionId')
    for child in elem.children:
        if not isinstance(child.tag, str):
            continue
        name = local(child.tag)
        if name == 'Apply':
            a.expressions.append(stated(Apply, child))
        elif name == 'AttributeValue':
            a.expressions.append(stated(AttributeValue, child))
        elif name == 'SubjectAttributeDesignator':
            a.expressions.append(stated(SubjectAttributeDesignator, child))
        elif name == 'ResourceAttributeDesignator':
            a.expressions.append(stated(ResourceAttributeDesignator, child))
        elif name == 'ActionAttributeDesignator':
            a.expressions.append(stated(ActionAttributeDesignator, child))
        elif name == 'EnvironmentAttributeDesignator':
            a.expressions.append(stated(EnvironmentAttributeDesignator,
                                        child))
        elif name == 'AttributeSelector':
            a.expressions.append(stated(AttributeSelector, child))
        elif name == 'Condition':
            a.expressions.append(stated(Condition, child))
        else:
            refuse()
    return a


def designator_of(cls):
    def designator(elem, common):
        named(elem, cls.__name__)
        d = cls()
        d.dataType = required(elem, 'DataType')
        no_children(elem)
        d.attributeId = required(elem, 'AttributeId')
        issuer = elem.attrib.get('Issuer')
        if issuer is not None:
            d.issuer = issuer
        present = elem.attrib.get('MustBePresent')
        if present is not None:
            d.mustBePresent = present.lower() in ('yes', 'true', 't', '1')
        return d
    return designator


def selector(elem, common):
    named(elem, 'AttributeSelector')
    a = AttributeSelector()
    a.dataType = required(elem, 'DataType')
    no_children(elem)
    a.requestContextPath = required(elem, 'RequestContextPath')
    present = elem.attrib.get('MustBePresent')
    if present is not None:
        a.mustBePresent = present.lower() in ('yes', 'true', 't', '1')
    return a


def no_children(elem):
    for child in elem.children:
        if isinstance(child.tag, str):
            refuse()


VALUES = [(c.IDENTIFIER, c) for c in sorted(
    set(AttributeValueClassFactory.IDENTIFIER2CLASS_MAP.values()),
    key=lambda c: c.__name__)]


def value_of(classes):
    def attribute_value(elem, common):
        named(elem, 'AttributeValue')
        uri = required(elem, 'DataType')
        for i, c in classes:
            if uri == i:
                v = c()
                text = text_of(elem)
                if text is None:
                    refuse()
                v.value = text
                return v
        refuse()
    return attribute_value


def defaults(elem, common):
    name = local(elem.tag)
    if name != 'PolicyDefaults' and name != 'PolicySetDefaults':
        refuse()
    only = None
    for child in elem.children:
        if isinstance(child.tag, str):
            if only is not None:
                refuse()
            only = child
    if only is None:
        refuse()
    if local(only.tag) != 'XPathVersion':
        refuse()
    text = text_of(only)
    if text is None:
        refuse()
    d = PolicyDefaults()
    d.xpathVersion = text
    return d


def version(elem):
    v = elem.attrib.get('Version')
    if v is None or v == '':
        return '2.0'
    return v


def policy(elem, common):
    named(elem, 'Policy')
    p = Policy()
    p.policyId = required(elem, 'PolicyId')
    p.ruleCombiningAlgId = required(elem, 'RuleCombiningAlgId')
    p.version = version(elem)
    for child in elem.children:
        if not isinstance(child.tag, str):
            continue
        name = local(child.tag)
        if name == 'Description':
            if p.description is not None:
                refuse()
            text = text_of(child)
            if text is not None:
                p.description = text.strip()
        elif name == 'PolicyDefaults':
            if p.policyDefaults is not None:
                refuse()
            p.policyDefaults = stated(PolicyDefaults, child)
        elif name == 'Target':
            if p.target is not None:
                refuse()
            p.target = stated(Target, child)
        elif name == 'Rule':
            r = stated(Rule, child)
            if r.id in [x.id for x in p.rules]:
                refuse()
            p.rules.append(r)
        else:
            refuse()
    if common is not None:
        common.policyFinder.addPolicyReference(p)
    return p


def policy_set(elem, common):
    named(elem, 'PolicySet')
    p = PolicySet()
    p.policySetId = required(elem, 'PolicySetId')
    p.policyCombiningAlgId = required(elem, 'PolicyCombiningAlgId')
    p.version = version(elem)
    for child in elem.children:
        if not isinstance(child.tag, str):
            continue
        name = local(child.tag)
        if name == 'Description':
            if p.description is not None:
                refuse()
            text = text_of(child)
            if text is not None:
                p.description = text.strip()
        elif name == 'PolicySetDefaults':
            if p.policySetDefaults is not None:
                refuse()
            p.policySetDefaults = stated(PolicyDefaults, child)
        elif name == 'Target':
            if p.target is not None:
                refuse()
            p.target = stated(Target, child)
        elif name == 'Policy':
            p.policies.append(stated(Policy, child))
        elif name == 'PolicySet':
            p.policies.append(stated(PolicySet, child))
        elif name == 'PolicyIdReference':
            p.policies.append(common.policyFinder.findPolicy(text_of(child),
                                                             common))
        elif name == 'PolicySetIdReference':
            p.policies.append(common.policyFinder.findPolicySet(
                text_of(child), common))
        else:
            refuse()
    common.policyFinder.addPolicySetReference(p)
    return p


def root(elem, common):
    name = local(elem.tag)
    if name == 'Policy':
        return stated(Policy, elem)
    if name == 'PolicySet':
        return stated(PolicySet, elem)
    refuse()


class Finder(object):
    """What P21 specifies of the policy finders."""

    def __init__(self):
        self.added = []

    def addPolicyReference(self, p):
        if taken(Policy, p.policyId):
            raise XMLParseError()
        self.added.append(p)

    def addPolicySetReference(self, p):
        if taken(PolicySet, p.policySetId):
            raise XMLParseError()
        self.added.append(p)

    def findPolicy(self, ref, common):
        return found(Policy, ref)

    def findPolicySet(self, ref, common):
        return found(PolicySet, ref)


def taken(cls, ident):
    """an identifier some policy read before has"""


def found(cls, ref):
    """the policy of that identifier, or an error"""


def g_taken(eng, st, args, kw):
    return [(st, eng.ap(st, 'TAKEN:' + args[0].o.__name__,
                        [eng.lift(args[1])], BOOL))]


def g_found(eng, st, args, kw):
    return ghost_call(eng, st, 'FOUND:' + args[0].o.__name__, [args[1]],
                      Inst(args[0].o))


FINDER = {taken: g_taken, found: g_found}


# ------------------------------------------------------------ the obligation
VIEW = {
    Rule: ('id', 'effect', 'description', 'target', 'condition'),
    Effect: ('value',),
    Target: ('subjects', 'resources', 'actions', 'environments'),
    Condition: ('expression',),
    Apply: ('functionId', 'function', 'expressions'),
    Implemented: (),
    AttributeDesignator: ('dataType', 'attributeId', 'issuer',
                          'mustBePresent'),
    AttributeSelector: ('dataType', 'requestContextPath', 'mustBePresent'),
    AttributeValue: ('dataType', 'value'),
    PolicyDefaults: ('xpathVersion',),
    Policy: ('policyId', 'version', 'ruleCombiningAlgId', 'ruleCombiningAlg',
             'description', 'policyDefaults', 'target', 'rules',
             'obligations'),
    PolicySet: ('policySetId', 'version', 'policyCombiningAlgId',
                'policyCombiningAlg', 'description', 'policySetDefaults',
                'target', 'policies', 'obligations'),
    RuleCombiningAlgInterface: (), PolicyCombiningAlgInterface: (),
    MatchBase: ('matchId', 'function', 'attributeValue',
                'attributeDesignator', 'attributeSelector'),
}
for _c in (TSubject, TResource, TAction, TEnvironment):
    VIEW[_c] = ('matches',)


def view_of(cls):
    for c in cls.__mro__:
        if c in VIEW:
            return VIEW[c]
    raise Unsupported('what there is to see of a %s' % cls.__name__)


def same(e, s, a, t, b):
    """the code's a in state s is the specification's b in state t"""
    a, b = e.norm(s, a), e.norm(t, b)
    if isinstance(a, Raise) or isinstance(b, Raise):
        return FALSE
    if isinstance(a, Ref) and isinstance(b, Ref):
        ca, cb = e.cls_of(s, a), e.cls_of(t, b)
        if ca != cb:
            return FALSE
        if s.heap[a.id].seq is not None:
            ts = s.copy()
            ts.heap = t.heap
            return seqeq(e, s, seq_of(e, s, a), seq_of(e, ts, b))
        fs = []
        for n in view_of(ca[0]):
            (s2, x), = e.getattr_(s, a, n)
            (t2, y), = e.getattr_(t, b, n)
            if s2 is not s:
                s.facts, s.pc = s2.facts, s2.pc
            fs.append(same(e, s, x, t, y))
        return z3.And(fs)
    if isinstance(a, Ref) or isinstance(b, Ref):
        return FALSE
    return e.lift(a) == e.lift(b)


def is_it(x, result):
    if not (isinstance(x, Ref) and isinstance(result, Ref)):
        raise Unsupported('what is registered')
    return x.id == result.id


def reads(name, cls, spec, types=None, init=None, reader=None, finder=False,
          fc=None):
    def build(cx):
        r = reader or ReaderFactory.getReader(cls)
        ty = dict(ELEM)
        ty.update(types or {})
        eng = cx.engine(ty, [], PARSE)
        eng.fcontracts.update(FINDER)
        eng.fcontracts.update(fc or {})
        eng.assumptions.add(ELEMENTS)
        st = eng.start()
        elem = eng.param(st, 'elem', Inst(Elem))
        common = eng.param(st, 'common', ANY)
        if finder == 'none':
            common = Con(None)
        elif finder:
            st, f = made(eng, st, Finder)
            st, common = made(eng, st, Common, f)
        if init:
            init(eng, st, elem)

        def compare(e, s, code, sp):
            if isinstance(code, Raise) or isinstance(sp, Raise):
                return z3.BoolVal(isinstance(code, Raise) and
                                  isinstance(sp, Raise))
            g = same(e, s, code, s.spec, sp)
            if finder is True:
                (s2, a), = e.getattr_(s, f, 'added')
                (t2, b), = e.getattr_(s.spec, f, 'added')
                ts = s.copy()
                ts.heap = s.spec.heap
                qa, qb = seq_of(e, s, a), seq_of(e, ts, b)
                if isinstance(qa, SList) and isinstance(qb, SList):
                    # the very objects returned are what is registered
                    g = z3.And(g, z3.BoolVal(
                        [is_it(x, code) for x in qa.items] ==
                        [is_it(y, sp) for y in qb.items]))
                else:
                    g = z3.And(g, seqeq(e, s, qa, qb))
            return g
        cx.refine(eng, st, do_read, spec, [Con(r), elem, common],
                  compare, sargs=[elem, common])
    return T(name, build, wall=480)


def functions(eng, st, elem):
    """function identifiers resolve as P15 specifies"""
    def get(e, s, args, kw):
        k = kind(e, args[1])
        out = []
        for i, v in enumerate([Con(Implemented), Con(NotImplemented),
                               Con(None), None]):
            s2 = s.copy()
            s2.add(k == i)
            if e.feasible(s2):
                out += [(s2, v)] if v is not None else e.rz(
                    s2, FN.FunctionMapConfigError)
        return out
    eng.fcontracts[FunctionMap.get] = get
    eng.fcontracts[FunctionMap.__getitem__] = get


def algs(cls):
    """combining algorithm identifiers resolve as P15 specifies"""
    def get(e, s, args, kw):
        k = kind(e, args[1])
        out = []
        for i, v in enumerate([cls, NotImplemented, None]):
            s2 = s.copy()
            s2.add(k == i)
            if e.feasible(s2):
                out.append((s2, Con(v)))
        return out
    return get


class AnyRuleAlg(RuleCombiningAlgInterface):
    def evaluate(self, rules, context):
        pass


class AnyPolicyAlg(PolicyCombiningAlgInterface):
    def evaluate(self, policies, context):
        pass


ALGS = {RuleCombiningAlgClassFactory.__call__: algs(AnyRuleAlg),
        PolicyCombiningAlgClassFactory.__call__: algs(AnyPolicyAlg)}


def c_process(cls):
    def handle(eng, st, args, kw):
        return g_stated(eng, st, [Con(cls), args[1]], {})
    return handle


ROOTS = {PolicyReader.processElement: c_process(Policy),
         PolicySetReader.processElement: c_process(PolicySet)}


# ------------------------------------------- texts, sources, entry points
def do_text(elem):
    return PE.getElementText(elem)


def text(elem):
    for child in elem.children:
        if isinstance(child.tag, str):
            refuse()
    t = elem.text
    for child in elem.children:
        if child.tail is not None:
            if t is None:
                t = child.tail
            else:
                t = t + child.tail
    return t


def t_text(cx):
    eng = cx.engine(dict(ELEM), [], {ElementTree.iselement: c_iselement})
    eng.assumptions.add(ELEMENTS)
    st = eng.start()
    elem = eng.param(st, 'elem', Inst(Elem))

    def compare(e, s, code, sp):
        if isinstance(code, Raise) or isinstance(sp, Raise):
            return z3.BoolVal(isinstance(code, Raise) and
                              isinstance(sp, Raise))
        return e.lift(code) == e.lift(sp)
    cx.refine(eng, st, do_text, text, [elem], compare)


READ = (PolicyBase, Policy, PolicySet, PolicyDefaults, Target, Rule,
        Condition, Apply, AttributeValue, AttributeSelector,
        TSubject, TResource, TAction, TEnvironment,
        SubjectMatch, ResourceMatch, ActionMatch, EnvironmentMatch,
        SubjectAttributeDesignator, ResourceAttributeDesignator,
        ActionAttributeDesignator, EnvironmentAttributeDesignator)


def of(cls):
    def what_it_states(elem, common):
        return stated(cls, elem)
    return what_it_states


def do_parse(xacml, elem, common):
    return ReaderFactory.getReader(xacml).parse(elem, common)


def both_or_same(e, s, code, sp):
    if isinstance(code, Raise) or isinstance(sp, Raise):
        return z3.BoolVal(isinstance(code, Raise) and isinstance(sp, Raise))
    return e.lift(code) == e.lift(sp)


def parses(cls):
    """parse of a reader class is what its instances do"""
    def build(cx):
        r = ReaderFactory.getReader(cls)

        def c_call(eng, st, args, kw):
            k = eng.cls_of(st, eng.norm(st, args[0]))[0]
            return g_stated(eng, st, [Con(k.TYPE), args[1]], {})
        f = next(k.__dict__['__call__'] for k in r.__mro__
                 if '__call__' in k.__dict__)
        eng = cx.engine(dict(ELEM), [], {f: c_call, stated: g_stated})
        st = eng.start()
        elem, common = [eng.param(st, n, ANY) for n in ('elem', 'common')]
        cx.refine(eng, st, do_parse, of(cls), [Con(cls), elem, common],
                  both_or_same, sargs=[elem, common])
    return T('parse of a %s' % cls.__name__, build)


class Tree(object):
    def getroot(self):
        return self.root


def root_of(source):
    """the root element of the document a source holds"""


def g_root(eng, st, args, kw):
    return ghost_call(eng, st, 'ROOT', [args[0]], Inst(Elem))


def c_document(eng, st, args, kw):
    out = []
    for s, e in g_root(eng, st, args, kw):
        if not isinstance(e, Raise):
            s, t = made(eng, s, Tree)
            s, = [s2 for s2, o in eng.setattr_(s, t, 'root', e)]
            e = t
        out.append((s, e))
    return out


def document_of(cls):
    def document(source, common):
        return stated(cls, root_of(source))
    return document


def do_source(xacml, source, common):
    return ReaderFactory.getReader(xacml)()(source, common)


def sources(cls):
    """a stream or path is parsed, and its root element is what is read"""
    def build(cx):
        eng = cx.engine(dict(ELEM), [], dict(
            ROOTS, **{}))
        eng.fcontracts.update({ElementTree.parse: c_document, root_of: g_root,
                               stated: g_stated,
                               ElementTree.iselement: c_iselement})
        eng.assumptions.add(ELEMENTS)
        eng.assumptions.add('ElementTree.parse(source).getroot() is the root '
                            'element of the document, or an error')
        st = eng.start()
        src = eng.param(st, 'source', Inst(Source))
        common = eng.param(st, 'common', ANY)
        spec = document_of(cls)
        if cls is PolicyBase:
            def spec(source, common):
                return root(root_of(source), common)
        cx.refine(eng, st, do_source, spec, [Con(cls), src, common],
                  both_or_same, sargs=[src, common])
    return T('%s from a source' % cls.__name__, build)


def read_with(cls, source, finder):
    """what the source states, references looked up by the finder"""


def g_read(eng, st, args, kw):
    return ghost_call(eng, st, 'READ:' + args[0].o.__name__, args[1:],
                      Inst(args[0].o))


def from_source(cls, source, finder):
    return cls.fromSource(source, ReaderFactory, finder)


def starts(cls):
    """fromSource reads with the finder given, which reads what is referred
    to as a policy or a policy set"""
    def build(cx):
        def c_parse(eng, st, args, kw):
            (st, f), = eng.getattr_(st, args[2], 'policyFinder')
            return g_read(eng, st, [Con(args[0].o.TYPE), args[1], f], {})
        eng = cx.engine(dict(ELEM), [], {
            AbstractReader.parse.__func__: c_parse,
            PolicyReader.parse.__func__: c_parse,
            read_with: g_read})
        st = eng.start()
        src = eng.param(st, 'source', ANY)
        f = eng.param(st, 'finder', Inst(PolicyFinderBase))

        def compare(e, s, code, sp):
            g = both_or_same(e, s, code, sp)
            if isinstance(code, Raise):
                return g
            (s2, r), = e.getattr_(s, f, 'reader')
            return z3.And(g, z3.BoolVal(
                isinstance(r, Con) and isinstance(r.o, type) and
                r.o is ReaderFactory.getReader(PolicyBase)))

        def spec(cls, source, finder):
            return read_with(cls, source, finder)
        cx.refine(eng, st, from_source, spec, [Con(cls), src, f], compare)
    return T('%s.fromSource' % cls.__name__, build)


def targets(tier):
    out = [reads('rule', Rule, rule),
           reads('target', Target, target),
           reads('condition', Condition, condition),
           reads('apply', Apply, apply, init=functions)]
    for c, m, d in ((TSubject, SubjectMatch, SubjectAttributeDesignator),
                    (TResource, ResourceMatch, ResourceAttributeDesignator),
                    (TAction, ActionMatch, ActionAttributeDesignator),
                    (TEnvironment, EnvironmentMatch,
                     EnvironmentAttributeDesignator)):
        out.append(reads('target %s' % c.__name__, c, child_of(c, m)))
        out.append(reads(m.__name__, m, match_of(m, d), init=functions))
    for c, d in ((SubjectAttributeDesignator, 'subject'),
                 (ResourceAttributeDesignator, 'resource'),
                 (ActionAttributeDesignator, 'action'),
                 (EnvironmentAttributeDesignator, 'environment')):
        out.append(reads('%s designator' % d, c, designator_of(c)))
    out.append(reads('selector', AttributeSelector, selector))
    out.append(reads('attribute value', AttributeValue, value_of(VALUES)))
    out.append(reads('policy defaults', PolicyDefaults, defaults))
    for finder in ('none', True):
        out.append(reads('policy%s' % (' in a set' if finder is True else ''),
                         Policy, policy, finder=finder, fc=ALGS,
                         types={Rule: {'id': STR}}))
    out.append(reads('policy set', PolicySet, policy_set, finder=True,
                     fc=ALGS))
    out.append(T('text', t_text))
    out += [parses(c) for c in READ]
    out += [sources(c) for c in (Policy, PolicySet, PolicyBase)]
    out += [starts(c) for c in (Policy, PolicySet, PolicyBase)]
    out.append(reads('document', PolicyBase, root, finder=True, fc=ROOTS))
    return out
