"""P23: what is written of a request or response, read back, is equal to it."""
import copy

from .xml import *          # noqa
from .funcs import refuse
from .bags import seqeq, seq_of
from ndg.xacml.core.attribute import Attribute
from ndg.xacml.core.attributevalue import AttributeValueClassFactory
from ndg.xacml.core.context.action import Action
from ndg.xacml.core.context.environment import Environment
from ndg.xacml.core.context.request import Request
from ndg.xacml.core.context.resource import Resource
from ndg.xacml.core.context.response import Response
from ndg.xacml.core.context.result import (Decision, Result, Status,
                                           StatusCode)
from ndg.xacml.core.context.subject import Subject
from ndg.xacml.core import Identifiers
from ndg.xacml.parsers.etree import context as C
from ndg.xacml.utils import TypedList
from .p15 import made
from .p22 import same, VIEW
from pyvc.verify import Target as T

CATEGORY = Identifiers.SubjectCategory.ACCESS_SUBJECT


def moved(child):
    """lxml takes what is appended out of where it was"""


def g_moved(eng, st, args, kw):
    c = eng.norm(st, args[0])
    if isinstance(c, Ref) and c.id in eng.tracked:
        st.writes.append(('parent', 'the place of an element'))
    return [(st, Con(None))]


class Built(object):
    """An element that was made, written and parsed again."""

    def __init__(self, tag, attrib):
        self.tag = tag
        self.attrib = attrib
        self.children = []
        self.content = None
        self.tail = None

    @property
    def text(self):
        return self.content

    @text.setter
    def text(self, value):
        if value is not None and not isinstance(value, str):
            raise TypeError()
        if value == '':
            value = None
        self.content = value

    def set(self, name, value):
        if not isinstance(value, str):
            raise TypeError()
        self.attrib[name] = value

    def get(self, name, default=None):
        return self.attrib.get(name, default)

    def append(self, child):
        moved(child)
        self.children.append(child)

    def extend(self, children):
        for child in children:
            self.append(child)

    def __iter__(self):
        return iter(self.children)

    def __len__(self):
        return len(self.children)


class Written(object):
    """What toXML of a member gives, by its contract: an element of that
    name, from which fromXML reads an equal member."""

    def __init__(self, tag, of):
        self.tag = tag
        self.of = of


WRITTEN = ('elements keep their names, attributes, children in order and '
           'texts when they are written and parsed, an empty text becoming '
           'none (a text with characters XML has no place for is refused)')


def c_make(eng, st, args, kw):
    kw = dict(kw)
    at = kw.pop('attrib', args[3] if len(args) > 3 else None)
    (s, d), = eng.call(st, Con(dict), [at] if at is not None else [], kw)
    return [made(eng, s, Built, args[0], d)]


def c_qname(eng, st, args, kw):
    ns, tag = [arg(args, kw, i, n) for i, n in enumerate(('input', 'tag'))]
    return [(st, Con('{%s}%s' % (ns.o, tag.o)))]


def value(data_type, text):
    """the attribute value of that type with that content"""


def g_value(eng, st, args, kw):
    return [(st, eng.ap(st, 'VALUE', [eng.lift(a) for a in args],
                        Inst(AttributeValue)))]


class Maker(object):
    """The class of the attribute values of a type."""

    def __init__(self, data_type):
        self.data_type = data_type

    def __call__(self, text):
        return value(self.data_type, text)


def c_iselem(eng, st, args, kw):
    return [(st, Con(eng.isinst(st, args[0], Con(Built)) is True or
                     eng.isinst(st, args[0], Con(Written)) is True))]


def c_copy(eng, st, args, kw):
    x = eng.norm(st, args[0])
    if eng.cls_of(st, x)[0] is not Written:
        raise Unsupported('a copy of what is no element')
    (st, tag), = eng.getattr_(st, x, 'tag')
    (st, of), = eng.getattr_(st, x, 'of')
    return [made(eng, st, Written, tag, of)]


def c_factory(eng, st, args, kw):
    s, m = made(eng, st, Maker, args[1])
    return [(s, m)]


def member(cls, reader):
    def c_to(eng, st, args, kw):
        tag = '{%s}%s' % (C.XacmlContextBase.XACML_2_0_CONTEXT_NS,
                          cls.ELEMENT_LOCAL_NAME)
        if args[1] is eng.top:
            return eng.call_function(st, reader.toXML.__func__, args, kw,
                                     nocontract=True)
        if eng.isinst(st, args[1], Con(cls)) is not True:
            raise Unsupported('a %s that is not one' % cls.__name__)
        s, w = made(eng, st, Written, Con(tag), args[1])
        return [(s, w)]

    def c_from(eng, st, args, kw):
        e = eng.norm(st, args[1])
        k = eng.cls_of(st, e)[0]
        if k is Written:
            return eng.getattr_(st, e, 'of')
        return eng.call_function(st, reader.fromXML.__func__, args, kw,
                                 nocontract=True)
    return {reader.toXML.__func__: c_to, reader.fromXML.__func__: c_from}


MEMBERS = {}
for _c, _r in ((Attribute, C.AttributeElementTree),
               (Subject, C.SubjectElementTree),
               (Resource, C.ResourceElementTree),
               (Action, C.ActionElementTree),
               (Environment, C.EnvironmentElementTree),
               (Result, C.ResultElementTree),
               (Decision, C.DecisionElementTree)) + ((
                   (Status, C.StatusElementTree),
                   (StatusCode, C.StatusCodeElementTree)) if hasattr(
                       C, 'StatusElementTree') else ()):
    MEMBERS.update(member(_c, _r))


# ------------------------------------------------------------------- equals
def attribute(x):
    a = Attribute()
    a.attributeId = x.attributeId
    a.dataType = x.dataType
    if x.issuer is not None:
        a.issuer = x.issuer
    if len(x.attributeValues) == 0:
        refuse()            # XACML has no attribute without a value
    for v in x.attributeValues:
        a.attributeValues.append(value(x.dataType, v.value))
    return a


def subject(x):
    s = Subject()
    s.subjectCategory = CATEGORY
    if x.subjectCategory is not None:
        s.subjectCategory = x.subjectCategory
    for a in x.attributes:
        s.attributes.append(a)
    return s


def plain(cls):
    def attributes_of(x):
        s = cls()
        for a in x.attributes:
            s.attributes.append(a)
        return s
    return attributes_of


def resource(x):
    s = Resource()
    if x.resourceContent is not None:
        s.resourceContent = x.resourceContent
    for a in x.attributes:
        s.attributes.append(a)
    return s


def request(x):
    r = Request()
    for s in x.subjects:
        r.subjects.append(s)
    for s in x.resources:
        r.resources.append(s)
    r.action = x.action
    r.environment = x.environment
    return r


def decision(x):
    d = Decision()
    d.value = x.value
    return d


def status_code(x):
    c = StatusCode()
    c.value = x.value
    if x.statusCode is not None:
        c.statusCode = x.statusCode
    return c


def status(x):
    s = Status()
    if x.statusCode is not None:
        s.statusCode = x.statusCode
    if x.statusMessage is not None:
        s.statusMessage = x.statusMessage
    if x.statusDetail is not None:
        s.statusDetail = x.statusDetail
    return s


def result(x):
    r = Result()
    if x.resourceId is not None:
        r.resourceId = x.resourceId
    r.decision = x.decision
    if x.status is not None:
        r.status = x.status
    return r


def response(x):
    r = Response()
    for s in x.results:
        r.results.append(s)
    return r


VIEW.update({
    Attribute: ('attributeId', 'dataType', 'issuer', 'attributeValues'),
    Subject: ('subjectCategory', 'attributes'),
    Resource: ('resourceContent', 'attributes'),
    Action: ('attributes',), Environment: ('attributes',),
    Request: ('subjects', 'resources', 'action', 'environment'),
    Decision: ('value',), StatusCode: ('value', 'statusCode'),
    Status: ('statusCode', 'statusMessage', 'statusDetail'),
    Result: ('resourceId', 'decision', 'status'),
    Response: ('results',), Written: ('tag', 'of')})
TYPES = {
    Attribute: {'attributeId': STR, 'dataType': STR, 'issuer': Opt(STR),
                'attributeValues': SeqT(Inst(AttributeValue), TypedList)},
    AttributeValue: {'value': STR},
    Subject: {'subjectCategory': Opt(STR),
              'attributes': SeqT(Inst(Attribute), TypedList)},
    Resource: {'attributes': SeqT(Inst(Attribute), TypedList)},
    Action: {'attributes': SeqT(Inst(Attribute), TypedList)},
    Environment: {'attributes': SeqT(Inst(Attribute), TypedList)},
    Request: {'subjects': SeqT(Inst(Subject), TypedList),
              'resources': SeqT(Inst(Resource), TypedList),
              'action': Inst(Action), 'environment': Inst(Environment)},
    Decision: {'value': STR},
    StatusCode: {'value': STR, 'statusCode': Opt(Inst(StatusCode))},
    Status: {'statusCode': Opt(Inst(StatusCode)), 'statusMessage': Opt(STR),
             'statusDetail': Opt(STR)},
    Result: {'resourceId': Opt(STR), 'decision': Inst(Decision),
             'status': Opt(Inst(Status))},
    Response: {'results': SeqT(Inst(Result), TypedList)},
}


def there_and_back(reader, x):
    return reader.fromXML(reader.toXML(x))


def back(cls, reader, spec, content=None):
    def build(cx):
        fc = dict(MEMBERS)
        fc.update({PE.makeEtreeElement: c_make, PE.QName: c_qname,
                   ElementTree.iselement: c_iselem, value: g_value,
                   moved: g_moved, copy.copy: c_copy, copy.deepcopy: c_copy,
                   AttributeValueClassFactory.__call__: c_factory})
        eng = cx.engine(dict(TYPES), [], fc)
        eng.assumptions.add(WRITTEN)
        st = eng.start()
        x = eng.param(st, 'x', Inst(cls))
        eng.top = x
        if cls is Resource:
            v = Con(None)
            if content:
                st, v = made(eng, st, Written, Con(content), Con('what'))
                eng.tracked.add(v.id)
            (st, _), = eng.setattr_(st, x, 'resourceContent', v)
            st.writes = type(st.writes)()

        def compare(e, s, code, sp):
            if isinstance(code, Raise) or isinstance(sp, Raise):
                return z3.BoolVal(isinstance(code, Raise) and
                                  isinstance(sp, Raise))
            return same(e, s, code, s.spec, sp)
        cx.refine(eng, st, there_and_back, spec, [Con(reader), x], compare,
                  sargs=[x], frame=no_writes)
    return T(cls.__name__ + (' with content' if content else ''), build)


def targets(tier):
    out = [back(Attribute, C.AttributeElementTree, attribute),
           back(Subject, C.SubjectElementTree, subject),
           back(Resource, C.ResourceElementTree, resource),
           back(Resource, C.ResourceElementTree, resource,
                '{urn:any}ResourceContent'),
           back(Action, C.ActionElementTree, plain(Action)),
           back(Environment, C.EnvironmentElementTree, plain(Environment)),
           back(Request, C.RequestElementTree, request),
           back(Decision, C.DecisionElementTree, decision),
           back(Result, C.ResultElementTree, result),
           back(Response, C.ResponseElementTree, response)]
    if hasattr(C, 'StatusElementTree'):
        out += [back(Status, C.StatusElementTree, status),
                back(StatusCode, C.StatusCodeElementTree, status_code)]
    return out
