"""P23: requests and responses written to XML, serialised, parsed and read
back, with both element tree libraries."""
import json
import os
import subprocess
import sys

ET = os.environ.get('P23_LIB') == 'etree'
if ET:
    import base             # puts the code under test on the path
    from ndg import xacml as _x
    _x.Config.use_lxml = False
from ndg.xacml.core.attribute import Attribute
from ndg.xacml.core.attributevalue import AttributeValueClassFactory
from ndg.xacml.core.context.action import Action
from ndg.xacml.core.context.environment import Environment
from ndg.xacml.core.context.request import Request
from ndg.xacml.core.context.resource import Resource
from ndg.xacml.core.context.response import Response
from ndg.xacml.core.context.result import (Decision, Result, Status,
                                           StatusCode)
from ndg.xacml.core.context.subject import Subject
from ndg.xacml.parsers.etree import context as C
from stubs import *         # noqa
from values import URI, native

ElementTree = C.ElementTree
FILES = ['ndg/xacml/parsers/etree/context.py',
         'ndg/xacml/parsers/etree/__init__.py', 'ndg/xacml/core/context/*.py']
RULE = ('requests of 0..3 subjects and resources, an action and an '
        'environment, with 0..3 attributes of 1..3 values each, issuers, '
        'categories and resource contents or none; responses of 0..3 results '
        'of every decision, with resource ids and statuses of every code, '
        'nested codes, messages and details or none; written, serialised, '
        'parsed and read with lxml and with ElementTree, three times over; the '
        'written object, what was written before and the documents read '
        'must not change')
TEXTS = ['a', 'b', 'ab', ' a ', '', ' ', '\n a\n b ', 'caf\u00e9', '<&>"\'',
         ']]>', 'true', '0', 'a,b', '<!-- a -->', '\t', '\u4e2d', 'A']
TEXT = ['string', 'anyURI', 'x500Name', 'rfc822Name', 'dnsName', 'ipAddress']
DECISIONS = ['Permit', 'Deny', 'Indeterminate', 'NotApplicable']
CODES = ['ok', 'missing-attribute', 'processing-error', 'syntax-error']
PREFIX = 'urn:oasis:names:tc:xacml:1.0:status:'
ACCESS = 'urn:oasis:names:tc:xacml:1.0:subject-category:access-subject'
F = AttributeValueClassFactory()


def text(rng, hints):
    if rng.random() < .1:
        s = pick_str(rng, hints)
        if s.isprintable():
            return s
    return rng.choice(TEXTS)


def g_attr(rng, hints):
    ty = rng.choice(TEXT)
    if rng.random() < .04:
        ty = rng.choice(['integer', 'boolean', 'double', 'dateTime'])
        vals = [rng.randint(0, 9) for _ in range(rng.choice([1, 2]))]
    else:
        vals = [text(rng, hints) for _ in range(rng.choice([1, 1, 2, 3]))]
    return [text(rng, hints), ty,
            text(rng, hints) if rng.random() < .5 else None, vals]


def g_attrs(rng, hints):
    l = [g_attr(rng, hints) for _ in range(rng.choice([0, 1, 1, 2, 3]))]
    if l and rng.random() < .15:
        l.append(rng.choice(l))
    return l


def g_content(rng, hints, depth=2):
    return [rng.choice(['a', 'b', 'Attribute', 'Resource']),
            {rng.choice(['x', 'DataType']): text(rng, hints)}
            if rng.random() < .5 else {}, text(rng, hints),
            [g_content(rng, hints, depth - 1) for _ in range(
                rng.choice([0, 1, 2]) if depth else 0)]]


def g_code(rng, depth=2):
    return [rng.choice(CODES), g_code(rng, depth - 1)
            if depth and rng.random() < .4 else None]


def g_status(rng, hints):
    def t():
        return text(rng, hints) if rng.random() < .6 else None
    return [g_code(rng) if rng.random() < .9 else None, t(), t()]


def gen(rng, hints, tier):
    yield dict(c='req', lib='lxml', subjects=[['x', [[
        'a', 'integer', None, [1]]]]], resources=[], action=[], env=[])
    for _ in range(2500 if tier == 'quick' else 50000):
        lib = rng.choice(['lxml', 'lxml', 'etree'])
        if rng.random() < .6:
            yield dict(
                c='req', lib=lib,
                subjects=[[text(rng, hints) if rng.random() < .6 else None,
                           g_attrs(rng, hints)]
                          for _ in range(rng.choice([0, 1, 1, 2, 3]))],
                resources=[[g_content(rng, hints) if rng.random() < .3 else
                            None, g_attrs(rng, hints)]
                           for _ in range(rng.choice([0, 1, 1, 2, 3]))],
                action=g_attrs(rng, hints), env=g_attrs(rng, hints))
        else:
            yield dict(c='res', lib=lib, results=[[
                text(rng, hints) if rng.random() < .5 else None,
                rng.choice(DECISIONS), rng.random() < .5,
                g_status(rng, hints) if rng.random() < .7 else None]
                for _ in range(rng.choice([0, 1, 1, 2, 3]))])


def add(o, attrs):
    for i, ty, issuer, vals in attrs:
        a = Attribute()
        a.attributeId = i
        a.dataType = URI[ty]
        if issuer is not None:
            a.issuer = issuer
        for v in vals:
            a.attributeValues.append(F(URI[ty])(
                native(ty, v) if ty not in TEXT else v))
        o.attributes.append(a)
    return o


def element(e, name=None):
    x = ElementTree.Element('{urn:oasis:names:tc:xacml:2.0:context:schema:os}'
                            + (name or e[0]))
    for k, v in e[1].items():
        x.set(k, v)
    x.text = e[2]
    for c in e[3]:
        x.append(element(c))
    return x


def make(case):
    if case['c'] == 'req':
        r = Request()
        for cat, l in case['subjects']:
            s = Subject()
            if cat is not None:
                s.subjectCategory = cat
            r.subjects.append(add(s, l))
        for content, l in case['resources']:
            s = Resource()
            if content is not None:
                s.resourceContent = element(content, 'ResourceContent')
            r.resources.append(add(s, l))
        r.action = add(Action(), case['action'])
        r.environment = add(Environment(), case['env'])
        return r
    r = Response()
    for rid, d, const, st in case['results']:
        x = Result()
        if rid is not None:
            x.resourceId = rid
        x.decision = Decision(d)
        if const:
            x.decision = [c for c in (
                Decision.PERMIT, Decision.DENY, Decision.INDETERMINATE,
                Decision.NOT_APPLICABLE) if c.value == d][0]
        if st is not None:
            x.status = Status()
            if st[0] is not None:
                x.status.statusCode = code(st[0])
            if st[1] is not None:
                x.status.statusMessage = st[1]
            if st[2] is not None:
                x.status.statusDetail = st[2]
        r.results.append(x)
    return r


def code(c):
    s = StatusCode()
    s.value = PREFIX + c[0]
    if c[1] is not None:
        s.statusCode = code(c[1])
    return s


def tree(e):
    return [e.tag, sorted((k, v) for k, v in e.attrib.items()
                          if k != 'xacml-context'), e.text or '',
            [tree(c) for c in e]]


def attrs(o):
    return [[a.attributeId, a.dataType, a.issuer,
             [[type(v).__name__, v.dataType, v.value]
              for v in a.attributeValues]] for a in o.attributes]


def dump(r):
    if isinstance(r, Request):
        return [[[s.subjectCategory or '', attrs(s)] for s in r.subjects],
                [[None if s.resourceContent is None else
                  tree(s.resourceContent), attrs(s)] for s in r.resources],
                r.action and attrs(r.action),
                r.environment and attrs(r.environment)]
    return [[x.resourceId, x.decision and x.decision.value,
             x.status and [d_code(x.status.statusCode),
                           x.status.statusMessage, x.status.statusDetail]]
            for x in r.results]


def d_code(c):
    return c and [c.value, d_code(c.statusCode)]


def meant(d, case):
    """a subject without a category has the standard's default one"""
    if case['c'] == 'req':
        for s, (cat, _) in zip(d[0], case['subjects']):
            s[0] = ACCESS if cat is None else cat
    return d


CHILD = []


def key(case, msg):
    """without its values that are no text, is the rest what it should be?"""
    if case['c'] == 'req' and 'cannot be' in msg:
        def t(l):
            return [a for a in l if a[1] in TEXT]
        rest = dict(case, subjects=[[c, t(l)] for c, l in case['subjects']],
                    resources=[[c, t(l)] for c, l in case['resources']],
                    action=t(case['action']), env=t(case['env']))
        if rest != case and check(rest) is None:
            return 'value-not-text'
    return msg


def check(case):
    if case['lib'] == 'etree' and not ET:
        return elsewhere(case)
    r = make(case)
    before = dump(r)
    want = json.loads(json.dumps(meant(dump(r), case), default=str))
    c = C.RequestElementTree if case['c'] == 'req' else C.ResponseElementTree
    q, held = r, []
    for n in (1, 2, 3):
        if n == 2:
            q, q2 = r, q
        elif n == 3:
            q = q2
        try:
            e = c.toXML(q)
            doc = ElementTree.tostring(e, encoding='utf-8')
        except Exception as x:
            return 'cannot be written (%d): %r' % (n, x)
        if dump(r) != before:
            return 'writing changed it from %r to %r' % (before, dump(r))
        for what, o, d in held:
            if ElementTree.tostring(o, encoding='utf-8') != d:
                return 'writing changed %s from %s to %s' % (
                    what, d, ElementTree.tostring(o, encoding='utf-8'))
        read = ElementTree.fromstring(doc)
        held += [('what was written before', e, doc), (
            'the document it was read from', read,
            ElementTree.tostring(read, encoding='utf-8'))]
        try:
            q = c.fromXML(read)
        except Exception as x:
            return 'what is written cannot be read (%d): %r: %s' % (n, x, doc)
        got = json.loads(json.dumps(dump(q), default=str))
        if got != want:
            return 'read back (%d) as %r, is %r: %s' % (n, got, want, doc)


def elsewhere(case):
    if not CHILD:
        env = dict(os.environ, P23_LIB='etree')
        CHILD.append(subprocess.Popen(
            [sys.executable, os.path.abspath(__file__)], env=env,
            stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True))
    p = CHILD[0]
    p.stdin.write(json.dumps(case) + '\n')
    p.stdin.flush()
    l = p.stdout.readline()
    if not l:
        CHILD.pop()
        return 'ended with %s' % p.wait()
    return json.loads(l)


if __name__ == '__main__':
    for l in sys.stdin:
        try:
            r = check(json.loads(l))
        except Exception as e:
            r = 'harness: %r' % e
        sys.stdout.write(json.dumps(r) + '\n')
        sys.stdout.flush()
