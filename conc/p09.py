"""P09: designators against an independent retrieval over generated requests."""
from ndg.xacml.core.attribute import Attribute
from ndg.xacml.core.attributevalue import AttributeValueClassFactory
from ndg.xacml.core.context.request import Request
from ndg.xacml.core.context.subject import Subject
from ndg.xacml.core.context.resource import Resource
from ndg.xacml.core.context.action import Action
from ndg.xacml.core.context.environment import Environment
from ndg.xacml.core.context.handler import CtxHandlerBase
from ndg.xacml.utils import TypedList
from stubs import *         # noqa

FILES = ['ndg/xacml/core/attributedesignator.py']
RULE = ('requests with up to three subjects and resources, attributes with '
        'ids, data types and issuers from small pools (plus literals in the '
        'code), values of the stated or of another type; any subject '
        'categories and resource contents; designators of all '
        'four kinds; information points that answer None, lists or fail; all '
        'one-attribute requests, then random ones')
STRING = 'http://www.w3.org/2001/XMLSchema#string'
URI = 'http://www.w3.org/2001/XMLSchema#anyURI'
INT = 'http://www.w3.org/2001/XMLSchema#integer'
AS = 'urn:oasis:names:tc:xacml:1.0:subject-category:access-subject'
F = AttributeValueClassFactory()
DES = {'s': SubjectAttributeDesignator, 'r': ResourceAttributeDesignator,
       'a': ActionAttributeDesignator, 'e': EnvironmentAttributeDesignator}


class Handler(CtxHandlerBase):
    def handlePEPRequest(self, request):
        raise NotImplementedError()

    def pipQuery(self, request, designator):
        self.asked.append((request, designator))
        return outcome(self.out)


def value(v):
    dt, x = v
    return F(dt)(value=int(x) if dt == INT else x)


def gen(rng, hints, tier):
    import itertools
    dts = [STRING, URI]
    for k in 'srae':
        for aid, dt, iss, dissuer, vals, must in itertools.product(
                ['i1', 'i2'], dts, [None, 'A', 'B', ''], [None, 'A', ''],
                [[], [[STRING, 'x']], [[URI, 'x']],
                 [[STRING, 'x'], [URI, 'y'], [STRING, 'x'],
                  [STRING, 'z']]], [False, True]):
            at = [dict(id=aid, dt=dt, iss=iss, vals=vals)]
            yield dict(k=k, d=['i1', STRING, dissuer, must],
                       req={k: [at] if k in 'sr' else at}, pip=None)
    ids = ['i1', 'i1', 'i2', 'I1', 'i1 '] + hints.strs[:20]
    isss = [None, None, 'A', 'B', 'a', '']
    types = [STRING, STRING, STRING, URI, INT]

    def val(dt):
        if rng.random() < .25:
            dt = rng.choice(types)
        return [dt, rng.choice('012') if dt == INT else
                rng.choice(['0', '1', 'x', 'X', '', 'y', 'z'])]

    def attr():
        dt = rng.choice(types)
        n = rng.choice([0, 1, 1, 2, 3, 5])
        if rng.random() < .03:
            n = rng.choice(hints.sizes)
        return dict(id=rng.choice(ids) if rng.random() < .5 else 'i1', dt=dt,
                    iss=rng.choice(isss), vals=[val(dt) for _ in range(n)])

    def attrs():
        n = rng.choice([0, 1, 2, 3, 4])
        if rng.random() < .02:
            n = rng.choice(hints.sizes)
        return [attr() for _ in range(n)]
    for _ in range(4000 if tier == 'quick' else 80000):
        dt = rng.choice(types)
        pip = None
        if rng.random() < .4:
            r = rng.random()
            pip = 'none' if r < .1 else '!' + rng.choice(EXCNAMES) if \
                r < .15 else [
                    [dt, rng.choice('0123456') if dt == INT else
                     rng.choice(['0', '1', 'x', 'X', 'p', 'q', 'y'])]
                    for _ in range(rng.choice([0, 1, 2, 3, 4]))]
        yield dict(k=rng.choice('ssrae'),
                   d=[rng.choice(ids) if rng.random() < .4 else 'i1', dt,
                      rng.choice([None, None, 'A', 'B', '']),
                      rng.random() < .4],
                   req=dict(s=[attrs() for _ in range(
                       rng.choice([0, 1, 1, 1, 2, 3]))],
                       r=[attrs() for _ in range(rng.choice([0, 1, 1, 2]))],
                       a=attrs(), e=attrs()), pip=pip,
                   # what does not count: categories, the content
                   cats=[rng.choice([None, None, 'c', 'b', 'a', '',
                                     AS, AS + '2', pick_str(rng, hints)])
                         for _ in range(3)])


def mkattrs(owner, specs):
    l = TypedList(Attribute)
    for s in specs:
        a = Attribute()
        a.attributeId, a.dataType = s['id'], s['dt']
        if s['iss'] is not None:
            a.issuer = s['iss']
        for v in s['vals']:
            a.attributeValues.append(value(v))
        owner.attributes.append(a)


def check(case):
    req = Request()
    rq = case['req']
    for key, cls, lst in (('s', Subject, req.subjects),
                          ('r', Resource, req.resources)):
        for specs in rq.get(key, []):
            o = cls()
            cat = case.get('cats', [None] * 3)[len(lst) % 3]
            if cat is not None:
                if key == 's':
                    o.subjectCategory = cat
                else:
                    o.resourceContent = cat
            mkattrs(o, specs)
            lst.append(o)
    req.action, req.environment = Action(), Environment()
    mkattrs(req.action, rq.get('a', []))
    mkattrs(req.environment, rq.get('e', []))
    d = DES[case['k']]()
    aid, dt, iss, must = case['d']
    d.attributeId, d.dataType, d.mustBePresent = aid, dt, must
    if iss is not None:
        d.issuer = iss
    members = {'s': list(req.subjects), 'r': list(req.resources),
               'a': [req.action], 'e': [req.environment]}[case['k']]
    want = [v for m in members for a in m.attributes
            if a.attributeId == aid and a.dataType == dt and
            (iss is None or a.issuer == iss)
            for v in a.attributeValues if v.dataType == dt]
    pip, pipvals, fails, pipmay = case['pip'], [], False, False
    if pip is not None:
        h = Handler()
        h.asked = []
        h.out = None if pip == 'none' else pip if isinstance(pip, str) else \
            [value(v) for v in pip]
        req.ctxHandler = h
        if case['k'] == 's':
            if isinstance(h.out, str):
                fails = bool(members)
                pipmay = not members
            elif h.out:
                pipvals = list(h.out)
    snap = [[id(v) for v in a.attributeValues] for m in members
            for a in m.attributes]
    # an answer is a fresh query each time: same question, same answer
    for again in (0, 1):
        try:
            got = d.evaluate(req)
        except Exception as e:
            if fails or pipmay:
                continue
            if must and not want and (not pipvals or not members):
                continue
            return 'raised %r' % (e,)
        if fails:
            return 'returned %r although the information point failed' % (
                list(got),)
        if must and len(got) == 0:
            return 'empty bag although the attribute must be present'
        if must and not want and not (pipvals and members):
            if not pipvals:
                return 'returned %r, nothing matches' % ([
                    v.value for v in got],)
        ids = [id(v) for v in got]
        wids = [id(v) for v in want]
        if not pipvals:
            if ids != wids:
                return 'bag %r, expected %r' % ([v.value for v in got],
                                                [v.value for v in want])
        else:
            pids = [id(v) for v in pipvals]
            if [i for i in ids if i in wids] != wids:
                return 'values of the request missing from %r' % (
                    [v.value for v in got],)
            rest = [i for i in ids if i not in wids]
            if any(i not in pids for i in rest):
                return 'foreign values in %r' % ([v.value for v in got],)
            if len(set(rest)) != len(rest):
                return 'information point value added twice: %r' % (
                    [v.value for v in got],)
            if members:
                for v in pipvals:
                    if not any(v.value == g.value for g in got):
                        return 'information point value %r lost' % v.value
            # never added when one equal was there before
            for n, v in enumerate(got):
                if id(v) in rest and any(
                        w.value == v.value and id(w) in wids
                        for w in got[:n]):
                    return 'value %r already present added' % v.value
        for v in got:
            if v.dataType != dt:
                return 'value of type %r' % v.dataType
    if snap != [[id(v) for v in a.attributeValues] for m in members
                for a in m.attributes]:
        return 'evaluation changed the request'
