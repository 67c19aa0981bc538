"""P22: policy documents of every shape, against a plain reading of them, with
both element tree libraries and every way in."""
import copy
import itertools
import json
import os
import subprocess
import sys
from io import BytesIO
from xml.sax.saxutils import escape, quoteattr

HERE = os.path.dirname(os.path.abspath(__file__))
ET = os.environ.get('P22_LIB') == 'etree'
if ET:
    import base             # puts the code under test on the path
    from ndg import xacml as _x
    _x.Config.use_lxml = False
from ndg.xacml.core.policy import Policy
from ndg.xacml.core.policybase import PolicyBase
from ndg.xacml.core.policyset import PolicySet
from ndg.xacml.core.context.pdp import PDP
from ndg.xacml.core.attributevalue import AttributeValueClassFactory
from ndg.xacml.finder.defaultfinder import getDefaultPolicyFinder
from ndg.xacml.parsers.etree.factory import ReaderFactory
from stubs import *         # noqa
from values import URI, V1, V2

FILES = ['ndg/xacml/parsers/etree/*.py']
RULE = ('documents of nested policies, rules, targets, conditions and '
        'applications in every order and multiplicity of their children, '
        'with attributes missing, empty or unknown, unknown and misplaced '
        'elements, comments and processing instructions anywhere, texts '
        'split by them; read with lxml and with ElementTree, through Policy, '
        'PolicySet, PolicyBase and PDP; compared with what the document '
        'states, references to members among them')
NS = 'urn:oasis:names:tc:xacml:2.0:policy:schema:os'
RCA = 'urn:oasis:names:tc:xacml:1.0:rule-combining-algorithm:'
PCA = 'urn:oasis:names:tc:xacml:1.0:policy-combining-algorithm:'
ALGS = ['deny-overrides', 'permit-overrides', 'first-applicable']
FNS = [V1 + n for n in ('string-equal', 'and', 'not', 'integer-equal',
                        'anyURI-equal', 'string-bag',
                        'string-one-and-only', 'anyURI-bag',
                        'boolean-equal')] + [V2 + 'string-concatenate',
                                     V2 + 'anyURI-regexp-match']
UNMADE = 'urn:oasis:names:tc:xacml:2.0:function:xpath-node-equal'
KIND = ('Subject', 'Resource', 'Action', 'Environment')
PARTS = ([k + s for k in KIND for s in ('', 's', 'Match',
                                         'AttributeDesignator')] +
         ['AttributeSelector', 'AttributeValue', 'Apply', 'Condition', 'Rule',
          'Policy', 'PolicySet', 'Target', 'Description', 'PolicyDefaults',
          'PolicySetDefaults', 'XPathVersion', 'PolicyIdReference',
          'PolicySetIdReference', 'Obligations', 'VariableDefinition',
          'VariableReference', 'Function', 'Other', 'rule', 'Appl'])


# ------------------------------------------------------------------ documents
# an element is [name, {attribute: value}, [content]], content a text, an
# element, or ['!', comment] / ['?', instruction]
def text(s):
    return escape(s).replace('\r', '&#13;')


def xml(e):
    if e[0] == '!':
        return '<!--%s-->' % e[1]
    if e[0] == '?':
        return '<?%s?>' % e[1]
    return '<%s%s>%s</%s>' % (e[0], ''.join(
        ' %s=%s' % (k, quoteattr(v)) for k, v in e[1].items()), ''.join(
        text(c) if isinstance(c, str) else xml(c) for c in e[2]), e[0])


class Refused(Exception):
    pass


def local(n):
    return n.split(':')[-1]


def kids(e):
    return [c for c in e[2] if not isinstance(c, str) and c[0] not in '!?']


def words(e):
    if kids(e):
        raise Refused('element within a text')
    t = ''.join(c for c in e[2] if isinstance(c, str))
    return t or None


def need(e, name):
    if name not in e[1]:
        raise Refused('no %s' % name)
    return e[1][name]


def once(cur, new):
    if cur is not None:
        raise Refused('repeated')
    return new


def fn(ident):
    if ident not in FNS:
        raise Refused('function')
    return ident


def the(e, *names):
    if local(e[0]) not in names:
        raise Refused('not a %s' % names[0])


def r_rule(e, reg):
    the(e, 'Rule')
    i, f = need(e, 'RuleId'), need(e, 'Effect')
    if f not in ('Permit', 'Deny'):
        raise Refused('effect')
    d = t = c = None
    for k in kids(e):
        n = local(k[0])
        if n == 'Description':
            once(d, 1)
            d = words(k)
            d = None if d is None else d.strip()
        elif n == 'Target':
            t = once(t, r_target(k))
        elif n == 'Condition':
            c = once(c, r_condition(k))
        else:
            raise Refused(n)
    return ['Rule', i, f, d, t, c]


def r_target(e):
    the(e, 'Target')
    out = {k: [] for k in KIND}
    for s in kids(e):
        for k in KIND:
            if local(s[0]) == k + 's':
                out[k] += [r_child(k, c) for c in kids(s)]
                break
        else:
            raise Refused(s[0])
    return ['Target'] + [out[k] for k in KIND]


def r_child(k, e):
    the(e, k)
    for c in kids(e):
        the(c, k + 'Match')
    return [k] + [r_match(k, c) for c in kids(e)]


# the recorded defects, which make no other difference to what is read
DEFECTS = {'match-with-several-values': 'a match element with several '
           'AttributeValue children is read as having the last one',
           'subject-category': 'the SubjectCategory of a '
           'SubjectAttributeDesignator is dropped'}
lenient = False


def r_match(k, e):
    m = need(e, 'MatchId')
    v = s = None
    for c in kids(e):
        n = local(c[0])
        if n == 'AttributeValue':
            v = (r_value(c) if lenient else once(v, r_value(c)))
        elif n == k + 'AttributeDesignator':
            s = once(s, r_designator(c))
        elif n == 'AttributeSelector':
            s = once(s, r_selector(c))
        else:
            raise Refused(n)
    return ['Match', fn(m), v, s]


def r_value(e):
    the(e, 'AttributeValue')
    d = need(e, 'DataType')
    c = AttributeValueClassFactory()(d)
    w = words(e)
    if c is None or w is None or c.TYPE is not str:
        raise Refused('data type %s' % d)
    return ['Value', d, w]


def flag(e):
    p = e[1].get('MustBePresent')
    return p is not None and p.lower() in ('yes', 'true', 't', '1')


def r_designator(e):
    d, a = need(e, 'DataType'), need(e, 'AttributeId')
    if kids(e):
        raise Refused('children')
    return [local(e[0]), d, a, e[1].get('Issuer'), flag(e),
            e[1].get('SubjectCategory') if e[0].split(':')[-1][:2] == 'Su'
            and not lenient else None]


def r_selector(e):
    d, a = need(e, 'DataType'), need(e, 'RequestContextPath')
    if kids(e):
        raise Refused('children')
    return ['Selector', d, a, flag(e)]


def r_apply(e):
    the(e, 'Apply')
    out = []
    f = fn(need(e, 'FunctionId'))
    for c in kids(e):
        n = local(c[0])
        if n == 'Apply':
            out.append(r_apply(c))
        elif n == 'AttributeValue':
            out.append(r_value(c))
        elif n == 'AttributeSelector':
            out.append(r_selector(c))
        elif n in [k + 'AttributeDesignator' for k in KIND]:
            out.append(r_designator(c))
        else:
            raise Refused(n)
    return ['Apply', f, out]


def r_condition(e):
    k = kids(e)
    if len(k) != 1:
        raise Refused('%d expressions' % len(k))
    return ['Condition', r_apply(k[0])]


def r_defaults(e):
    k = kids(e)
    if len(k) != 1:
        raise Refused('defaults')
    the(k[0], 'XPathVersion')
    w = words(k[0])
    if w is None:
        raise Refused('no version')
    return w


def r_policy(e, reg):
    the(e, 'Policy', 'PolicySet')
    st = local(e[0]) == 'PolicySet'
    kind = 'PolicySet' if st else 'Policy'
    i = need(e, kind + 'Id')
    alg = need(e, ('Policy' if st else 'Rule') + 'CombiningAlgId')
    if alg not in [(PCA if st else RCA) + a for a in ALGS]:
        raise Refused(alg)
    d = df = t = None
    out = []
    for c in kids(e):
        n = local(c[0])
        if n == 'Description':
            once(d, 1)
            d = words(c)
            d = None if d is None else d.strip()
        elif n == kind + 'Defaults':
            df = once(df, r_defaults(c))
        elif n == 'Target':
            t = once(t, r_target(c))
        elif n == 'Rule' and not st:
            r = r_rule(c, reg)
            if r[1] in [x[1] for x in out]:
                raise Refused('rule id')
            out.append(r)
        elif n in ('Policy', 'PolicySet') and st:
            out.append(r_policy(c, reg))
        elif n in ('PolicyIdReference', 'PolicySetIdReference') and st:
            w = words(c)
            if (n[:-11], w) not in reg:
                raise Refused('reference')
            out.append(reg[n[:-11], w])
        else:
            raise Refused(n)
    if (kind, i) in reg:
        raise Refused('policy id')
    reg[kind, i] = p = [kind, i, e[1].get('Version') or '2.0', alg, d, df, t,
                        out]
    return p


# -------------------------------------------------------------- what was read
def dump(o):
    if o is None:
        return None
    n = type(o).__name__
    if n == 'PolicySet':
        return [n, o.policySetId, o.version, o.policyCombiningAlgId,
                o.description, dump(o.policySetDefaults), dump(o.target),
                [dump(p) for p in o.policies]]
    if n == 'Policy':
        return [n, o.policyId, o.version, o.ruleCombiningAlgId, o.description,
                dump(o.policyDefaults), dump(o.target),
                [dump(p) for p in o.rules]]
    if n == 'PolicyDefaults':
        return o.xpathVersion
    if n == 'Rule':
        return [n, o.id, o.effect.value, o.description, dump(o.target),
                dump(o.condition)]
    if n == 'Target':
        return [n] + [[dump(c) for c in x] for x in (
            o.subjects, o.resources, o.actions, o.environments)]
    if n in KIND:
        return [n] + [dump(m) for m in o.matches]
    if n.endswith('Match'):
        if o.attributeDesignator is not None and \
                o.attributeSelector is not None:
            return 'both'
        return ['Match', o.matchId, dump(o.attributeValue),
                dump(o.attributeDesignator or o.attributeSelector)]
    if n.endswith('AttributeValue'):
        return ['Value', o.dataType, o.value]
    if n.endswith('AttributeDesignator'):
        return [n, o.dataType, o.attributeId, o.issuer, o.mustBePresent,
                getattr(o, 'subjectCategory', None)]
    if n == 'AttributeSelector':
        return ['Selector', o.dataType, o.requestContextPath,
                bool(o.mustBePresent)]
    if n == 'Apply':
        return [n, o.functionId, [dump(x) for x in o.expressions]]
    if n == 'Condition':
        return [n, dump(o.expression)]
    return repr(o)


def read(doc, way):
    src = BytesIO(doc.encode('utf-8'))
    if way == 'pdp':
        return PDP.fromPolicySource(src, ReaderFactory).policy
    if way == 'base':
        return PolicyBase.fromSource(src, ReaderFactory,
                                     getDefaultPolicyFinder(src))
    return {'Policy': Policy, 'PolicySet': PolicySet}[way].fromSource(
        src, ReaderFactory)


CHILD = []


def key(case, msg):
    global lenient
    lenient = True
    try:
        if check(case) is None:
            return 'subject-category' if 'SubjectCategory' in msg else \
                'match-with-several-values'
        return msg
    finally:
        lenient = False


def check(case):
    global lenient
    if case['lib'] == 'etree' and not ET:
        return elsewhere(dict(case, lenient=lenient))
    root = case['root']
    try:
        lenient = case.get('lenient', lenient)
        want = r_policy(root, {})
        if case['way'] in ('Policy', 'PolicySet') and \
                want[0] != case['way']:
            raise Refused('root')
    except Refused as e:
        want, why = None, str(e)
    top = copy.deepcopy(root)
    top[1] = dict(top[1])
    p = top[0].split(':')[0] if ':' in top[0] else None
    top[1]['xmlns:x' if p else 'xmlns'] = NS
    doc = '<?xml version="1.0" encoding="UTF-8"?>\n<!-- p -->' + xml(
        top if not p else prefixed(top))
    try:
        got = dump(read(doc, case['way']))
    except Exception as e:
        if want is not None:
            return 'refused: %r; it states %r: %s' % (e, want, doc)
        return None
    if want is None:
        return 'read as %r, though to be refused (%s): %s' % (got, why, doc)
    if got != want:
        return 'read as %r; it states %r: %s' % (got, want, doc)


def prefixed(e):
    if e[0] in '!?':
        return e
    return ['x:' + local(e[0]), e[1], [c if isinstance(c, str) else
                                       prefixed(c) for c in e[2]]]


def elsewhere(case):
    if not CHILD:
        env = dict(os.environ, P22_LIB='etree')
        CHILD.append(subprocess.Popen(
            [sys.executable, os.path.abspath(__file__)], env=env,
            stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True))
    p = CHILD[0]
    p.stdin.write(json.dumps(case) + '\n')
    p.stdin.flush()
    l = p.stdout.readline()
    if not l:
        CHILD.pop()
        return 'ended with %s' % p.wait()
    return json.loads(l)


# ----------------------------------------------------------------- generation
def noise(rng, items, w=.12):
    out = []
    for i in items:
        if rng.random() < w:
            out.append(rng.choice([['!', ' c '], ['?', 'go on'], '\n  ',
                                   ['!', 'x']]))
        out.append(i)
    if rng.random() < w:
        out.append(rng.choice([['!', ' c '], '\n  ', ['?', 'go on']]))
    return out


def g_text(rng, hints, l):
    s = rng.choice(l)
    if rng.random() < .05:
        s = pick_str(rng, hints)
        s = s if s.isprintable() else 'a'
    if rng.random() < .2 and s:
        i = rng.randrange(len(s) + 1)
        return [s[:i], rng.choice([['!', 'c'], ['?', 'go']]), s[i:]]
    return [s]


TEXTS = ['a', 'ab', ' a ', '\n a b\n', '', ' ', 'caf\u00e9', '<&>"', 'true',
         '1', 'urn:x:y', '0']


class G(object):
    def __init__(self, rng, hints, wild):
        self.rng, self.hints, self.wild = rng, hints, wild
        self.n = 0
        self.known = []

    def ident(self):
        self.n += 1
        r = self.rng.random()
        if r > .97:
            s = pick_str(self.rng, self.hints)
            if s.isprintable():
                return s
        if r < self.wild:
            return self.rng.choice(['i1', 'i2', '', 'I1', ' i1', 'i1 '])
        if r > .93:
            return self.rng.choice([' i%d', 'i%d ', '  i%d ', 'i %d']) % self.n
        return 'i%d' % self.n

    def attrs(self, d):
        rng = self.rng
        out = {}
        items = list(d.items())
        if rng.random() < .2:
            rng.shuffle(items)
        for k, v in items:
            if rng.random() < self.wild / 3:
                r = rng.random()
                if r < .6:
                    continue
                if r < .8:
                    k = rng.choice([k.lower(), k + 'x', 'x' + k])
                else:
                    v = rng.choice(['', ' ' + v, v + ' ', v.upper(), 'x'])
            out[k] = v
        if rng.random() < .1:
            out[rng.choice(['Other', 'Id', 'id', 'SubjectCategory',
                            'Version', 'Issuer'])] = rng.choice(TEXTS)
        return out

    def el(self, name, attrs, items):
        rng = self.rng
        items = list(items)
        if rng.random() < self.wild / 4:
            name = rng.choice(PARTS)
        if rng.random() < self.wild / 4:
            items.insert(rng.randrange(len(items) + 1), self.any())
        if items and rng.random() < self.wild / 5:
            items.append(copy.deepcopy(rng.choice(items)))
        if rng.random() < .15:
            rng.shuffle(items)
        return [name, self.attrs(attrs), noise(rng, items)]

    def any(self):
        rng = self.rng
        n = rng.choice(PARTS)
        r = rng.random()
        if r < .3:
            return [n, {}, []]
        w, self.wild = self.wild, 0
        try:
            return rng.choice([
                lambda: self.value(), lambda: self.apply(1),
                lambda: self.condition(1), lambda: self.target(),
                lambda: self.rule(), lambda: self.designator(),
                lambda: self.selector(), lambda: self.policy(),
                lambda: self.match('Subject'),
                lambda: self.description(), lambda: self.defaults('Policy'),
                lambda: [n, {}, [self.value()]]])()
        finally:
            self.wild = w

    def some(self, l):
        return self.rng.choice(l)

    def count(self, most=3):
        rng = self.rng
        r = rng.random()
        if r < .02:
            return rng.choice([5, 8, 12])
        return rng.choice([0, 1, 1, 2, most])

    def description(self):
        return ['Description', {}, g_text(self.rng, self.hints, TEXTS)]

    def value(self):
        ty = self.some(['string', 'anyURI', 'x500Name', 'rfc822Name',
                        'dnsName', 'ipAddress', 'string', 'string', 'integer',
                        'boolean', 'double']) \
            if self.rng.random() < self.wild else self.some(
                ['string', 'anyURI', 'rfc822Name'])
        l = TEXTS if self.rng.random() < self.wild else [
            t for t in TEXTS if t]
        return self.el('AttributeValue', {'DataType': URI[ty]}, g_text(
            self.rng, self.hints, l)) if self.rng.random() < .9 else [
                'AttributeValue', {'DataType': URI[ty]}, ['v%d' % self.n]]

    def present(self, d):
        if self.rng.random() < .4:
            d['MustBePresent'] = self.some(
                ['true', 'false', 'True', 'FALSE', '1', '0', 'yes', 'no', 't',
                 'f', '', 'tru', 'maybe', ' true'])
        return d

    def designator(self, k=None):
        d = {'AttributeId': self.some(['a', 'urn:b', 'c']),
             'DataType': URI[self.some(['string', 'integer', 'anyURI'])]}
        if self.rng.random() < .3:
            d['Issuer'] = self.some(['i', 'j', '', ' i'])
        return self.el((k or self.some(KIND)) + 'AttributeDesignator',
                       self.present(d), [])

    def selector(self):
        return self.el('AttributeSelector', self.present(
            {'RequestContextPath': self.some(['//a', '/b/c', '', '//x:a']),
             'DataType': URI[self.some(['string', 'integer'])]}), [])

    def function(self):
        if self.rng.random() < self.wild / 5:
            return self.some(['', UNMADE, 'x', V1 + 'string-Equal', V1,
                              FNS[0] + ' ', V1 + 'nothing'])
        return self.some(FNS)

    def source(self, k):
        return self.designator(k) if self.rng.random() < .7 else \
            self.selector()

    def match(self, k):
        items = [self.value(), self.source(k)]
        r = self.rng.random()
        if r < self.wild / 3:
            items = [self.some([self.value(), self.source(k),
                                self.source(self.some(KIND))])
                     for _ in range(self.rng.randint(0, 3))]
        return self.el(k + 'Match', {'MatchId': self.function()}, items)

    def target(self):
        secs = []
        for k in KIND:
            if self.rng.random() < .55:
                secs.append(self.el(k + 's', {}, [
                    self.el(k, {}, [self.match(k) for _ in range(
                        self.count(2))]) for _ in range(self.count(2))]))
        return self.el('Target', {}, secs)

    def expression(self, depth):
        r = self.rng.random()
        if r < .3 and depth:
            return self.apply(depth - 1)
        if r < .3 + self.wild / 20 and depth:
            return self.condition(depth - 1)
        if r < .65:
            return self.value()
        return self.designator() if r < .9 else self.selector()

    def apply(self, depth):
        return self.el('Apply', {'FunctionId': self.function()}, [
            self.expression(depth) for _ in range(self.count())])

    def condition(self, depth):
        return self.el('Condition', {}, [self.apply(depth)])

    def rule(self):
        items = []
        for p, f in ((.3, self.description), (.4, self.target),
                     (.4, lambda: self.condition(2))):
            if self.rng.random() < p:
                items.append(f())
        return self.el('Rule', {'RuleId': self.ident(), 'Effect': self.some(
            ['Permit', 'Deny'])}, items)

    def defaults(self, k):
        return self.el(k + 'Defaults', {}, [
            ['XPathVersion', {}, g_text(self.rng, self.hints, [
                'http://www.w3.org/TR/1999/Rec-xpath-19991116'] * 3 +
                TEXTS)]])

    def policy(self, depth=0, st=False):
        k = 'PolicySet' if st else 'Policy'
        d = {k + 'Id': self.ident(),
             ('Policy' if st else 'Rule') + 'CombiningAlgId':
             (PCA if st else RCA) + self.some(ALGS)}
        if self.rng.random() < self.wild / 8:
            d[('Policy' if st else 'Rule') + 'CombiningAlgId'] = self.some(
                [PCA, RCA]) + self.some(ALGS + ['x', ''])
        if self.rng.random() < .4:
            d['Version'] = self.some(['1.0', '2.0', '', '3', '2.0.1'])
        items = []
        for p, f in ((.4, self.description), (.3, lambda: self.defaults(k)),
                     (.6, self.target)):
            if self.rng.random() < p:
                items.append(f())
        for _ in range(self.count()):
            if not st:
                items.append(self.rule())
            elif self.rng.random() < .2:
                items.append(self.reference())
            else:
                items.append(self.policy(
                    depth - 1, depth > 0 and self.rng.random() < .4))
        self.known.append((k, d[k + 'Id']))
        return self.el(k, d, items)

    def reference(self):
        if self.known and self.rng.random() < .8:
            k, i = self.some(self.known)
            if self.rng.random() < .1:
                i = self.rng.choice([i.strip(), i + ' ', i.upper()])
            return [k + 'IdReference', {}, [i]]
        return [self.some(['PolicyIdReference', 'PolicyIdReference',
                           'PolicySetIdReference']), {},
                ['i%d' % self.rng.randint(1, max(1, self.n))]]


def nodes(e):
    out = [e]
    for x in e[2]:
        if isinstance(x, list) and len(x) == 3:
            out += nodes(x)
    return out


def edit(rng, g, root):
    """One change to a document, anywhere in it."""
    all_ = nodes(root)
    e = rng.choice(all_)
    els = [i for i, x in enumerate(e[2]) if isinstance(x, list) and
           len(x) == 3]
    k = rng.randrange(9)
    if k == 0:              # a copy of some element, in some place
        e[2].insert(rng.randrange(len(e[2]) + 1), copy.deepcopy(
            rng.choice([x for x in all_ if x is not root] or [['x', {}, []]])))
    elif k == 1 and els:    # a copy of a child of its own
        e[2].insert(rng.randrange(len(e[2]) + 1), copy.deepcopy(
            e[2][rng.choice(els)]))
    elif k == 2 and els:
        del e[2][rng.choice(els)]
    elif k == 3 and e is not root:
        e[0] = rng.choice(PARTS + [e[0] + 's', e[0].lower(), 'Any' + e[0]])
    elif k == 4 and e[1]:
        del e[1][rng.choice(sorted(e[1]))]
    elif k == 5 and e[1]:   # what another element has in this attribute
        n = rng.choice(sorted(e[1]))
        e[1][n] = rng.choice([x[1][n] for x in all_ if n in x[1]])
    elif k == 6:            # an element of no children
        e[2].insert(rng.randrange(len(e[2]) + 1), [rng.choice(
            PARTS + ['AnySubject', 'Any', 'x']), {}, []])
    elif k == 7 and len(els) > 1:
        i, j = rng.sample(els, 2)
        e[2][i], e[2][j] = e[2][j], e[2][i]
    else:
        e[2].insert(rng.randrange(len(e[2]) + 1), g.any())
    return root


def gen(rng, hints, tier):
    def in_match(*items):
        return dict(way='base', lib='lxml', root=['Policy', {
            'PolicyId': 'i', 'RuleCombiningAlgId': RCA + ALGS[0]}, [[
                'Target', {}, [['Subjects', {}, [['Subject', {}, [[
                    'SubjectMatch', {'MatchId': FNS[0]},
                    list(items)]]]]]]]]])
    v = [['AttributeValue', {'DataType': URI['string']}, [x]] for x in 'ab']
    d = {'AttributeId': 'a', 'DataType': URI['string']}
    yield in_match(v[0], v[1], ['SubjectAttributeDesignator', d, []])
    yield in_match(v[0], ['SubjectAttributeDesignator',
                          dict(d, SubjectCategory='urn:x'), []])
    for n in range(1, 5):
        for ids in itertools.product('abc', repeat=n):
            if n < 4 or tier != 'quick' or rng.random() < .5:
                for st in (False, True):
                    yield dict(way='base', lib='lxml', root=(
                        ['PolicySet', {'PolicySetId': 's',
                                       'PolicyCombiningAlgId': PCA + ALGS[0]},
                         [['Policy', {'PolicyId': i, 'RuleCombiningAlgId':
                                      RCA + ALGS[0]}, []] for i in ids]]
                        if st else
                        ['Policy', {'PolicyId': 'p', 'RuleCombiningAlgId':
                                    RCA + ALGS[0]},
                         [['Rule', {'RuleId': i, 'Effect': 'Permit'}, []]
                          for i in ids]]))
    n = 3000 if tier == 'quick' else 60000
    for j in range(n):
        g = G(rng, hints, rng.choice([0, 0, .15, .4]))
        r = rng.random()
        if r < .4:
            root = g.policy()
        else:
            root = g.policy(2, True)
        if g.wild == 0 and rng.random() < .7:
            root = edit(rng, g, root)
        if rng.random() < .15:
            root[0] = 'x:' + root[0]
        way = rng.choice(['base', 'pdp', 'base', 'Policy', 'PolicySet',
                          local(root[0]), local(root[0])])
        if way not in ('base', 'pdp', 'Policy', 'PolicySet'):
            way = 'base'
        yield dict(root=root, way=way,
                   lib='lxml' if rng.random() < .6 else 'etree')


if __name__ == '__main__':
    for l in sys.stdin:
        try:
            r = check(json.loads(l))
        except Exception as e:
            r = 'harness: %r' % e
        sys.stdout.write(json.dumps(r) + '\n')
        sys.stdout.flush()
