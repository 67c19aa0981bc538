"""P10: attribute selectors, scripted and on real documents."""
import itertools
from ndg.xacml import importElementTree
from ndg.xacml.core.attributeselector import AttributeSelector
from ndg.xacml.core.context.request import Request
from ndg.xacml.utils import TypedList
from ndg.xacml.utils.xpath_selector import (XPathSelectorInterface,
                                            EtreeXPathSelector)
from stubs import *         # noqa
from dress import dress, code
from values import *        # noqa
ET = importElementTree()

FILES = ['ndg/xacml/core/attributeselector.py',
         'ndg/xacml/utils/xpath_selector.py']
RULE = ('scripted selectors: every list of up to four texts, then sizes named '
        'in the code, every data type, unknown types, failing selectors, no '
        'selector; data types added at run time; documents: generated trees, child, descendant, absolute, '
        'nested and attribute paths, against a recursive walk')


class Sel(XPathSelectorInterface):
    def __init__(self, out):
        self.out, self.asked = out, []

    def selectText(self, path):
        self.asked.append(path)
        o = outcome(self.out)
        return list(o)


def gen(rng, hints, tier):
    for t in sorted(URI):
        for must in (None, False, True):
            for n in range(4):
                yield dict(t=URI[t], must=must, sel=['v%d' % i
                                                     for i in range(n)])
            yield dict(t=URI[t], must=must, sel=['a', None])
            yield dict(t=URI[t], must=must, sel=['a', 3])
            yield dict(t=URI[t], must=must, sel=None)
            yield dict(t=URI[t], must=must, sel='!Odd')
    for t in ('', 'urn:unknown', URI['string'] + ' ', URI['string'].upper(),
              None, URI['string'][:-1]):
        for sel in ([], ['x'], None):
            yield dict(t=t, must=False, sel=sel)
    for e in EXCNAMES:
        yield dict(t=URI['string'], must=False, sel='!' + e)
    for _ in range(1500 if tier == 'quick' else 30000):
        n = rng.choice([0, 1, 2, 3]) if rng.random() < .6 else \
            rng.choice(hints.sizes)
        yield dict(t=URI[rng.choice(sorted(URI))] if rng.random() < .3 else
                   URI['string'], must=rng.choice([None, False, True]),
                   sel=[rng.choice(['', ' ', ' x ', 'x', 'y', '0', 'None',
                                    pick_str(rng, hints)])
                        for _ in range(n)], path=pick_str(rng, hints),
                   z=code(rng, hints))

    for n in range(60 if tier == 'quick' else 1000):
        yield dict(reg=rng.choice(['urn:reg', URI['string'] + 's',
                                   'x' + URI['integer'], 'urn:reg:%d' % n,
                                   pick_str(rng, hints)]),
                   own=bool(n % 2), late=bool(n // 2 % 2), z=code(rng, hints),
                   sel=[rng.choice(['a', '', 'b', 'None', pick_str(
                       rng, hints), 3][:5 + (n % 7 == 0)])
                        for _ in range(n % 4)])

    def tree(d):
        return [rng.choice('xyz'), rng.choice(['', 't', ' t ', 'u', '1']),
                rng.choice([{}, {}, {'k': 'v'}, {'k': ' w '}, {'k': ''}]),
                [tree(d - 1) for _ in range(rng.choice([0, 1, 2, 3]))]
                if d else []]
    for _ in range(1500 if tier == 'quick' else 30000):
        steps = [[rng.choice(['/', '//']), rng.choice('xyzw')]
                 for _ in range(rng.choice([1, 1, 2]))]
        yield dict(doc=['r', 't', {}, [tree(2) for _ in range(
            rng.choice([0, 1, 2, 4]))]], steps=steps,
            attr=rng.choice([None, None, 'k']),
            form=rng.choice(['abs', 'rel']), t=URI['string'],
            must=rng.choice([False, True]))


def build(t):
    e = ET.Element(t[0])
    e.text = t[1] or None
    for k, v in t[2].items():
        e.set(k, v)
    for c in t[3]:
        e.append(build(c))
    return e


def walk(nodes, steps):
    for sep, name in steps:
        out = []

        def below(n):
            for c in n[3]:
                if c[0] == name:
                    out.append(c)
                if sep == '//':
                    below(c)
        for n in nodes:
            below(n)
        nodes = []
        for n in out:
            if not any(n is m for m in nodes):
                nodes.append(n)
    return nodes


def order(root, nodes):
    seq = []

    def rec(n):
        seq.append(n)
        for c in n[3]:
            rec(c)
    rec(root)
    return [n for n in seq if any(n is m for m in nodes)]


def check_registered(case):
    """A data type added at run time, before or after its first use; as the
    class says or under another identifier; then replaced by another class."""
    i, out = case['reg'], case['sel']
    classes = [type('RegisteredAttributeValue', (AttributeValue,), {
        'TYPE': t, 'IDENTIFIER': i if case['own'] else 'urn:other'})
        for t in (str, int)]
    s = AttributeSelector()
    s.dataType, s.requestContextPath = i, 'p'
    req = dress(Request(), case.get('z'))
    req.attributeSelector = Sel(out)
    table = AttributeValueClassFactory.IDENTIFIER2CLASS_MAP
    if i in table:
        return
    try:
        if case['late']:
            try:
                return 'returned %r for an unknown type' % (s.evaluate(req),)
            except Exception:
                pass
        for c, over in zip(classes, (False, True)):
            AttributeValueClassFactory.addClass(i, c, overwrite=over)
            fails = any(not isinstance(v, c.TYPE) for v in out)
            try:
                bag = s.evaluate(req)
            except Exception as e:
                if fails:
                    continue
                return 'raised %r' % (e,)
            if fails:
                return 'returned %r' % ([v.value for v in bag],)
            if type(bag) is not TypedList or bag.elementType is not c or any(
                    type(v) is not c or v.dataType != i for v in bag):
                return 'not a bag of the registered class: %r' % (bag,)
            if [v.value for v in bag] != out:
                return 'selected %r, expected %r' % ([v.value for v in bag],
                                                     out)
    finally:
        if i in table:
            del table[i]


def check(case):
    if 'reg' in case:
        return check_registered(case)
    s = AttributeSelector()
    if case['t'] is not None:
        s.dataType = case['t']
    if case['must'] is not None:
        s.mustBePresent = case['must']
    req = dress(Request(), case.get('z'))
    sel = None
    if 'doc' in case:
        nodes = order(case['doc'], walk([case['doc']], case['steps']))
        path = ''.join(a + b for a, b in case['steps'])
        if case['form'] == 'rel':
            path = '.' + path
        if case['attr']:
            path += '/@' + case['attr']
            want = [n[2]['k'] for n in nodes if 'k' in n[2]]
        else:
            want = [n[1] or None for n in nodes]
        root = build(case['doc'])
        ser = ET.tostring(root)
        sel = EtreeXPathSelector(root)
    else:
        path = case.get('path', 'p')
        want = case['sel']
        if want is not None:
            sel = Sel(want)
    s.requestContextPath = path
    if sel is not None:
        req.attributeSelector = sel
    names = [n for n in URI if URI[n] == case['t']]
    nat = NATIVE.get(names[0], str) if names else None
    fails = (not names or want is None or isinstance(want, str) or
             any(not isinstance(v, nat) for v in want) or
             (case['must'] and not want))
    for again in (0, 1):
        try:
            bag = s.evaluate(req)
        except Exception as e:
            if fails:
                continue
            return 'raised %r' % (e,)
        if fails:
            return 'returned %r' % ([v.value for v in bag],)
        cls = F(case['t'])
        if type(bag) is not TypedList or bag.elementType is not cls:
            return 'not a bag of %s' % case['t']
        if [v.value for v in bag] != list(want):
            return 'selected %r, expected %r' % ([v.value for v in bag], want)
        if any(type(v) is not cls or v.dataType != case['t'] for v in bag):
            return 'a value of another data type'
    if isinstance(sel, Sel) and any(p != path for p in sel.asked):
        return 'asked for %r' % sel.asked
    if 'doc' in case and ET.tostring(root) != ser:
        return 'the request document changed'
