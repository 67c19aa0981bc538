"""P21: documents that refer to policies and policy sets, and finders with
histories of registrations and lookups, against a plain model."""
import os
import shutil
import sys
import tempfile
from io import StringIO
from urllib.parse import quote, unquote
from xml.sax.saxutils import escape, quoteattr
from ndg.xacml.core.policy import Policy
from ndg.xacml.core.policybase import PolicyBase
from ndg.xacml.core.policyset import PolicySet
from ndg.xacml.finder.localpolicyfinder import LocalPolicyFinder
from ndg.xacml.finder.urlpolicyfinder import UrlPolicyFinder
from ndg.xacml.finder.defaultfinder import getDefaultPolicyFinder
from ndg.xacml.parsers.common import Common
from ndg.xacml.parsers.etree.factory import ReaderFactory
from ndg.xacml.core.context.pdp import PDP
from stubs import *         # noqa

# no certificates are needed for files, and reading them is slow
os.environ['SSL_CERT_FILE'] = os.environ['SSL_CERT_DIR'] = os.devnull
FILES = ['ndg/xacml/finder/*.py', 'ndg/xacml/parsers/etree/policy*.py',
         'ndg/xacml/core/policybase.py', 'ndg/xacml/utils/urlfetcher.py',
         'ndg/xacml/parsers/etree/__init__.py']
RULE = ('histories of up to eight registrations and lookups on the local and '
        'the URL finder, and whole documents with nested policies and '
        'references in any order; documents in a scratch directory found by '
        'relative and absolute paths and file URLs, holding the referenced '
        'identifier, another one, or none, with decoys of the same name in '
        'the current directory; identifiers taken twice; every result '
        'compared with a model of what is registered')
RCA = 'urn:oasis:names:tc:xacml:1.0:rule-combining-algorithm:deny-overrides'
PCA = RCA.replace('rule', 'policy')
BASED = ['path', 'relpath', 'file', 'class']
NAMES = ['d1', 'd2', 'd3', 'sub/d4', 'http:d5']
IDS = ['a', 'b', 'A', 'a ', ' a', 'aa', 'urn:x:a', 'd1', 'd2', 'd3', './d1',
       'file://d1', 'file://./d2', '@/d1', 'file://@/d2', 'sub/d4',
       './sub/d4', 'file://sub/d4', '../base/d1', 'caf\u00e9', 'd1/', 'x.y',
       'D1', 'd', 'file://@/sub/d4', 'http:d5', './http:d5', 'file://@/http:d5', '<&"']
SPLIT = '\x00'      # stands for a comment within a reference


def split(rng, s):
    if rng.random() < .15 and s:
        i = rng.randrange(len(s) + 1)
        return s[:i] + SPLIT + s[i:]
    return s


def a_id(rng, hints):
    if rng.random() < .04:
        s = pick_str(rng, hints)
        # (an empty reference has no text to resolve and is refused)
        if s and s.strip() == s and s.isprintable():
            return s
    return rng.choice(IDS)


def doc(rng, hints, depth, want=None):
    """('P', id) | ('S', id, [members]); a member may also be a reference
    ('p', id) or ('s', id)"""
    i = want if want is not None and rng.random() < .8 else a_id(rng, hints)
    if depth == 0 or rng.random() < .3:
        return ['P', i]
    l = []
    for _ in range(rng.randint(0, 3)):
        r = rng.random()
        if r < .35:
            known = [x[1] for x in flat(l)]
            l.append([rng.choice('pps'), split(
                rng, rng.choice(known) if known and rng.random() < .5
                else a_id(rng, hints))])
        else:
            l.append(doc(rng, hints, depth - 1))
    return ['S', i, l]


def flat(l):
    for d in l:
        if d[0] == 'S':
            for x in flat(d[2]):
                yield x
        if d[0] in 'PS':
            yield d


def files(rng, hints):
    out = {}
    for n in NAMES:
        if rng.random() < .8:
            want = rng.choice([i for i in IDS if i.endswith(n)])
            out[n] = doc(rng, hints, rng.choice([0, 0, 1, 2]), want)
    return out


def gen(rng, hints, tier):
    # every reference form, and an identifier that is only nearly the same
    for n in NAMES:
        forms = [i for i in IDS if i.endswith(n)]
        for ref in forms:
            for own in forms[:3] + [ref, ref + 'x', '']:
                for k in 'PS':
                    d = ['P', own] if k == 'P' else ['S', own, []]
                    yield dict(c='url', files={n: d}, ops=[
                        ['find', k, ref], ['find', k, ref],
                        ['find', 'PS'['SP'.index(k)], ref]])
                    yield dict(c='doc', files={n: d}, root=[
                        'S', 'root', [[k.lower(), ref]]], src='file')
    for i in ('id', 'id2', '2'):
        for s in ('id\x002', '\x00id2', 'id2\x00', 'id\x00', 'i\x00d'):
            yield dict(c='doc', files={}, src='file', root=[
                'S', 'root', [['P', i], ['P', 'zz'], ['p', s]]])
    for _ in range(1500 if tier == 'quick' else 25000):
        r = rng.random()
        if r < .25:
            ops = []
            for _ in range(rng.randint(2, 8)):
                ops.append([rng.choice(['add', 'find']), rng.choice('PS'),
                            rng.choice(IDS[:4])])
            yield dict(c='local', ops=ops, files={})
        elif r < .6:
            ops = []
            for _ in range(rng.randint(1, 6)):
                ops.append([rng.choice(['add', 'find', 'find', 'find']),
                            rng.choice('PS'), a_id(rng, hints)])
            yield dict(c='url', files=files(rng, hints), ops=ops,
                       rel=rng.random() < .3,
                       dir=rng.choice(['base', 'base', 'a#b', 'a%20b']))
        else:
            root = doc(rng, hints, 2)
            if root[0] == 'P':
                root = ['S', 'root', [root] + [['p', split(
                    rng, a_id(rng, hints))] for _ in range(2)]]
            yield dict(c='doc', files=files(rng, hints), root=root,
                       dir=rng.choice(['base', 'base', 'a#b', 'a%20b']),
                       src=rng.choice(BASED + ['string', 'local']))


def xml(d, mark, root, top=True):
    def at(s):
        return s.replace('@', quote(root))
    ns = ' xmlns="urn:oasis:names:tc:xacml:2.0:policy:schema:os"' if top \
        else ''
    if d[0] == 'P':
        return ('<Policy%s PolicyId=%s RuleCombiningAlgId="%s"><Description>'
                '%s</Description><Target/></Policy>' %
                (ns, quoteattr(at(d[1])), RCA, mark))
    if d[0] == 'S':
        return ('<PolicySet%s PolicySetId=%s PolicyCombiningAlgId="%s">'
                '<Description>%s</Description><Target/>%s</PolicySet>' %
                (ns, quoteattr(at(d[1])), PCA, mark, ''.join(
                    xml(x, mark, root, False) for x in d[2])))
    n = {'p': 'PolicyIdReference', 's': 'PolicySetIdReference'}[d[0]]
    return '<%s>%s</%s>' % (n, escape(at(d[1])).replace(
        SPLIT, '<!-- c -->'), n)


class Refused(Exception):
    pass


class Model(object):
    """what is registered: {(kind, id): token}; a token is (kind, id, mark of
    the document it stands in, number of the object)"""

    def __init__(self, case, base, root):
        self.reg, self.n, self.root = {}, 0, root
        self.files, self.base = case['files'], base
        self.url = case['c'] == 'url' or case.get('src') in BASED + ['string']
        self.depth = 0

    def at(self, s):
        return s.replace('@', quote(self.root)).replace(SPLIT, '')

    def add(self, kind, i, mark):
        if (kind, i) in self.reg:
            raise Refused()
        self.n += 1
        self.reg[kind, i] = (kind, i, mark, self.n)
        return self.reg[kind, i]

    def locate(self, ref):
        p = ref[7:] if ref.startswith('file://') else ref
        for x in ('ftp://', 'http://', 'https://'):
            if ref.startswith(x):
                raise Refused()
        p = unquote(p)
        if not p.startswith('/'):
            if self.base is None:
                raise Refused()
            p = os.path.join(self.base, p)
        p = os.path.normpath(p) if not p.endswith('/') else p
        for n in self.files:
            if p == os.path.join(self.root, n):
                return n
        raise Refused()

    def find(self, kind, ref):
        if (kind, ref) not in self.reg:
            if not self.url:
                raise Refused()
            n = self.locate(ref)
            self.depth += 1
            if self.depth > 20:
                raise Refused()
            try:
                self.read(self.files[n], n)
            finally:
                self.depth -= 1
            if (kind, ref) not in self.reg:
                raise Refused()
        return self.reg[kind, ref]

    def read(self, d, mark):
        """the token of the document, members nested"""
        l = []
        for m in d[2] if d[0] == 'S' else ():
            l.append(self.find(m[0].upper(), self.at(m[1])) if m[0] in 'ps'
                     else self.read(m, mark))
        t = self.add(d[0], self.at(d[1]), mark)
        self.members = getattr(self, 'members', {})
        self.members[t] = l
        return t


def token(model, obj, seen):
    """compare a real object with a token: id, class and document"""
    if type(obj) is Policy:
        return ('P', obj.policyId, obj.description)
    if type(obj) is PolicySet:
        return ('S', obj.policySetId, obj.description)
    return ('other', repr(obj))


def same_tree(model, obj, t, objs):
    if token(model, obj, objs) != t[:3]:
        return 'got %r, expected %r' % (token(model, obj, objs), t[:3])
    if objs.setdefault(t, obj) is not obj:
        return 'two objects for %r' % (t,)
    want = getattr(model, 'members', {}).get(t, [])
    got = list(obj.policies) if type(obj) is PolicySet else []
    if len(got) != len(want):
        return '%r has %d members, expected %d' % (t, len(got), len(want))
    for g, w in zip(got, want):
        r = same_tree(model, g, w, objs)
        if r:
            return r
    return None


def check(case):
    top = tempfile.mkdtemp(prefix='p21-')
    cwd = os.getcwd()
    limit = sys.getrecursionlimit()
    try:
        root = os.path.join(top, case.get('dir', 'base'))
        decoy = os.path.join(top, 'decoy')
        for d in (root, decoy):
            os.makedirs(os.path.join(d, 'sub'))
        for n, d in case['files'].items():
            with open(os.path.join(root, n), 'w', encoding='utf-8') as f:
                f.write(xml(d, n, root))
            with open(os.path.join(decoy, n), 'w', encoding='utf-8') as f:
                f.write(xml(d, 'decoy', root))
        os.chdir(decoy)
        # documents that refer to each other without end are refused too
        sys.setrecursionlimit(400)
        return (whole if case['c'] == 'doc' else history)(case, root)
    finally:
        sys.setrecursionlimit(limit)
        os.chdir(cwd)
        shutil.rmtree(top)


def history(case, root):
    model = Model(case, root, root)
    finder = UrlPolicyFinder(os.path.relpath(root) if case.get('rel') else
                             root) if case['c'] == 'url' else \
        LocalPolicyFinder()
    other = UrlPolicyFinder(root) if case['c'] == 'url' else \
        LocalPolicyFinder()
    common = Common(finder)
    finder.setReader(ReaderFactory.getReader(PolicyBase))
    objs = {}
    for n, (op, kind, i) in enumerate(case['ops']):
        i = model.at(i)
        where = '%s %s %r (step %d): ' % (op, kind, i, n)
        if op == 'add':
            o = Policy() if kind == 'P' else PolicySet()
            setattr(o, 'policyId' if kind == 'P' else 'policySetId', i)
            o.description = 'added'
            o.version = '1.%d' % n
            try:
                t = model.add(kind, i, 'added')
            except Refused:
                t = None
            try:
                (finder.addPolicyReference if kind == 'P' else
                 finder.addPolicySetReference)(o)
                ok = True
            except Exception:
                ok = False
            if ok != (t is not None):
                return where + ('accepted though taken' if ok
                                else 'refused though free')
            if ok:
                objs[t] = o
        else:
            try:
                t = model.find(kind, i)
            except Refused:
                t = None
            try:
                o = (finder.findPolicy if kind == 'P' else
                     finder.findPolicySet)(i, common)
            except Exception as e:
                if t is not None:
                    return where + 'refused: %r' % e
                continue
            if t is None:
                return where + 'found %r though there is none' % (
                    token(model, o, objs),)
            r = same_tree(model, o, t, objs)
            if r:
                return where + r
        # what was registered stays so
        for (k, j), t in model.reg.items():
            try:
                o = (finder.findPolicy if k == 'P' else
                     finder.findPolicySet)(j, common)
            except Exception as e:
                return where + 'registered %s %r lost: %r' % (k, j, e)
            r = same_tree(model, o, t, objs)
            if r:
                return where + 'then ' + r
    if other.policyMap or other.policySetMap:
        return 'another finder knows the policies too'
    return None


def whole(case, root):
    src = case['src']
    text = xml(case['root'], 'root', root)
    path = os.path.join(root, 'root.xml')
    with open(path, 'w', encoding='utf-8') as f:
        f.write(text)
    model = Model(case, root if src in BASED else None, root)
    try:
        t = model.read(case['root'], 'root')
    except Refused:
        t = None
    fh = None
    try:
        try:
            if src == 'path':
                o = PDP.fromPolicySource(path, ReaderFactory).policy
            elif src == 'relpath':
                o = PDP.fromPolicySource(os.path.relpath(path),
                                         ReaderFactory).policy
            elif src == 'file':
                fh = open(path, encoding='utf-8')
                o = PDP.fromPolicySource(fh, ReaderFactory).policy
            elif src == 'class':
                o = (PolicySet if case['root'][0] == 'S' else
                     Policy).fromSource(path, ReaderFactory)
            elif src == 'string':
                o = PDP.fromPolicySource(StringIO(text), ReaderFactory).policy
            else:
                o = PDP.fromPolicySource(StringIO(text), ReaderFactory,
                                         LocalPolicyFinder()).policy
        except Exception as e:
            if t is not None:
                return 'document refused: %s: %s' % (type(e).__name__, e)
            return None
    finally:
        if fh is not None:
            fh.close()
    if t is None:
        return 'document read as %r though a reference has no policy or an ' \
            'identifier is taken twice' % (token(model, o, {}),)
    return same_tree(model, o, t, {})
