"""P21: policy references resolve to the policy with that identifier, or to
an error."""
import os
import urllib.error
import urllib.parse
import urllib.request
from urllib.request import pathname2url
from .common import *           # noqa
from .p17 import same_map
from .p15 import made
from ndg.xacml.core.policybase import PolicyBase
from ndg.xacml.finder.localpolicyfinder import LocalPolicyFinder
from ndg.xacml.finder.urlpolicyfinder import UrlPolicyFinder
from ndg.xacml.finder import defaultfinder
from ndg.xacml.parsers.common import Common
from ndg.xacml.utils import urlfetcher
from pyvc.verify import Target as T

NONE_OR_STR = Opt(STR)
KEY = NONE_OR_STR
KINDS = {'policy': (Policy, 'policyId', 'policyMap'),
         'policy set': (PolicySet, 'policySetId', 'policySetMap')}
LOCATION = ('the location of a reference: os.path.join is an unspecified '
            'function of its arguments, and refuses what is no string; '
            'os.path.abspath and pathname2url are unspecified functions of a '
            'string')


def do_add_policy(f, p):
    f.addPolicyReference(p)


def do_add_set(f, p):
    f.addPolicySetReference(p)


def do_find_policy(f, r, common):
    return f.findPolicy(r, common)


def do_find_set(f, r, common):
    return f.findPolicySet(r, common)


ADD = {'policy': do_add_policy, 'policy set': do_add_set}
FIND = {'policy': do_find_policy, 'policy set': do_find_set}


def has(base, k):
    return fn('MAPHAS', I, Val, B)(base, k)


def types_of(kind):
    cls, name, _ = KINDS[kind]
    return {cls: {name: NONE_OR_STR}}


def own_id(eng, st, kind, m):
    """the invariant of a map of policies: each is there under its own
    identifier"""
    cls, name, _ = KINDS[kind]
    k = z3.Const('id!%d' % eng.uid(), Val)

    def at(s):
        v = eng.ap(s, 'MAPGET', [m, k], Inst(cls))
        (s2, i), = eng.getattr_(s, v, name)
        return eng.lift(i)
    n = len(st.facts)
    i = at(st)
    mine = st.facts[n:]
    del st.facts[n:]
    st.fact(z3.ForAll([k], z3.Implies(has(m, k), z3.And([i == k] + mine)),
                      patterns=[has(m, k)]))


def content(eng, st, f, kind):
    """the map of that kind of policies"""
    (s, r), = eng.getattr_(st, f, KINDS[kind][2])
    if not (isinstance(r, Ref) and st.heap[r.id].mp is not None):
        raise Unsupported('%s is no dictionary' % KINDS[kind][2])
    return r


def filled(eng, st, f, tag=''):
    """any registered policies: {kind: content}"""
    out = {}
    for i, kind in enumerate(KINDS):
        r = content(eng, st, f, kind)
        m = MapC(z3.Int('%s%d' % (KINDS[kind][2], i) + tag), (), STR,
                 Inst(KINDS[kind][0]))
        own_id(eng, st, kind, m.base)
        st.heap[r.id].mp = m
        out[kind] = m
    return out


def now(eng, st, f, kind):
    return st.heap[content(eng, st, f, kind).id].mp


def finder(eng, st, cls):
    if cls is UrlPolicyFinder:
        base = eng.param(st, 'basePath', NONE_OR_STR)
        st, f = made(eng, st, cls, base)
        return st, f, base
    st, f = made(eng, st, cls)
    return st, f, None


def starts_empty(cls):
    """nothing is registered in a new finder, and none shares its maps"""
    def build(cx):
        eng = cx.engine({}, [], GHOSTS)
        st, f, base = finder(eng, eng.start(), cls)
        st, g, base2 = finder(eng, st, cls)
        k = Sym(z3.Const('anykey', Val), ANY)
        for kind in KINDS:
            m = now(eng, st, f, kind)
            cx.oblige('%s map empty' % kind, [],
                      z3.BoolVal(m.base is None and not m.log), eng)
        ids = [content(eng, st, x, kind).id for x in (f, g) for kind in KINDS]
        cx.oblige('four separate maps', [],
                  z3.BoolVal(len(set(ids)) == 4), eng)
    return T('new %s' % cls.__name__, build)


def adds(cls, kind):
    """registered under its own identifier unless that is taken: then refused
    and nothing changes"""
    other = [k for k in KINDS if k != kind][0]

    def build(cx):
        eng = cx.engine(types_of(kind), [], GHOSTS)
        st, f, base = finder(eng, eng.start(), cls)
        old = filled(eng, st, f)
        p = eng.param(st, 'policy', Inst(KINDS[kind][0]))
        (st, pid), = eng.getattr_(st, p, KINDS[kind][1])
        k = eng.lift(pid)
        taken = has(old[kind].base, k)

        def compare(e, s, code, sp):
            kept = z3.And([same_map(e, s, now(e, s, f, x), old[x], KEY)
                           for x in KINDS])
            if isinstance(code, Raise):
                return z3.And(taken, kept)
            added = MapC(old[kind].base, (('set', pid, p),), STR,
                         Inst(KINDS[kind][0]))
            (s2, there), = [(s2, v) for s2, v in e.map_lookup(
                s.copy(), MapC(old[kind].base, (), STR, Inst(
                    KINDS[kind][0])), pid) if v is not None][:1] or \
                [(s, None)]
            again = FALSE if there is None else \
                e.lift(there) == e.lift(p)
            return z3.And(z3.Or(z3.Not(taken), again),
                          same_map(e, s, now(e, s, f, kind), added, KEY),
                          same_map(e, s, now(e, s, f, other), old[other],
                                   KEY))
        cx.refine(eng, st, ADD[kind], [(st.copy(), None)], [f, p], compare)
    return T('%s: a %s is registered once' % (cls.__name__, kind), build)


def right_one(kind, f, ref, found, old):
    """the policy found has exactly that identifier, and is the one
    registered under it; none of those registered before is replaced"""
    def compare(e, s, code, sp):
        kept = []
        k = Sym(z3.Const('k!%d' % e.uid(), Val), KEY)
        for x in KINDS:
            for s2, a in e.map_lookup(s.copy(), old[x], k):
                if a is None:
                    continue
                for s3, b in e.map_lookup(s2.copy(), now(e, s, f, x), k):
                    kept.append(z3.Implies(
                        z3.And(s3.pc[len(s.pc):] + s3.facts[len(s.facts):]),
                        FALSE if b is None else e.lift(a) == e.lift(b)))
        if isinstance(code, Raise):
            return z3.And([z3.Not(found)] + kept)
        goals = list(kept)
        for s2, v in e.map_lookup(s.copy(), now(e, s, f, kind), ref):
            hyp = z3.And(s2.pc[len(s.pc):] + s2.facts[len(s.facts):])
            goals.append(z3.Implies(hyp, FALSE if v is None else
                                    e.lift(v) == e.lift(code)))
        cls, name, _ = KINDS[kind]
        c = e.norm(s, code)
        if not (isinstance(c, Sym) and c.ty.kind == 'inst'):
            return FALSE
        (s2, i), = e.getattr_(s.copy(), c, name)
        goals.append(e.lift(i) == e.lift(ref))
        return z3.And(goals)
    return compare


def finds(cls, kind):
    def build(cx):
        for known in (True, False):
            eng = cx.engine(types_of(kind), [], GHOSTS)
            st, f, base = finder(eng, eng.start(), cls)
            old = filled(eng, st, f)
            ref = eng.param(st, 'reference', NONE_OR_STR)
            st, common = made(eng, st, Common, f)
            st.add(has(old[kind].base, eng.lift(ref)) == known)
            if cls is UrlPolicyFinder:
                fetching(cx, eng, f, base, ref, common, known, kind)
            cx.refine(eng, st, FIND[kind], [(st.copy(), None)],
                      [f, ref, common], right_one(
                          kind, f, ref, z3.BoolVal(known), old),
                      label='known: ' if known else 'not known: ')
    return T('%s: a %s reference' % (cls.__name__, kind), build)


# ---------------------------------------------------- the referenced document
class Document(object):
    """What was fetched."""


def c_join(eng, st, args, kw):
    out, cur = [], [st]
    for a in args:
        nxt = []
        for s in cur:
            for s2, b in eng.branch(s, isinst(eng, s, a, str)):
                if b:
                    nxt.append(s2)
                else:
                    out += eng.rz(s2, TypeError)
        cur = nxt
    return out + [(s, eng.ap(s, 'PATH_JOIN', [eng.lift(x) for x in args],
                             STR)) for s in cur]


def located(reference, base):
    """The URL a reference stands for, as the finder documents it."""
    sep = os.path.sep
    if base is not None:
        base = pathname2url(os.path.abspath(base))
    if reference.startswith('file://'):
        path = reference[len('file://'):]
        if path.startswith('.' + sep):
            return 'file://' + os.path.join(base, path[2:])
        if not path.startswith(sep):
            return 'file://' + os.path.join(base, path)
        return reference
    if reference.startswith('ftp://'):
        return reference
    if reference.startswith('http://'):
        return reference
    if reference.startswith('https://'):
        return reference
    if reference.startswith(sep):
        return 'file://' + reference
    return 'file://' + os.path.join(base, reference)


def fetching(cx, eng, f, base, ref, common, known, kind):
    """What is fetched is the document the reference locates, and only for a
    policy not read already; it may hold any policies."""
    eng.assumptions.add(LOCATION)
    eng.assumptions.add(
        'the reading of the referenced document registers each policy in it '
        'under its own identifier, through addPolicyReference and '
        'addPolicySetReference, and leaves those registered before in place, '
        'or fails (the readers: P22)')
    eng.assumptions.add('the identifier of a policy is not changed after it '
                        'is registered')
    n = [0]

    def c_fetch(e, s, args, kw):
        url = args[0] if args else kw['url']
        n[0] += 1
        if known:
            cx.oblige('fetched although known (%d)' % n[0],
                      s.pc + s.facts, FALSE, e)
        for s2, want in e.run(s.copy(), located, [ref, base]):
            g = FALSE if isinstance(want, Raise) else \
                e.lift(want) == e.lift(url)
            cx.oblige('document fetched is the one located (%d)' % n[0],
                      s2.pc + s2.facts, g, e)
        s = s.copy()
        d = e.fresh_typed(s, 'document', Inst(Document))
        return e.rz(s.copy(), Exception) + [(s, d)]

    def c_nested(e, s, args, kw):
        doc, com = args[-2:]
        cx.oblige('what is read is what was fetched (%d)' % n[0],
                  s.pc + s.facts, z3.And(
                      isinst(e, s, doc, Document),
                      e.lift(com) == e.lift(common)), e)
        s = s.copy()
        before = dict((x, now(e, s, f, x)) for x in KINDS)
        filled(e, s, f, '!%d' % e.uid())
        k = z3.Const('id!%d' % e.uid(), Val)
        for x in KINDS:
            a, b = before[x], now(e, s, f, x)
            c = Inst(KINDS[x][0])
            va, vb = [e.ap(s, 'MAPGET', [m.base, k], c) for m in (a, b)]
            s.fact(z3.ForAll([k], z3.Implies(has(a.base, k), z3.And(
                has(b.base, k), va.t == vb.t)),
                patterns=[has(a.base, k)]))
        any_ = e.fresh_typed(s, 'policy', Inst(PolicyBase))
        return e.rz(s.copy(), Exception) + [(s, any_)]
    eng.fcontracts[urlfetcher.fetch_stream_from_url] = c_fetch
    eng.fcontracts[PolicyBase.fromNestedSource.__func__] = c_nested
    eng.fcontracts[os.path.join] = c_join
    eng.fcontracts[os.path.abspath] = unary('PATH_ABSOLUTE')
    eng.fcontracts[pathname2url] = unary('PATH_URL')


class Opener(object):
    """What opens URLs, proxied or not."""
    def open(self, url):
        pass


class Handler(object):
    """A part of an opener."""


class Parsed(object):
    """The parts of a URL."""


def fetch(how, given):
    """What is fetched is what opening the very URL asked for gives."""
    def build(cx):
        eng = cx.engine({Parsed: {'hostname': ANY}}, [], {})
        eng.assumptions.add(
            'opening a URL: urllib gives the document at that URL or fails, '
            'with a proxy or without; the environment and the parts of a URL '
            'are unspecified')
        st = eng.start()
        url = eng.param(st, 'url', STR)
        args = [url] + ([eng.param(st, 'debug', ANY)] if given else [])

        def fresh(cls, fails=False):
            def handle(e, s, a, kw):
                out = e.rz(s.copy(), ValueError) if fails else []
                return out + [(s, e.fresh_typed(s, cls.__name__,
                                                Inst(cls)))]
            return handle

        def c_open(e, s, a, kw):
            if len(a) != 2 or kw:
                return e.rz(s, TypeError)
            doc = e.ap(s, 'OPENED', [e.lift(a[1])], Inst(Document))
            return e.rz(s.copy(), Exception) + \
                e.rz(s.copy(), urllib.error.HTTPError) + [(s, doc)]
        eng.fcontracts[urllib.request.HTTPHandler] = fresh(Handler)
        eng.fcontracts[urllib.request.ProxyHandler] = fresh(Handler)
        eng.fcontracts[urllib.request.build_opener] = fresh(Opener)
        eng.fcontracts[urllib.parse.urlparse] = fresh(Parsed, True)
        eng.fcontracts[Opener.open] = c_open
        eng.fcontracts[urllib.error.HTTPError.__str__] = \
            lambda e, s, a, kw: [(s, e.fresh_typed(s, 'message', STR))]
        n = 0
        for s, v in eng.run(st, how, args):
            n += 1
            if isinstance(v, Raise):
                continue
            want = eng.ap(s, 'OPENED', [eng.lift(url)], Inst(Document))
            cx.oblige('path %d: what is returned is what was opened' % n,
                      s.pc + s.facts, eng.lift(v) == eng.lift(want), eng)
    return T('%s of a URL%s' % (how.__name__, ', debugging' if given else ''),
             build)


def isinst(eng, st, v, cls):
    r = eng.isinst(st, v, Con(cls))
    return z3.BoolVal(r) if isinstance(r, bool) else r


class File(object):
    """A file object."""


class Element(object):
    """An XML element: no file, no name."""


def do_default(source):
    return defaultfinder.getDefaultPolicyFinder(source)


def base_of(source):
    """where the policy document is, if that is known"""
    if isinstance(source, str):
        name = source
    else:
        name = getattr(source, 'name', None)
    if isinstance(name, str) and os.path.exists(name):
        return os.path.dirname(name)
    return None


def unary(name):
    def handle(eng, st, args, kw):
        return [(st, eng.ap(st, name, [eng.lift(args[0])], STR))]
    return handle


def c_exists(eng, st, args, kw):
    return [(st, eng.ap(st, 'PATH_EXISTS', [eng.lift(args[0])], BOOL))]


def default(what, ty, types):
    """The default finder resolves relative references beside the document
    they are in, and starts empty."""
    def build(cx):
        eng = cx.engine(types, [], GHOSTS)
        eng.assumptions.add('os.path.exists and os.path.dirname are '
                            'unspecified functions of a string')
        eng.fcontracts[os.path.exists] = c_exists
        eng.fcontracts[os.path.dirname] = unary('PATH_DIRNAME')
        st = eng.start()
        source = eng.param(st, 'source', ty)

        def compare(e, s, code, sp):
            if isinstance(code, Raise) or isinstance(sp, Raise) or \
                    not isinstance(code, Ref):
                return FALSE
            (s2, b), = e.getattr_(s, code, 'basePath')
            empty = all(now(e, s, code, x).base is None and
                        not now(e, s, code, x).log for x in KINDS)
            ok = isinst(e, s, code, UrlPolicyFinder)
            return z3.And(z3.BoolVal(empty), ok, e.lift(b) == e.lift(sp))
        cx.refine(eng, st, do_default, base_of, [source], compare)
    return T('default finder for %s' % what, build)


def targets(tier):
    out = []
    for cls in (LocalPolicyFinder, UrlPolicyFinder):
        out.append(starts_empty(cls))
        for kind in KINDS:
            out.append(adds(cls, kind))
            out.append(finds(cls, kind))
    for given in (False, True):
        out.append(fetch(urlfetcher.fetch_stream_from_url, given))
    out.append(default('a string', STR, {}))
    out.append(default('a file', Inst(File), {File: {'name': ANY}}))
    out.append(default('anything else', Inst(Element), {}))
    return out
