"""P10: attribute selectors."""
from .common import *           # noqa
from .funcs import *            # noqa
from .bags import seqeq, seq_of
from ndg.xacml.utils import TypedList
from ndg.xacml.utils import xpath_selector as XS_MODULE

STYPES = dict(FTYPES)
STYPES[AttributeSelector] = {
    'requestContextPath': Opt(STR), 'mustBePresent': Opt(BOOL),
    'attributeValueFactory': Inst(AttributeValueClassFactory)}
XSel = XPathSelectorInterface
TEXTS = SeqT(ANY, list)


def c_select(eng, st, recv, args, kw):
    """texts the path selects, in document order; may fail"""
    return ghost_call(eng, st, 'SELECT', [recv, arg(args, kw, 0, 'path')],
                      TEXTS)


SELECT = CallContract(XSel, 'selectText', c_select)


def knows(table):
    """the factory knows exactly these data types among those that can be
    asked for here (P16)"""
    def apply(eng, st, recv, args, kw):
        t = eng.norm(st, arg(args, kw, 0, 'identifier'))
        out = []
        rest = [st]
        for uri, cls in table.items():
            nxt = []
            for s in rest:
                for s2, b in eng.branch(s, eng.lift(t) == eng.lift(
                        Con(uri))):
                    if b:
                        out.append((s2, Con(cls)))
                    else:
                        nxt.append(s2)
            rest = nxt
        return out + [(s, Con(None)) for s in rest]
    return CallContract(AttributeValueClassFactory, '__call__', apply)


def registered(cls):
    """a class that was registered for the data type asked for"""
    return CallContract(AttributeValueClassFactory, '__call__',
                        lambda e, st, recv, args, kw: [(st, Con(cls))])


class Native(object):
    """whatever Python type the values of a registered data type are of"""


class Registered(AttributeValue):
    """a data type added at run time"""
    TYPE = Native
    IDENTIFIER = 'urn:registered'


def texts_of(selector, path):
    """what the path selects"""


def selects(self, context):
    if context.attributeSelector is None:
        raise Refused()
    return texts_of(context.attributeSelector, self.requestContextPath)


def field(eng, st, v, name):
    outs = eng.getattr_(st.copy(), v, name)
    if len(outs) != 1 or isinstance(outs[0][1], Raise):
        return None
    return outs[0][1]


def evaluate(cls, uri, ty, name=None):
    """uri None: whatever identifier the class is registered under"""
    asked = []

    def value_of(eng, st, x, y):
        """x: an attribute value made by the code; y: the text"""
        c, exact = eng.cls_of(st, x)
        if c is not cls or not exact:
            return FALSE
        v, d = field(eng, st, x, 'value'), field(eng, st, x, 'dataType')
        if v is None or d is None:
            return FALSE
        return z3.And(eng.lift(v) == eng.lift(y), eng.lift(d) == asked[0])

    def build(cx):
        eng = cx.engine(STYPES, [SELECT, knows({uri: cls}) if uri else
                                 registered(cls)], GHOSTS)
        eng.fcontracts[texts_of] = lambda e, st, a, kw: ghost_call(
            e, st, 'SELECT', a, TEXTS)
        st = eng.start()
        self_ = eng.inst(st, 'self', AttributeSelector)
        ctx = eng.param(st, 'context', Inst(Request))
        dt = eng.getattr_(st, self_, 'dataType')[0][1]
        if uri:
            st.add(eng.lift(dt) == eng.lift(Con(uri)))
        else:
            st.add(Val.is_vstr(eng.lift(dt)))
        want_type = eng.lift(Con(uri)) if uri else eng.lift(dt)
        must = eng.lift(eng.getattr_(st, self_, 'mustBePresent')[0][1]) == \
            Val.vbool(TRUE)

        def compare(eng, st, code, spec):
            asked[:] = [want_type]
            if isinstance(spec, Raise):
                return isinstance(code, Raise)
            want = eng.content(st, spec)
            bad = eng.seq_exists(st, want, lambda s, x: z3.Not(zf(eng.isinst(
                s, x, Con(ty)))))
            missing = z3.And(must, eng.seqlen(st, want) == 0)
            refuse = z3.Or(bad, missing)
            if isinstance(code, Raise):
                return refuse
            c, exact = eng.cls_of(st, code)
            if c is not TypedList:
                return False
            et = eng.getattr_(st, code, 'elementType')[0][1]
            return z3.And(z3.Not(refuse),
                          eng.lift(et) == eng.lift(Con(cls)),
                          seqeq(eng, st, seq_of(eng, st, code), want,
                                same=value_of))
        cx.refine(eng, st, AttributeSelector.evaluate, selects, [self_, ctx],
                  compare, frame=no_writes)
    return T(name or 'AttributeSelector.evaluate of %s' % uri.split('#')[-1].split(
        ':')[-1], build)


def zf(r):
    return z3.BoolVal(r) if isinstance(r, bool) else r


def unknown(cx):
    """a data type without a class is an error"""
    eng = cx.engine(STYPES, [SELECT, knows({})], GHOSTS)
    st = eng.start()
    self_ = eng.inst(st, 'self', AttributeSelector)
    ctx = eng.param(st, 'context', Inst(Request))
    cx.refine(eng, st, AttributeSelector.evaluate, refuse, [self_, ctx],
              cmp_value, sargs=[self_], frame=no_writes)


def foreign(cx):
    """only a request can be searched"""
    eng = cx.engine(STYPES, [SELECT, knows({})], GHOSTS)
    st = eng.start()
    self_ = eng.inst(st, 'self', AttributeSelector)
    ctx = own_or_other(eng, st, 'context', Request, 'other')
    cx.refine(eng, st, AttributeSelector.evaluate, refuse, [self_, ctx],
              cmp_value, sargs=[self_], frame=no_writes)


# ---- the XPath selector on the XML library
FOUND = SeqT(ANY, list)


def finder(path):
    """ETXPath(path): looks the path up below an element"""


def found(path, elem):
    """what the library finds, in document order; may fail"""


def found_call(eng, st, a):
    ts = [eng.lift(a[0]), eng.lift(a[1])]
    r = fn('FOUND:raises', Val, Val, B)(*ts)
    out = []
    for s, b in eng.branch(st, r):
        out.append((s, Raise(Exc(Exception, False))) if b else
                   (s, eng.ap(s, 'FOUND', ts, FOUND)))
    return out


def select_text(self, path):
    return found('.' + path if path.startswith('/') else path,
                 self.contextElem)


def selector(cx):
    E = XS_MODULE.ElementTree
    stypes = dict(STYPES)
    stypes[XS_MODULE.EtreeXPathSelector] = {'contextElem': ANY}
    eng = cx.engine(stypes, [], GHOSTS)
    eng.fcontracts[E.ETXPath] = lambda e, st, a, kw: [
        (st, Bound(Con(found), a[0]))]
    eng.fcontracts[found] = lambda e, st, a, kw: found_call(e, st, a)
    st = eng.start()
    self_ = eng.inst(st, 'self', XS_MODULE.EtreeXPathSelector)
    path = eng.param(st, 'path', STR)

    def text_of(eng, st, x, y):
        """the text of an element, the value of an attribute"""
        alts = []
        for s, v in eng.getattr_(st.copy(), y, 'text'):
            n = len(st.pc)
            if isinstance(v, Raise):
                v = eng.m_str(s, [y], {})[0][1]
            st.facts.extend(f for f in s.facts[len(st.facts):])
            alts.append(z3.And(s.pc[n:] + [eng.lift(x) == eng.lift(v)]))
        return z3.Or(alts)

    def compare(eng, st, code, spec):
        if isinstance(code, Raise) or isinstance(spec, Raise):
            return isinstance(code, Raise) and isinstance(spec, Raise)
        return seqeq(eng, st, seq_of(eng, st, code), eng.content(st, spec),
                     same=text_of)
    cx.refine(eng, st, XS_MODULE.EtreeXPathSelector.selectText, select_text,
              [self_, path], compare, frame=no_writes)


def targets(tier):
    out = []
    for n, (uri, ty) in DATATYPES.items():
        out.append(evaluate(CLASSES[n], uri, ty))
    out.append(evaluate(Registered, None, Native,
                        'AttributeSelector.evaluate of a data type added at '
                        'run time'))
    return out + [T('AttributeSelector.evaluate of an unknown type', unknown),
                  T('AttributeSelector.evaluate of no request', foreign),
                  T('EtreeXPathSelector.selectText', selector)]
