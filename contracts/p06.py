"""P06: PDP.evaluate and evaluateResponse."""
from .common import *           # noqa
from pyvc.verify import Target as T
from ndg.xacml.core.context.pdp import PDP
from ndg.xacml.core.context.response import Response


def spec_pdp(self, request):
    return decision_of(self.policy, request)


def spec_policy(self, request):
    return decision_of(self, request)


def cmp_response(eng, st, code, spec):
    """a new Response with exactly one new Result holding the decision"""
    if not isinstance(code, Ref) or st.heap[code.id].cls is not Response:
        return False
    outs = eng.getattr_(st.copy(), code, 'results')
    if len(outs) != 1 or isinstance(outs[0][1], Raise):
        return False
    lst = outs[0][1]
    if not isinstance(lst, Ref):
        return False
    items = eng.aslist(st.heap[lst.id].seq)
    if items is None or len(items) != 1:
        return False
    r = items[0]
    if not isinstance(r, Ref) or not issubclass(st.heap[r.id].cls, Result):
        return False
    outs = eng.getattr_(st.copy(), r, 'decision')
    if len(outs) != 1:
        return False
    return cmp_decision(eng, st, outs[0][1], spec)


def pdp(cx):
    eng = cx.engine(TYPES, [POLICY_EVALUATE], GHOSTS)
    st = eng.start()
    self_ = eng.inst(st, 'self', PDP)
    ctx = eng.param(st, 'request', Inst(Request))
    cx.refine(eng, st, PDP.evaluate, spec_pdp, [self_, ctx], cmp_response,
              frame=no_writes)


def resp(cls):
    def build(cx):
        eng = cx.engine(TYPES, [POLICY_EVALUATE], GHOSTS)
        st = eng.start()
        self_ = eng.inst(st, 'self', cls)
        ctx = eng.param(st, 'request', Inst(Request))
        cx.refine(eng, st, cls.evaluateResponse, spec_policy, [self_, ctx],
                  cmp_response, frame=no_writes)
    return T('%s.evaluateResponse' % cls.__name__, build)


def targets(tier):
    return [T('PDP.evaluate', pdp), resp(Policy), resp(PolicySet)]
