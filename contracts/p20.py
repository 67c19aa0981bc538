"""P20: the frame of every function that takes part in an evaluation.

Each function is run symbolically under the same assumptions as in the
contract of the property that specifies its result (P01..P14), and on every
path, whether it returns or raises, the set of locations it writes outside the
objects it allocated itself has to be empty.  A callee appears by its contract,
whose own frame is another obligation of this property."""
import importlib
from .common import *           # noqa
from pyvc.verify import Target as T

FROM = ('p01', 'p02', 'p04', 'p05', 'p06', 'p07', 'p08', 'p09', 'p10', 'p11',
        'p12', 'p13', 'p14')


class Frames(object):
    """records the frame of the function under contract and nothing else"""

    def __init__(self, cx):
        self.cx = cx

    def __getattr__(self, name):
        return getattr(self.cx, name)

    def refine(self, eng, st, func, spec, args, compare, kw=None, label='',
               sargs=None, pre=None, frame=None):
        cx = self.cx
        code = eng.run(st.copy(), func, args, kw)
        cx.paths += len(code)
        for i, (s, r) in enumerate(code):
            h = list(s.facts) + list(s.pc)
            bad = no_writes(eng, s, r)
            cx.oblige('%spath %d (%s) %s' % (
                label, i, cx.outname(r), 'writes ' + bad if bad else
                'writes nothing that existed before'), h,
                z3.BoolVal(not bad), eng)
            cx.reach.append(('%spath %d' % (label, i), [], eng.axioms, h))
        return code, []

    def refine_any(self, eng, st, func, specs, args, compare, **kw):
        self.refine(eng, st, func, None, args, compare, **kw)

    def oblige(self, *a, **kw):
        pass


def framed(mod, t):
    def build(cx):
        t.build(Frames(cx))
    return T('%s: frame of %s' % (mod.upper(), t.name), build)


def targets(tier):
    out = []
    for n in FROM:
        m = importlib.import_module('contracts.' + n)
        out += [framed(n, t) for t in m.targets(tier)
                if not t.name.endswith(' = value')]
    return out
