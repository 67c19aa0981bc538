"""P07: Target.match.

The specification is a triple of formulas (matches, does not match, some
match element fails); a returned True needs the first, False the second, and
an exception the third.  It does not prescribe an evaluation order."""
from .common import *           # noqa
from pyvc.verify import Target as T


def section_true(section, request):
    return either(no(some(lambda c: True, section)),
                  some(lambda c: every(lambda m: match_is(
                      m, request, 'true'), c.matches), section))


def section_false(section, request):
    return both(some(lambda c: True, section),
                every(lambda c: some(lambda m: match_is(
                    m, request, 'false'), c.matches), section))


def section_fails(section, request):
    return some(lambda c: some(lambda m: match_is(
        m, request, 'fails'), c.matches), section)


def target_matches(self, request):
    return (both(section_true(self.subjects, request),
                 section_true(self.resources, request),
                 section_true(self.actions, request),
                 section_true(self.environments, request)),
            either(section_false(self.subjects, request),
                   section_false(self.resources, request),
                   section_false(self.actions, request),
                   section_false(self.environments, request)),
            either(section_fails(self.subjects, request),
                   section_fails(self.resources, request),
                   section_fails(self.actions, request),
                   section_fails(self.environments, request)))


def compare(eng, st, code, spec):
    t, f, x = [zb(eng, st, i) for i in spec.items]
    if isinstance(code, Raise):
        return x
    code = eng.norm(st, code)
    if isinstance(code, Con) and isinstance(code.o, bool):
        return t if code.o else f
    if isinstance(code, Sym) and code.ty.kind == 'bool':
        return z3.If(eng.bt(code.t), t, f)
    return False


def build(cx):
    eng = cx.engine(TYPES, [MATCH_EVALUATE], GHOSTS)
    st = eng.start()
    self_ = eng.inst(st, 'self', Target)
    ctx = eng.param(st, 'request', Inst(Request))
    cx.refine(eng, st, Target.match, target_matches, [self_, ctx],
              compare, frame=no_writes)


def targets(tier):
    return [T('Target.match', build)]
