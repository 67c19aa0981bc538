"""Verification targets: refinement of the real code against contracts."""
import copy
import json
import multiprocessing as mp
import os
import time
import traceback

import z3

from .terms import *          # noqa
from . import source as S
from .engine import NeedLive
from .builtin import MemoRestart
from .prove import MergeRestart, Prover, Obligation, discharge, smt2


class Result(object):
    """Plain (picklable) outcome of one target."""

    def __init__(self, name):
        self.name = name
        self.obls = []          # dicts
        self.undecided = None   # reason
        self.bounded = None     # result of the bounded re-run, if any
        self.assumptions = []
        self.inlined = []
        self.contracts = []
        self.time = 0.0
        self.stats = {}
        self.paths = 0
        self.vacuity = 0
        self.vacuous = None


class Target(object):
    """One unit of verification: a function (or lemma) with its contract."""

    def __init__(self, name, build, budget=20.0, wall=240.0, unroll=3):
        self.name, self.build = name, build
        self.budget, self.wall, self.unroll = budget, wall, unroll


class Ctx(object):
    """What a target's build function works with."""

    def __init__(self, target, memo=None, unroll=None):
        self.target = target
        self.obls = []
        self.engines = []
        self.nomerge = False
        self.force = frozenset()
        self.memo = memo if memo is not None else {}
        self.unroll = unroll
        self.paths = 0
        self.reach = []
        self.returns = []       # per contract: does it ever return?

    def engine(self, types=None, contracts=None, fcontracts=None):
        e = Prover(types or {}, list(contracts or []))
        if fcontracts:
            e.fcontracts.update(fcontracts)
        e.memo = self.memo
        e.nomerge = self.nomerge
        e.force_live = self.force
        e.unroll = self.unroll
        e.deadline = time.time() + self.target.wall
        self.engines.append(e)
        return e

    def oblige(self, name, hyps, goal, eng=None, info=None):
        self.obls.append(Obligation(
            '%s: %s' % (self.target.name, name), hyps, goal,
            axioms=eng.axioms if eng is not None else (), info=info))

    # --------------------------------------------------------------- refine
    def refine(self, eng, st, func, spec, args, compare, kw=None, label='',
               sargs=None, pre=None, frame=None):
        """Every outcome of func(*args) must be allowed by spec(*args):
        for each pair of paths, the path conditions imply compare(...).
        compare(eng, st, code_outcome, spec_outcome) -> z3 Bool | bool."""
        code = eng.run(st.copy(), func, args, kw)
        if callable(spec) and not isinstance(spec, (list, tuple)):
            sp = eng.call_function(st.copy(), spec,
                                   list(sargs if sargs is not None else args),
                                   {}, nocontract=True)
        else:
            sp = spec
        self.paths += len(code)
        if not code:
            raise Unsupported('no feasible path')
        if sp is not spec and getattr(spec, '__name__', '') != 'refuse':
            self.returns.append(any(not isinstance(o, Raise)
                                    for _, o in sp))
        for i, (cs, co) in enumerate(code):
            w = '%s @%s' % (self.where(co), i)
            if frame is not None:
                bad = frame(eng, cs, co)
                if bad:
                    self.oblige('%sframe of path %d (%s): %s' % (
                        label, i, self.outname(co), bad),
                        list(cs.facts) + list(cs.pc), FALSE, eng)
            pairs = []
            for j, (ss, so) in enumerate(sp):
                hyps = eng.merge(cs, ss)
                cs2 = cs.copy()
                n0 = len(cs2.facts)
                cs2.facts = list(hyps)
                cs2.pc = []
                n1 = len(cs2.facts)
                cs2.spec = ss
                r = compare(eng, cs2, co, so)
                if isinstance(r, bool):
                    r = z3.BoolVal(r)
                self.oblige('%spath %d (%s) against case %d (%s)' % (
                    label, i, self.outname(co), j, self.outname(so)),
                    hyps + cs2.facts[n1:], r, eng,
                    info='sufficient' if getattr(cs2, 'suff', False)
                    else None)
                pairs.append(hyps)
            self.reach.append(('%spath %d (%s)' % (label, i, self.outname(
                co)), pairs, eng.axioms, list(cs.facts) + list(cs.pc)))
        return code, sp

    def refine_any(self, eng, st, func, specs, args, compare, **kw):
        """refine against equivalent formulations of one contract: proved
        when all obligations for one of them are."""
        first = None
        for sp in specs:
            n, m, p = len(self.obls), len(self.reach), self.paths
            self.refine(eng, st, func, sp, args, compare, **kw)
            mine = self.obls[n:], self.reach[m:]
            first = first or mine
            for ob in mine[0]:
                discharge(ob, min(4.0, self.target.budget))
                if ob.status != 'proved':
                    break
            else:
                return
            del self.obls[n:]
            del self.reach[m:]
            self.paths = p
        self.obls.extend(first[0])
        self.reach.extend(first[1])

    def where(self, o):
        return getattr(o, 'line', None)

    def outname(self, o):
        if isinstance(o, Raise):
            return 'raises %s%s' % (o.exc.cls.__name__ if isinstance(
                o.exc, Exc) else '?', '' if o.line is None else
                ' @%s' % o.line)
        if isinstance(o, Con):
            return 'returns %s' % repr(o.o)[:60]
        return 'returns %s' % type(o).__name__


def _once(target, unroll=None):
    memo = {}
    nomerge = False
    force = frozenset()
    for attempt in range(12):
        cx = Ctx(target, memo, unroll)
        cx.nomerge, cx.force = nomerge, force
        try:
            target.build(cx)
            return cx
        except MemoRestart:
            continue
        except MergeRestart:
            nomerge = True
        except NeedLive as e:
            # a local first bound inside a loop and used after it
            if not nomerge:
                nomerge = True
                continue
            if e.loc[0] != 'env' or e.loc[2] in force:
                raise
            force = force | frozenset([e.loc[2]])
            nomerge = False
    raise Unsupported('memo tables do not stabilise')


def run_target(target, want_bounded=True, partial=None):
    r = Result(target.name)
    t0 = time.time()
    cx = None
    try:
        cx = _once(target)
    except Unsupported as e:
        r.undecided = str(e)[:400]
    except NeedLive as e:
        r.undecided = 'value lost by the loop abstraction: %r' % (e.loc,)
    except RecursionError:
        r.undecided = 'recursion too deep'
    except z3.Z3Exception as e:
        r.undecided = 'solver interface: %s' % str(e)[:200]
    except Exception as e:      # a defect of the verifier is not a verdict
        tb = traceback.format_exc().strip().splitlines()
        r.undecided = 'internal: %s' % ' | '.join(tb[-5:])[:700]
    if cx is not None:
        _discharge(cx, r, target)
    bad = r.undecided or any(o['status'] != 'proved' for o in r.obls)
    if bad and want_bounded and not os.environ.get('PYVC_NOBOUNDED'):
        if partial is not None:     # in case the next step takes too long
            r.time = time.time() - t0
            r.bounded = dict(unroll=target.unroll, status='undecided',
                             reason='time limit', obligations=0, failed=[])
            partial(copy.copy(r))
        r.bounded = _bounded(target)
    r.time = time.time() - t0
    return r


def _discharge(cx, r, target):
    t_end = time.time() + target.wall
    for ob in cx.obls:
        if time.time() > t_end and not z3.is_true(ob.goal):
            ob.status, ob.backend = 'unknown', 'wall clock'
        else:
            discharge(ob, target.budget)
        d = dict(name=ob.name, status=ob.status, backend=ob.backend,
                 time=round(ob.time, 4))
        if ob.status != 'proved':
            try:
                d['smt2'] = smt2(ob)[:200000]
            except Exception as e:
                d['smt2'] = str(e)
            if ob.model is not None:
                d['model'] = str(ob.model)[:20000]
        r.obls.append(d)
    # vacuity: the hypotheses of each path with some case are not
    # contradictory (a path none of whose pairs is satisfiable would have
    # its obligations discharged for the wrong reason)
    live = 0
    for nm, pairs, ax, own in cx.reach:
        ok = not pairs
        for h in pairs + [own]:
            s = z3.Solver()
            s.set('timeout', 1500)
            s.set('auto_config', False)
            s.set('mbqi', False)
            s.add(ax)
            s.add(h)
            if s.check() != z3.unsat:
                ok = h is not own or not pairs
                live += 1
                break
        else:
            ok = True            # an infeasible path
        r.vacuity += 1
        if not ok:
            r.vacuous = 'no specified case is compatible with ' + nm
    if cx.returns and not any(cx.returns):
        r.vacuous = 'the contract never returns'
    if cx.reach and not live:
        r.vacuous = 'contradictory hypotheses on every path'
    if not r.obls and not r.undecided:
        r.vacuous = 'no obligation generated'
    for e in cx.engines:
        r.assumptions = sorted(set(r.assumptions) | e.assumptions)
        r.inlined = sorted(set(r.inlined) | e.inlined)
        r.contracts = sorted(set(r.contracts) | e.used_contracts)
        for k, v in e.stats.items():
            r.stats[k] = r.stats.get(k, 0) + v
    r.paths = cx.paths


def _bounded(target):
    """Bounded symbolic re-run with loops unrolled; a stand-in, not a proof."""
    b = dict(unroll=target.unroll, status='undecided', reason=None,
             obligations=0, failed=[])
    try:
        cx = _once(target, unroll=target.unroll)
    except Exception as e:
        b['reason'] = '%s: %s' % (type(e).__name__, str(e)[:300])
        return b
    st = 'passed'
    t_end = time.time() + target.wall
    for ob in cx.obls:
        if time.time() > t_end:
            st = 'undecided'
            b['reason'] = 'time'
            break
        discharge(ob, target.budget)
        b['obligations'] += 1
        if ob.status == 'refuted':
            st = 'refuted'
            b['failed'].append(ob.name)
            break
        if ob.status != 'proved':
            st = 'undecided'
            b['reason'] = 'solver gave no answer on %s' % ob.name
    b['status'] = st
    return b


def _child(target, q, i):
    try:
        r = run_target(target, partial=lambda x: q.put((i, x, False)))
    except BaseException as e:
        r = Result(target.name)
        r.undecided = 'internal: %s' % e
    q.put((i, r, True))


def run_all(targets, jobs=8, wall=600.0, refuted=None, grace=60.0):
    """Verify every target in its own process. Once `refuted()` says that an
    input on which the code breaks the property is known, what is still being
    proved after `grace` seconds more is left."""
    res = [None] * len(targets)
    q = mp.Queue()
    todo = list(range(len(targets)))
    running = {}
    t_end = time.time() + wall
    why = 'time limit'
    while todo or running:
        if refuted is not None and refuted():
            refuted = None
            if time.time() + grace < t_end:
                t_end = time.time() + grace
                why = 'left: an input that breaks the property is known'
        while todo and len(running) < jobs:
            i = todo.pop(0)
            p = mp.Process(target=_child, args=(targets[i], q, i))
            p.start()
            running[i] = (p, time.time())
        try:
            i, r, last = q.get(timeout=0.2)
            res[i] = r
            if last:
                p, _ = running.pop(i)
                p.join(5)
        except Exception:
            pass
        for i, (p, t0) in list(running.items()):
            dead = not p.is_alive()
            if dead:
                try:
                    while True:
                        k, r, last = q.get(timeout=0.3)
                        res[k] = r
                        if last:
                            running.pop(k, None)
                except Exception:
                    pass
                if i in running:
                    running.pop(i)
                    if res[i] is None:
                        res[i] = Result(targets[i].name)
                        res[i].undecided = 'verifier process died'
            elif time.time() > t_end or \
                    time.time() - t0 > 3 * targets[i].wall:
                p.terminate()
                p.join(2)
                running.pop(i)
                if res[i] is None:
                    res[i] = Result(targets[i].name)
                    res[i].undecided = why
        if time.time() > t_end and todo:
            for i in todo:
                res[i] = Result(targets[i].name)
                res[i].undecided = why
            todo = []
    return res
