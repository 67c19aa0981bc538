"""Obligations and their discharge."""
import json
import os
import subprocess
import tempfile
import time

import z3

from .terms import *          # noqa
from . import source as S
from .engine import State, HObj, NeedLive
from .builtin import Builtins, MemoRestart
from .execu import Exec


class MergeRestart(Exception):
    """joined paths lost a value that is needed: run without joining"""


class CallContract(object):
    """Contract assumed at call sites of (cls and subclasses).method."""

    def __init__(self, cls, method, apply, guard=None):
        self.cls, self.method, self._apply = cls, method, apply
        self.guard = guard

    def apply(self, eng, st, recv, args, kw):
        return self._apply(eng, st, recv, args, kw)


class Obligation(object):
    def __init__(self, name, hyps, goal, axioms=(), info=None):
        self.name, self.hyps, self.goal = name, list(hyps), goal
        self.axioms = list(axioms)
        self.status, self.backend, self.time = None, None, 0.0
        self.info = info
        self.model = None


class Stats(object):
    def __init__(self):
        self.obls = []
        self.solver_time = 0.0


def smt2(ob):
    s = z3.Solver()
    s.add(ob.axioms)
    s.add(ob.hyps)
    s.add(z3.Not(ob.goal))
    return s.to_smt2()


def discharge(ob, budget=20.0, use_cvc5=True):
    t0 = time.time()
    g = z3.simplify(ob.goal)
    if z3.is_true(g):
        ob.status, ob.backend = 'proved', 'simplifier'
        return ob
    if z3.is_false(g):
        g = FALSE
    hy = []
    for h in ob.hyps:
        h2 = z3.simplify(h)
        if z3.is_false(h2):
            ob.status, ob.backend = 'proved', 'simplifier'
            return ob
        if not z3.is_true(h2):
            hy.append(h2)
    quant = any(_hasq(h) for h in hy) or _hasq(g)
    plans = [('z3', dict(mbqi=False), min(budget, 6))]
    if quant:
        plans.append(('z3', dict(mbqi=True), min(budget, 6)))
    ob.status = 'unknown'
    for be, opts, tmo in plans:
        s = z3.Solver()
        s.set('timeout', int(tmo * 1000))
        s.set('auto_config', False)
        for k, v in opts.items():
            s.set(k, v)
        s.add(ob.axioms)
        s.add(hy)
        s.add(z3.Not(g))
        r = s.check()
        if r == z3.unsat:
            ob.status, ob.backend = 'proved', 'z3' + (
                '(mbqi)' if opts.get('mbqi') else '')
            break
        if r == z3.sat and (opts.get('mbqi') or not quant):
            ob.status, ob.backend = 'refuted', 'z3'
            try:
                ob.model = s.model()
            except z3.Z3Exception:
                pass
            break
    if ob.status == 'unknown' and use_cvc5:
        r = cvc5_check(ob, budget)
        if r == 'unsat':
            ob.status, ob.backend = 'proved', 'cvc5'
        elif r == 'sat':
            ob.status, ob.backend = 'refuted', 'cvc5'
    if ob.status == 'refuted' and ob.info == 'sufficient':
        # the goal is a sufficient condition of the property only
        ob.status, ob.backend = 'unknown', ob.backend + ' (sufficient goal)'
    ob.time = time.time() - t0
    return ob


def _hasq(t, cache={}):
    todo, seen = [t], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            return True
        todo.extend(x.children())
    return False


def cvc5_check(ob, budget):
    txt = '(set-logic ALL)\n' + smt2(ob)
    try:
        p = subprocess.run(
            ['cvc5', '--lang=smt2', '--tlimit=%d' % int(budget * 1000),
             '--enum-inst', '-'], input=txt, capture_output=True, text=True,
            timeout=budget + 10)
    except (OSError, subprocess.TimeoutExpired):
        return 'unknown'
    o = p.stdout.strip().splitlines()
    return o[0] if o else 'unknown'


class Prover(Builtins):
    """Engine plus the entry points used by contracts."""

    def run(self, st, f, args, kw=None):
        """Execute the real body of f (its own contract is not used)."""
        saved = self.contracts
        try:
            outs = self.call_function(st, f, list(args), kw or {},
                                      nocontract=True)
        except NeedLive as e:
            if not self.nomerge:
                self.nomerge = True
                raise MergeRestart()
            raise
        finally:
            self.contracts = saved
        return outs

    def start(self):
        return State()

    def inst(self, st, name, cls, exact=True, **fields):
        """A symbolic instance parameter."""
        ty = Inst(cls, exact, **fields)
        return Sym(Val.vobj(z3.Int('%s' % name)), ty)

    def param(self, st, name, ty=ANY):
        k = ty.kind
        con = {'bool': (Val.vbool, B), 'int': (Val.vint, I),
               'str': (Val.vstr, I), 'flt': (Val.vflt, I),
               'inst': (Val.vobj, I)}.get(k)
        if con is None:
            v = Sym(z3.Const(name, Val), ty)
            self._optfacts(st, v)
            return v
        v = Sym(con[0](z3.Const(name, con[1])), ty)
        return self._strfacts(st, v)

    def merge(self, a, b):
        """hypotheses of two runs from the same start"""
        ids, out = set(), []
        for h in list(a.facts) + list(a.pc) + list(b.facts) + list(b.pc):
            if h.get_id() not in ids:
                ids.add(h.get_id())
                out.append(h)
        return out
