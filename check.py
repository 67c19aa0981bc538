#!/usr/bin/env python3-vt
"""check.py P01 [--tier quick|thorough]: decide one property on /repo."""
import argparse
import importlib
import json
import os
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
import warnings
warnings.simplefilter('ignore')

REALPY = '/opt/venv/bin/python'

TRUSTED = [
    'pyvc (this directory): symbolic execution of the Python subset, its loop '
    'rule and its models of builtins (list, dict, set, str, re, isinstance, '
    'getattr ...)',
    'z3 5.3.2 and cvc5 1.1.2',
    'CPython 3.12 semantics as modelled; logging and traceback calls have no '
    'effect on results; exception constructors and object formatting '
    'terminate normally',
    'exceptions outside Exception (KeyboardInterrupt, MemoryError, recursion '
    'limit) are not modelled; termination is not proved',
    'closed world: the classes loaded from /repo are the only ones; objects '
    'reachable from policies and requests are not changed concurrently',
]


def known(prop):
    out = []
    p = os.path.join(HERE, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            tag = 'KNOWN-FINDING: property=%s ' % prop
            if l.startswith(tag):
                out.append(l[len(tag):])
    return out


def start_conc(prop, seed, tier, budget):
    mod = os.path.join(HERE, 'conc', prop.lower() + '.py')
    if not os.path.exists(mod):
        return None
    out = tempfile.mktemp(prefix='conc-%s-' % prop, suffix='.json')
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')
    env.pop('PYTHONPATH', None)
    p = subprocess.Popen(
        [REALPY, os.path.join(HERE, 'conc', 'base.py'), prop, str(seed), tier,
         out, str(budget)], env=env, cwd=tempfile.gettempdir(),
        stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True)
    return p, out, budget


def end_conc(h):
    if h is None:
        return None
    p, out, budget = h
    try:
        _, err = p.communicate(timeout=budget * 2 + 60)
    except subprocess.TimeoutExpired:
        p.kill()
        p.communicate()
        return dict(error='concrete harness did not finish (the code under '
                          'test may not terminate)', hang=True)
    if p.returncode != 0 or not os.path.exists(out):
        return dict(error='concrete harness failed: ' + (err or '')[-1500:])
    d = json.load(open(out))
    os.unlink(out)
    return d


def has_failing(h, prop):
    """The concrete harness has ended and found an input, not listed, on
    which the property does not hold."""
    if h is None or h[0].poll() is None or h[0].returncode != 0:
        return False
    try:
        with open(h[1]) as f:
            d = json.load(f)
    except (OSError, ValueError):
        return False
    listed = [x.split(' :: ')[0] for x in known(prop)]
    return any(not b['message'].startswith('HARNESS') and
               b['key'] not in listed for b in d.get('bad') or ())


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int,
                    default=int(os.environ.get('VERIF_SEED', '1')))
    ap.add_argument('--jobs', type=int, default=8)
    ap.add_argument('--no-conc', action='store_true')
    ap.add_argument('--selfcheck', action='store_true')
    a = ap.parse_args()
    if a.selfcheck:
        import z3
        ok = os.path.exists(REALPY)
        print('z3', z3.get_version_string(), 'interpreter', REALPY, ok)
        return 0 if ok else 1
    prop, t0 = a.prop, time.time()
    ev = os.path.join(HERE, 'evidence')
    os.makedirs(os.path.join(ev, 'replay'), exist_ok=True)

    conc = None if a.no_conc else start_conc(
        prop, a.seed, a.tier, 45 if a.tier == 'quick' else 300)

    results, load_error = [], None
    try:
        from pyvc import verify
        m = importlib.import_module('contracts.' + prop.lower())
        targets = m.targets(a.tier)
        if a.tier == 'thorough':
            for t in targets:
                t.budget *= 3
                t.wall *= 2
                t.unroll += 1
        results = verify.run_all(targets, a.jobs,
                                 wall=600 if a.tier == 'quick' else 780,
                                 refuted=lambda: has_failing(conc, prop))
    except Exception as e:
        import traceback
        load_error = traceback.format_exc()[-2000:]
    c = end_conc(conc)

    obls = [o for r in results for o in r.obls]
    proved = [o for o in obls if o['status'] == 'proved']
    refuted = [(r, o) for r in results for o in r.obls
               if o['status'] == 'refuted']
    lines, viol = [], 0
    kf = known(prop)
    used = set()

    def vio(name, data, tail=''):
        nonlocal viol
        viol += 1
        p = os.path.join(ev, 'replay', '%s-%s.json' % (prop, name))
        with open(p, 'w') as f:
            json.dump(data, f, indent=1, default=str)
        lines.append('VIOLATION property=%s replay=%s%s' % (
            prop, p, (' ' + tail) if tail else ''))

    harness_errors = []
    failing = []
    if c and c.get('bad'):
        for b in c['bad']:
            if b['message'].startswith('HARNESS'):
                harness_errors.append(b)
                continue
            k = [x for x in kf if x.split(' :: ')[0] == b['key']]
            if k:
                used.add(k[0])
                continue
            failing.append(b)
    for x in sorted(used):
        lines.append('KNOWN-FINDING: property=%s %s' % (prop, x))
    for i, b in enumerate(failing[:2]):
        vio('input%d' % i, dict(
            property=prop, case=b['case'], message=b['message'],
            replay_cmd='%s %s/conc/base.py --replay %s <this file>' % (
                REALPY, HERE, prop),
            failed_obligations=[o['name'] for r, o in refuted][:20]))
        print('violated on a concrete input:', b['message'][:400])
    if c and c.get('hang') and not failing:
        vio('hang', dict(property=prop, case=None, message=c['error']),
            'no-failing-input-found')

    undecided, weak = [], []
    if load_error:
        undecided.append('contracts could not be loaded: ' + load_error)
    for r in results:
        if r.undecided:
            undecided.append('%s: %s [bounded stand-in: %s]' % (
                r.name, r.undecided, (r.bounded or {}).get('status')))
        un = [o['name'] for o in r.obls if o['status'] == 'unknown']
        if un:
            undecided.append('%s: %d obligations without an answer, e.g. %s '
                             '[bounded stand-in: %s]' % (
                                 r.name, len(un), un[0],
                                 (r.bounded or {}).get('status')))
        if r.vacuous:
            undecided.append('%s: %s' % (r.name, r.vacuous))
    seen = set()
    for r in results:
        ref = [o for o in r.obls if o['status'] == 'refuted']
        bst = (r.bounded or {}).get('status')
        if (ref and bst != 'passed') or bst == 'refuted':
            if failing or r.name in seen:
                continue
            seen.add(r.name)
            o = ref[0] if ref else dict(name=r.bounded['failed'][0])
            print('failed obligation:', o['name'])
            vio('obligation-' + ''.join(ch if ch.isalnum() else '_'
                                        for ch in r.name)[:60],
                dict(property=prop, case=None, obligation=o['name'],
                     all_failed=[x['name'] for x in ref],
                     verifier_output=o.get('model'), smt2=o.get('smt2'),
                     bounded=r.bounded), 'no-failing-input-found')
        elif ref:
            weak.append('%s: %s' % (r.name, ref[0]['name']))
            undecided.append(
                '%s: obligation not discharged (%s) but no counterexample '
                'with the loops unrolled and none found on the real code: '
                'loop abstraction too weak' % (r.name, ref[0]['name']))

    for u in undecided:
        print('UNDECIDED', u[:600])
    if c and c.get('error'):
        print('NOTE', c['error'][:1500])
    for b in harness_errors[:2]:
        print('NOTE harness:', b['message'][:1500], json.dumps(
            b['case'], default=str)[:300])

    discharged_all = bool(results) and not undecided and not refuted and \
        len(proved) == len(obls) and len(obls) > 0
    level = 'proof' if discharged_all else 'other'
    be = {}
    for o in proved:
        be[o['backend']] = be.get(o['backend'], 0) + 1
    assumptions = sorted(set(x for r in results for x in r.assumptions))
    called = sorted(set(x for r in results for x in r.contracts))
    cov = dict(
        obligations=len(obls), discharged=len(proved),
        checker_cmd='python3-vt %s/check.py %s --tier %s' % (HERE, prop,
                                                             a.tier),
        trusted_base=TRUSTED,
        back_ends=be,
        solver_time_s=round(sum(o['time'] for o in obls) + sum(
            r.stats.get('feas_time', 0) for r in results), 2),
        path_feasibility_queries=sum(r.stats.get('feas', 0)
                                     for r in results),
        loops_summarised=sum(r.stats.get('loops', 0) for r in results),
        code_paths=sum(r.paths for r in results),
        functions_under_contract=[r.name for r in results],
        functions_inlined=sorted(set(x for r in results
                                     for x in r.inlined)),
        contracts_assumed_at_calls=called,
        undecided=undecided,
        bounded=[dict(target=r.name, **r.bounded) for r in results
                 if r.bounded],
        vacuity_checks=sum(r.vacuity for r in results),
        explanation='every obligation generated from the current source is '
                    'discharged' if discharged_all else
                    'not every obligation was discharged on this run; what '
                    'is listed as undecided was covered by bounded checks '
                    'only')
    if c:
        cov['bounded_concrete'] = {k: c.get(k) for k in (
            'evaluations', 'distinct', 'rule', 'complete', 'wall', 'error')}
        cov['evaluations'] = c.get('evaluations', 0)
        cov['distinct_nontrivial'] = c.get('distinct', 0)
        cov['rule'] = c.get('rule') or ''
        cov['samples'] = c.get('samples') or []
    doc = dict(property=prop, tier=a.tier, seed=a.seed, level=level,
               coverage=cov, assumptions=assumptions + [
                   'contract assumed at call sites (proved by its own '
                   'check): ' + x for x in called],
               wall_s=round(time.time() - t0, 2), violations=viol)
    with open(os.path.join(ev, prop + '.json'), 'w') as f:
        json.dump(doc, f, indent=1, default=str)
    print('%s: %d/%d obligations discharged over %d functions, %d concrete '
          'cases, %.1fs' % (prop, len(proved), len(obls), len(results),
                            (c or {}).get('evaluations', 0),
                            time.time() - t0))
    for l in lines:
        print(l)
    return 1 if viol else 0


if __name__ == '__main__':
    sys.exit(main())
