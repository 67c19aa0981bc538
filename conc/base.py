"""Concrete conformity harness: runs the real code from /repo on generated
inputs against an independent statement of the property.  It replays the
violations found by the verifier and is the bounded stand-in where the
verifier gives no answer; it never counts as proof."""
import ast
import glob
import importlib
import json
import os
import random
import sys
import time
import traceback

REPO = os.environ.get('PYVC_REPO', '/repo')
HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
if REPO not in sys.path:
    sys.path.insert(0, REPO)
import warnings
warnings.simplefilter('ignore')
import logging
logging.disable(logging.CRITICAL)


class Hints(object):
    """Literals occurring in the code under test: a change that singles out a
    particular value has to name it."""

    def __init__(self, files=None):
        strs, ints = set(), set()
        pats = files or ['ndg/xacml/**/*.py']
        for pat in pats:
            for p in glob.glob(os.path.join(REPO, pat), recursive=True):
                if '/test/' in p:
                    continue
                try:
                    t = ast.parse(open(p, encoding='utf-8').read())
                except SyntaxError:
                    continue
                docs = set()
                for n in ast.walk(t):
                    if isinstance(n, ast.Expr) and isinstance(
                            n.value, ast.Constant):
                        docs.add(id(n.value))
                for n in ast.walk(t):
                    if isinstance(n, ast.Constant) and id(n) not in docs:
                        if isinstance(n.value, str) and len(n.value) < 120:
                            strs.add(n.value)
                        elif type(n.value) is int and abs(n.value) < 10**6:
                            ints.add(n.value)
        self.strs = sorted(strs)
        self.ints = sorted(ints)
        s = set()
        for i in self.ints:
            for d in (-1, 0, 1):
                if 0 <= i + d <= 300:
                    s.add(i + d)
        self.sizes = sorted(s | set(range(0, 12)) | {16, 17, 33, 64, 65})


def run(prop, seed, tier, out, budget, maxviol=3):
    m = importlib.import_module(prop.lower())
    hints = Hints(getattr(m, 'FILES', None))
    rng = random.Random(seed)
    t0 = time.time()
    n, bad, samples = 0, [], []
    kinds = set()
    complete = True
    tag = 'KNOWN-FINDING: property=%s ' % prop
    with open(os.path.join(HERE, '..', 'known-findings.txt')) as f:
        known = set(l.strip()[len(tag):].split(' :: ')[0] for l in f
                    if l.startswith(tag))
    for case in m.gen(rng, hints, tier):
        if time.time() - t0 > budget:
            complete = False
            break
        n += 1
        if len(samples) < 3 or (n % 997 == 0 and len(samples) < 6):
            samples.append(case)
        kinds.add(json.dumps(case, sort_keys=True, default=str)
                  if n < 200000 else n)
        try:
            msg = m.check(case)
        except Exception:
            # the oracle or harness itself failed: that is not a verdict,
            # unless the module says an exception is a violation
            msg = 'HARNESS ' + traceback.format_exc()[-1500:]
        if msg:
            k = getattr(m, 'key', lambda c, m_: m_)(case, msg)
            if k in known and any(b['key'] == k for b in bad):
                continue
            bad.append(dict(case=case, message=msg, key=k))
            if len([b for b in bad if not b['message'].startswith('HARNESS')
                    and b['key'] not in known]) >= maxviol or len(bad) > 20:
                break
    r = dict(property=prop, evaluations=n, distinct=len(kinds), bad=bad,
             samples=samples, complete=complete,
             rule=getattr(m, 'RULE', ''), wall=round(time.time() - t0, 2))
    with open(out, 'w') as f:
        json.dump(r, f, default=str)


def replay(prop, path):
    m = importlib.import_module(prop.lower())
    d = json.load(open(path))
    if d.get('case') is None:
        print('no failing input recorded; see the failed obligation in', path)
        return 1
    msg = m.check(d['case'])
    print('REPRODUCED: ' + msg if msg else 'holds')
    return 1 if msg else 0


if __name__ == '__main__':
    sys.path.insert(0, HERE)
    if sys.argv[1] == '--replay':
        sys.exit(replay(sys.argv[2], sys.argv[3]))
    prop, seed, tier, out, budget = sys.argv[1:6]
    sys.path.insert(0, HERE)
    run(prop, int(seed), tier, out, float(budget))
