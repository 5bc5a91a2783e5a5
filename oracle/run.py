"""Run-time evaluation of a property on the real package.

  run.py search PROP SEED WORKER WORKERS SECONDS OUT   write OUT (json) with counts and the first failing case
  run.py replay FILE                                   evaluate the failing case recorded in FILE again
"""
import ast
import json
import os
import random
import signal
import sys
import time
import traceback
import warnings
from decimal import Decimal

sys.dont_write_bytecode = True
warnings.simplefilter('ignore')
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.environ.get('SEGEVAL_REPO', '/repo'))
import checks  # noqa: E402

CASE_SECONDS = 20


def on_alarm(*_):
    raise checks.Hang()


def evaluate(prop, case):
    """None, or a message."""
    signal.alarm(CASE_SECONDS)
    try:
        return getattr(checks, 'check_' + prop)(case)
    except checks.Hang:
        return 'no result within %d s for case %r' % (CASE_SECONDS, case)
    except RecursionError:
        return 'recursion limit exceeded for case %r' % (case,)
    except Exception:
        return 'unexpected exception for case %r:\n%s' % (case, traceback.format_exc())
    finally:
        signal.alarm(0)


def search(prop, seed, worker, workers, seconds, out):
    rng = random.Random('%s/%s/%s' % (prop, seed, worker))
    ex = getattr(checks, 'ex_' + prop)()
    rnd = getattr(checks, 'rnd_' + prop)
    end = time.time() + seconds
    n_ex = n_rnd = 0
    exhausted = False
    samples = []
    seen = set()
    res = dict(prop=prop, worker=worker, failure=None)
    k = 0
    idx = -1
    while time.time() < end:
        k += 1
        case = None
        if not exhausted and k % 2:
            for c in ex:
                idx += 1
                if idx % workers == worker:
                    case = c
                    break
            if case is None:
                exhausted = True
                continue
            n_ex += 1
        else:
            case = rnd(rng)
            n_rnd += 1
        if len(seen) < 300000:
            seen.add(hash(repr(case)))
        if len(samples) < 3 and k in (3, 40, 41):
            samples.append(repr(case)[:300])
        msg = evaluate(prop, case)
        if msg:
            # try to confirm and to find a smaller failing case among a few quick ones
            best = (len(repr(case)), case, msg)
            t = time.time() + min(5, seconds)
            while time.time() < t:
                c = rnd(rng)
                if len(repr(c)) < best[0]:
                    m = evaluate(prop, c)
                    if m:
                        best = (len(repr(c)), c, m)
            res['failure'] = dict(case=repr(best[1]), message=best[2][:4000])
            break
    res.update(enumerated=n_ex, random=n_rnd, enumeration_complete=exhausted, distinct=len(seen), samples=samples)
    with open(out, 'w') as f:
        json.dump(res, f)


def main():
    signal.signal(signal.SIGALRM, on_alarm)
    if sys.argv[1] == 'search':
        prop, seed, w, ws, secs, out = sys.argv[2:8]
        search(prop, seed, int(w), int(ws), float(secs), out)
    else:
        with open(sys.argv[2]) as f:
            rec = json.load(f)
        case = eval(rec['case'], {'Decimal': Decimal, '__builtins__': {'set': set, 'frozenset': frozenset}})
        msg = evaluate(rec['property'], case)
        print(msg or 'the property holds on the recorded case')
        sys.exit(1 if msg else 0)


main()
