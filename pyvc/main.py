"""main.py check PROP TIER OUT.json | unit NAME [-v] | list"""
import importlib
import json
import multiprocessing
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
if os.environ.get('PYTHONHASHSEED') != '0':     # the same order of hypotheses in every run
    os.execve(sys.executable, [sys.executable] + sys.orig_argv[1:], dict(os.environ, PYTHONHASHSEED='0'))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(os.path.dirname(HERE), 'contracts'))
sys.setrecursionlimit(20000)
import logic  # noqa: E402
import contract  # noqa: E402

MODULES = [m[:-3] for m in sorted(os.listdir(os.path.join(os.path.dirname(HERE), 'contracts'))) if m[0] == 'c' and m.endswith('.py') and m[1].isdigit()]
for m in MODULES:
    importlib.import_module(m)
try:
    import plan
except ImportError:
    plan = None


def run(name):
    logic.USED.clear()
    u = contract.UNITS[name]
    try:
        r = u.verify(contract.CASES)
    except Exception:
        import traceback
        r = dict(name=name, function=getattr(u, 'fn', ''), obligations=[], status='unsupported', detail='error of the verifier: ' + traceback.format_exc()[-1500:], uses=[], guards=0, seconds=0)
    r['trusted'] = bool(getattr(u, 'trusted', False) or getattr(u, 'opaque', False))
    return r


def child(name, conn, scale=1):
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    u = contract.UNITS[name]
    u.houdini_ms *= scale
    u.timeout_ms *= scale
    conn.send(run(name))
    conn.close()


def run_all(names, jobs, limit, partial=None):
    """Runs the units and every contract and lemma they use."""
    todo = list(dict.fromkeys(names))
    seen = set(todo)
    active = {}
    done = {}
    retried = {}     # a unit with an undischarged obligation is tried once more with three times the solver budget
    end = time.time() + limit
    while todo or active:
        while todo and len(active) < jobs:
            n = todo.pop(0)
            u = contract.UNITS[n]
            if getattr(u, 'opaque', False) or getattr(u, 'trusted', False):
                done[n] = dict(name=n, function=getattr(u, 'fn', ''), obligations=[], status='assumed', detail='assumed contract', uses=[], guards=0, seconds=0, trusted=True)
                continue
            a, b = multiprocessing.Pipe()
            p = multiprocessing.Process(target=child, args=(n, b, 3 if n in retried else 1))
            p.start()
            b.close()
            active[n] = (p, a, time.time())
        time.sleep(0.01)
        for n, (p, conn, t) in list(active.items()):
            r = None
            if conn.poll():
                try:
                    r = conn.recv()
                except EOFError:
                    r = None
                p.join()
            elif not p.is_alive():
                p.join()
            elif time.time() < end:
                continue
            else:
                p.terminate()
                p.join()
            del active[n]
            if r is None:
                r = retried.get(n) or dict(name=n, function=getattr(contract.UNITS[n], 'fn', ''), obligations=[], status='unsupported', detail='stopped (time or memory)', uses=[], guards=0, seconds=time.time() - t)
            if r['status'] == 'failed' and n not in retried and time.time() < end - 60 and not os.environ.get('PYVC_ONCE'):
                retried[n] = r
                todo.insert(0, n)
                continue
            done[n] = r
            for x in r['uses']:
                if x in contract.UNITS and x not in seen:
                    seen.add(x)
                    todo.append(x)
            if partial:
                partial(done)
    return [done[n] for n in seen if n in done]


def main():
    if sys.argv[1] == 'unit':
        for n in contract.UNITS:
            if any(q == n or (q.endswith('*') and n.startswith(q[:-1])) for q in sys.argv[2:]):
                r = run(n)
                print(r['name'], r['status'], r['detail'], '%.1fs' % r.get('seconds', 0), '%d obligations' % len(r['obligations']), 'uses', r['uses'], r.get('notes'))
                for o in r['obligations']:
                    if o['status'] != 'proved' or '-v' in sys.argv:
                        print('   ', o['status'], o['backend'], o['time'], o['name'])
                        if o['status'] != 'proved':
                            print('        goal:', o.get('goal'))
                            if '-v' in sys.argv:
                                for h in o.get('hyps', []):
                                    print('        hyp:', h.replace('\n', ' '))
        return
    if sys.argv[1] == 'list':
        for n, u in contract.UNITS.items():
            print(n)
        return
    if sys.argv[1] == 'all':
        t = time.time()
        for r in run_all(list(contract.UNITS), int(os.environ.get('PYVC_JOBS', '7')), 900):
            bad = [o['name'] for o in r['obligations'] if o['status'] != 'proved']
            print('%-60s %-11s %3d obligations %6.1fs %s %s' % (r['name'], r['status'], len(r['obligations']), r.get('seconds', 0), r['detail'][:300], bad[:3]))
        print('%.1fs' % (time.time() - t))
        return
    prop, tier, out = sys.argv[2:5]
    p = plan.PLAN.get(prop, dict(units=[]))
    units = [n for q in p['units'] for n in contract.UNITS if q == n or q.endswith('*') and n.startswith(q[:-1])]
    res = run_all(units, int(os.environ.get('PYVC_JOBS', '5')), 480 if tier == 'quick' else 640)
    trusted = list(plan.TRUSTED)
    trusted += ['assumed: ' + r['name'] for r in res if r['status'] == 'assumed']
    json.dump(dict(units=res, assumptions=plan.ASSUMPTIONS + p.get('assumptions', []), trusted=trusted, bounded=p.get('bounded', []),
                   guards=sum(r['guards'] for r in res)), open(out, 'w'), default=str)


if __name__ == '__main__':
    main()
