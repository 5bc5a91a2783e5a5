#!/usr/bin/env python3
"""check.py PROP: decide one property on /repo's current tree.

  1. The deductive verifier (pyvc) generates the obligations of every function and lemma under contract for PROP from
     the current source and discharges them.
  2. In parallel the executable form of the property is run against the real code (oracle/run.py): this is what
     replays a violation, and a bounded stand-in where no contract is discharged.

exit 0  every obligation was discharged (or is a known finding / labelled bounded) and no input failed
exit 1  VIOLATION property=PROP replay=FILE [no-failing-input-found]
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
PYPY = '/opt/venv/bin/python'
VT = '/opt/veriftools/pyvenv/bin/python3'
WORKERS = 3


def load(path, default=None):
    try:
        with open(path) as f:
            return json.load(f)
    except (OSError, ValueError):
        return default


def run_search(prop, seed, seconds, tmp, tag):
    procs = []
    for w in range(WORKERS):
        out = os.path.join(tmp, 'search-%s-%d.json' % (tag, w))
        err = open(out + '.err', 'w')
        procs.append((subprocess.Popen([PYPY, '-B', os.path.join(HERE, 'oracle', 'run.py'), 'search', prop, str(seed), str(w),
                                        str(WORKERS), str(seconds), out], stdout=err, stderr=err, cwd=tmp), out))
    return procs


def collect(procs, seconds):
    end = time.time() + seconds + 60
    res = []
    for p, out in procs:
        try:
            p.wait(max(1, end - time.time()))
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
        r = load(out)
        if r is None:
            err = open(out + '.err').read()[-3000:]
            r = dict(failure=dict(case=None, message='the search process ended without a result:\n' + err), enumerated=0,
                     random=0, distinct=0, enumeration_complete=False, samples=[])
        res.append(r)
    return res


def known_findings(prop):
    """Entries 'known: property=ID obligation-or-case=...' (none at present); 'fixed:' entries suppress nothing."""
    out = []
    with open(os.path.join(HERE, 'known-findings')) as f:
        for line in f:
            if line.startswith('known: property=%s ' % prop):
                out.append(line.split(' ', 2)[2].strip())
    return out


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    thorough = tier == 'thorough'
    t0 = time.time()
    manifest = load(os.path.join(HERE, 'MANIFEST.json'))
    entry = [c for c in manifest['checks'] if c['property'] == prop][0]
    tmp = tempfile.mkdtemp(prefix='segeval-check-')
    try:
        code = decide(prop, tier, seed, thorough, t0, entry, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.stdout.flush()
    sys.exit(code)


def decide(prop, tier, seed, thorough, t0, entry, tmp):
    seconds = 240 if thorough else 25
    vlimit = 700 if thorough else 560
    procs = run_search(prop, seed, seconds, tmp, 'a')
    vout = os.path.join(tmp, 'verify.json')
    verr = open(vout + '.err', 'w')
    env = dict(os.environ, PYVC_JOBS='5')
    v = subprocess.Popen([VT, '-B', os.path.join(HERE, 'pyvc', 'main.py'), 'check', prop, tier, vout], stdout=verr, stderr=verr,
                         cwd=tmp, env=env)
    runs = collect(procs, seconds)
    failure = next((r['failure'] for r in runs if r['failure']), None)
    try:
        v.wait(5 if failure else max(1, vlimit - (time.time() - t0)))
    except subprocess.TimeoutExpired:
        v.terminate()
        try:
            v.wait(5)
        except subprocess.TimeoutExpired:
            v.kill()
    ver = load(vout)
    if ver is None:
        ver = dict(units=[], error=open(vout + '.err').read()[-3000:] or 'the verifier was stopped', assumptions=[], trusted=[])
    failed, undecided = [], []
    nob = ndis = 0
    backends = {}
    solver = 0.0
    for u in ver['units']:
        for o in u['obligations']:
            nob += 1
            solver += o['time']
            if o['status'] == 'proved':
                ndis += 1
                backends[o['backend']] = backends.get(o['backend'], 0) + 1
            else:
                failed.append('%s: %s [%s]' % (u['name'], o['name'], o['status']))
        if u['status'] == 'unsupported':
            undecided.append('%s: %s' % (u['name'], u['detail']))
    # a failed obligation: look longer for an input that shows the failure on the real code
    if failed and not failure and not thorough:
        more = collect(run_search(prop, seed + 1000, 45, tmp, 'b'), 45)
        runs += more
        failure = next((r['failure'] for r in more if r['failure']), None)
    replays = os.path.join(HERE, 'replays')
    violation = None
    if failure or failed:
        os.makedirs(replays, exist_ok=True)
        path = os.path.join(replays, '%s.json' % prop)
        rec = dict(property=prop, failed_obligations=failed, undecided=undecided,
                   verifier_output=[dict(u, obligations=[o for o in u['obligations'] if o['status'] != 'proved'])
                                    for u in ver['units'] if u['status'] != 'proved'])
        if failure:
            rec.update(case=failure['case'], message=failure['message'],
                       replay_cmd='%s %s/oracle/run.py replay %s' % (PYPY, HERE, path))
            print('failing input: %s\n%s' % (failure['case'], failure['message']))
        for f in failed:
            print('failed obligation: %s' % f)
        with open(path, 'w') as f:
            json.dump(rec, f, indent=1)
        violation = 'VIOLATION property=%s replay=%s%s' % (prop, path, '' if failure else ' no-failing-input-found')
    for k in known_findings(prop):
        print('KNOWN-FINDING: property=%s %s' % (prop, k))
    proved_units = [u['name'] for u in ver['units'] if u['status'] == 'proved']
    complete = bool(nob) and nob == ndis and not undecided and not ver.get('error')
    level = entry['level'] if (entry['level'] != 'proof' or complete) else 'other'
    cases = sum(r['enumerated'] + r['random'] for r in runs)
    cov = dict(
        obligations=nob, discharged=ndis,
        checker_cmd='%s pyvc/main.py check %s %s OUT.json' % (VT, prop, tier),
        trusted_base=ver.get('trusted', []),
        functions_under_contract=sorted(set(u['function'] for u in ver['units'] if u.get('function'))),
        units=[dict(name=u['name'], status=u['status'], obligations=len(u['obligations']),
                    discharged=sum(o['status'] == 'proved' for o in u['obligations']),
                    seconds=round(u.get('seconds', 0), 2), detail=u.get('detail', ''))
               for u in ver['units']],
        backends=backends, solver_seconds=round(solver, 2),
        vacuity_guards=ver.get('guards', 0),
        not_decided_by_the_verifier=undecided + ([ver['error']] if ver.get('error') else []),
        bounded=ver.get('bounded', []),
        evaluations=cases,
        distinct=sum(r['distinct'] for r in runs),
        samples=[s for r in runs for s in r['samples']][:5],
        explanation='Deciding step: %d of %d obligations generated from the current source of /repo discharged (%d units proved). '
                    'Cross-check and replay, never counted as proof: %d cases of the executable property run against the real code '
                    '(%d enumerated, %d random; enumeration %s).'
                    % (ndis, nob, len(proved_units), cases, sum(r['enumerated'] for r in runs), sum(r['random'] for r in runs),
                       'complete' if all(r['enumeration_complete'] for r in runs) else 'cut by time'))
    ev = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov, assumptions=ver.get('assumptions', []),
              wall_s=round(time.time() - t0, 2), violations=1 if violation else 0)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', '%s.json' % prop), 'w') as f:
        json.dump(ev, f, indent=1)
    if violation:
        print(violation)
        return 1
    for u in undecided:
        print('not decided by the verifier (bounded cross-check only): %s' % u)
    print('%s: %d/%d obligations discharged, %d cases evaluated, no violation' % (prop, ndis, nob, cases))
    return 0


main()
