#!/usr/bin/env python3
"""Plant the bugs described in tools/seeds_def.py: each is validated in a scratch copy of /repo (the 216 stable tests
pass with it, its demonstration passes without it and fails with it) and written to seeded/<id>/."""
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from seeds_def import SEEDS  # noqa

ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', LC_ALL='C.UTF-8', PYTEST_DISABLE_PLUGIN_AUTOLOAD='1')
PY = '/opt/venv/bin/python'


def sh(cmd, cwd):
    return subprocess.run(cmd, cwd=cwd, env=ENV, capture_output=True, text=True)


def tests(cwd):
    r = sh([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--disable-warnings', '-o', 'python_files=*test.py', 'segeval'], cwd)
    return r.stdout.strip().split('\n')[-1]


def main(only):
    top = tempfile.mkdtemp(prefix='mkseed')
    copy = os.path.join(top, 'repo')
    subprocess.run(['cp', '-a', '/repo', copy], check=True)
    try:
        base = tests(copy)
        print('base:', base)
        for s in SEEDS:
            if only and s['id'] not in only:
                continue
            for f, old, new in s['edits']:
                p = os.path.join(copy, f)
                text = open(p).read()
                if text.count(old) != 1:
                    print(s['id'], 'edit matches', text.count(old), 'times:', repr(old))
                    break
                open(p, 'w').write(text.replace(old, new))
            else:
                diff = sh(['git', 'diff'], copy).stdout
                t = tests(copy)
                d = os.path.join(top, s['id'])
                os.mkdir(d)
                open(os.path.join(d, 'demo.py'), 'w').write(s['demo'].lstrip('\n'))
                open(os.path.join(d, 'demo.sh'), 'w').write('#!/bin/bash\n# run with cwd /repo\nexec env PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
                os.chmod(os.path.join(d, 'demo.sh'), 0o755)
                open(os.path.join(d, 'patch.diff'), 'w').write(diff)
                json.dump(dict(property=s['prop'], needs=s['needs'], what_it_breaks=s['breaks']), open(os.path.join(d, 'meta.json'), 'w'), indent=1)
                bad = sh(['bash', os.path.join(d, 'demo.sh')], copy)
                sh(['git', 'checkout', '--', '.'], copy)
                good = sh(['bash', os.path.join(d, 'demo.sh')], copy)
                ok = t.split(' in ')[0] == base.split(' in ')[0] and bad.returncode != 0 and good.returncode == 0
                print(s['id'], 'OK' if ok else 'REJECTED', '| tests:', t, '| demo with', bad.returncode, 'without', good.returncode,
                      '' if ok else (bad.stderr[-300:] + good.stderr[-600:]))
                if ok:
                    dest = os.path.join(VERIF, 'seeded', s['id'])
                    shutil.rmtree(dest, ignore_errors=True)
                    os.makedirs(os.path.dirname(dest), exist_ok=True)
                    shutil.copytree(d, dest)
                continue
            sh(['git', 'checkout', '--', '.'], copy)
    finally:
        shutil.rmtree(top, ignore_errors=True)


main(sys.argv[1:])
