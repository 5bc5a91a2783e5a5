"""Writes MANIFEST.json."""
import json
LEVELS = {}
try:
    from contracts.levels import LEVELS  # noqa
except ImportError:
    pass
props = [json.loads(l) for l in open('properties.jsonl')]
NA = {'C25': 'whole-program import order in a fresh interpreter is not a postcondition of any function; no contract within reach '
             'expresses it (module loading, circular imports and partially initialised modules are outside the verified subset)'}
TECH = 'contract-based deductive verification of the real Python source (own VC generator, z3/cvc5); failing obligations replayed by running the executable specification on the real code'
checks = []
for p in props:
    if p['id'] in NA:
        continue
    lv, note = LEVELS.get(p['id'], ('other', 'bounded: executable specification evaluated on enumerated and random inputs; obligations not yet generated'))
    checks.append(dict(property=p['id'], quick_cmd='python3-vt check.py %s' % p['id'], thorough_cmd='python3-vt check.py %s' % p['id'],
                       technique=TECH, level=lv, level_note=note))
m = dict(version=1, setup_cmd='python3-vt -c "import z3" && /opt/venv/bin/python -c "import sys"', checks=checks,
         not_applicable=[dict(property=k, reason=v) for k, v in sorted(NA.items())],
         notes='See DESIGN.md. No hooks: the verifier reads the source of /repo as it is.')
json.dump(m, open('MANIFEST.json', 'w'), indent=1)
open('MANIFEST.json', 'a').write('\n')
