"""writes MANIFEST.json from the props modules and properties.jsonl"""
import importlib, json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
checks, na = [], []
for l in open(ROOT + '/properties.jsonl'):
    p = json.loads(l)['id']
    try:
        m = importlib.import_module('props.' + p)
    except ModuleNotFoundError:
        na.append({'property': p, 'reason': 'no check built yet'})
        continue
    if getattr(m, 'NA', None):
        na.append({'property': p, 'reason': m.NA})
        continue
    proved = hasattr(m, 'prove')
    checks.append({'property': p, 'quick_cmd': 'python3-vt check.py %s quick' % p, 'thorough_cmd': 'python3-vt check.py %s thorough' % p,
        'technique': getattr(m, 'TECH', 'deductive verification: contracts on the real functions, verification conditions from clang IR, normal-form and SMT discharge' if proved else 'bounded check of the compiled functions against the executable contract (not proved)'),
        'level': m.LEVEL if proved else 'exploration',
        'level_note': getattr(m, 'NOTE', '')  or ('All obligations discharged for all inputs; trusts the VC generator in dv/, clang and z3.' if proved else 'Bounded: the executable specification is compared with the compiled code on random and boundary cases.')})
d = {'version': 1, 'setup_cmd': 'python3-vt -c "import sys; sys.path.insert(0, \'.\'); import dv.run, dv.exec, z3"', 'checks': checks, 'not_applicable': na,
     'notes': 'See DESIGN.md. All checks extract clang IR from /repo sources on every run; no hooks are needed in /repo.'}
json.dump(d, open(ROOT + '/MANIFEST.json', 'w'), indent=1, ensure_ascii=False)
print(len(checks), 'checks', len(na), 'not claimed')
