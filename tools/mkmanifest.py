"""Writes /verif/MANIFEST.json from the check modules that exist."""
import json, os, sys, importlib
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
sys.path.insert(0, V)
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    f = os.path.join(V, 'checks', p['id'].lower() + '.py')
    if not os.path.exists(f):
        na.append(dict(property=p['id'], reason='check not built yet'))
        continue
    m = importlib.import_module('checks.' + p['id'].lower())
    checks.append(dict(property=p['id'], quick_cmd='./check ' + p['id'], thorough_cmd='./check %s --thorough' % p['id'],
                       technique='bounded exhaustive exploration of the real code against a reference model',
                       level=getattr(m, 'LEVEL', 'model_checking'),
                       level_note='Holds for every trace of the space: ' + m.BOUNDS['quick'] + '. ' +
                       'Trusted: the plain-Python reference model, the interpreter and numpy.' +
                       (' Assumes: ' + '; '.join(m.ASSUMPTIONS) + '.' if getattr(m, 'ASSUMPTIONS', None) else '')))
man = dict(version=1, setup_cmd='./setup', checks=checks, not_applicable=na,
           notes='No hooks are needed in /repo: the environment (random draws, channels, detectors) is controlled from outside.')
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(man, f, indent=1); f.write('\n')
print(len(checks), 'checks;', len(na), 'not claimed')
