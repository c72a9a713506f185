"""Writes MANIFEST.json from the harness modules that exist."""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
NA = {}
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(V, 'harness', i + '.py')):
        checks.append({
            'property': i, 'quick_cmd': './check %s quick' % i, 'thorough_cmd': './check %s thorough' % i,
            'evidence_file': 'evidence/%s.json' % i,
            'technique': 'bounded symbolic execution of the real Python source (path-wise re-execution, SMT-decided branches and assertions, z3)',
            'level': 'model_checking',
            'level_note': 'Every path of the real code within the stated bounds is executed with symbolic inputs; z3 decides each branch and each '
                          'assertion for all values on that path; counterexamples are replayed on the unmodified code before being reported. '
                          'Trusted: the symbolic runtime (symx/), z3, CPython and networkx as executed; floats are modelled as exact rationals.'})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'check not built yet')})
m = {'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na,
     'hooks': {'guard': 'PYNTM_VERIF (unused: the checks instrument the source when loading it, /repo carries no hooks)',
               'enable': 'nothing to enable', 'source_commits': []},
     'notes': 'The checks read /repo/pyNTM/*.py on every run and execute it symbolically from a transformed AST; nothing is built.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not claimed')
