# Regenerates /verif/MANIFEST.json from harness/props.py and vc/contracts.
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from harness.props import PROPS
NA = {}
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i not in PROPS:
        na.append({'property': i, 'reason': NA.get(i, 'check under construction')})
        continue
    c = PROPS[i]
    proof = os.path.exists(os.path.join(HERE, 'vc', 'contracts', i + '.py'))
    level = c.get('level', 'proof' if proof else 'exploration')
    tech = c.get('technique', 'contracts on the real code discharged by SMT (weakest-precondition style VCs from the clang AST), replayed on the compiled code' if proof
                 else 'bounded stand-in: run-time evaluation of the contracts on the compiled code')
    note = c.get('note', 'Every obligation of the listed functions discharged for all inputs; the replay harness is a bounded stand-in for the rest.' if proof
                 else 'Bounded: contracts evaluated on generated inputs with an independent oracle; not a proof.')
    checks.append({'property': i, 'quick_cmd': f'python3 check.py {i}', 'thorough_cmd': f'VERIF_TIER=thorough python3 check.py {i}',
                   'evidence_file': f'evidence/{i}.json', 'technique': tech, 'level': level, 'level_note': note, **({'theorems': c['theorems']} if c.get('theorems') else {})})
json.dump({'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na,
           'notes': 'No hooks in /repo are needed: the verifier reads the clang AST of the shipped sources; contracts live in vc/contracts/*.py keyed by function signature.'},
          open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
