#!/usr/bin/env python3
"""Write MANIFEST.json for the properties that have contracts."""
import json
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
import contracts  # noqa: E402
import vlib  # noqa: E402

contracts.load()
NOTES = {}
ids = [json.loads(line)['id'] for line in open('/verif/properties.jsonl')]
checks, na = [], []
for pid in ids:
    hs = [h for h in vlib.HARNESSES.values() if pid in h.props]
    if not hs:
        na.append({'property': pid, 'reason': 'contracts not written yet'})
        continue
    checks.append({
        'property': pid,
        'quick_cmd': 'python3-vt check.py ' + pid,
        'thorough_cmd': 'VERIF_TIER=thorough python3-vt check.py ' + pid,
        'evidence_file': 'evidence/%s.json' % pid,
        'technique': 'contract-based deductive verification (symbolic execution of the real source to VCs, z3); failing inputs by executing the same contracts',
        'level': 'proof',
        'level_note': NOTES.get(pid, 'Pre/postcondition contracts on the real functions, proved for all inputs of their domains (arbitrary-length lists, arbitrary strings) '
                      'by pyvc + z3 from the current source; the evidence file lists any contract that is only executed on generated inputs (bounded). '
                      'Trusted: pyvc (own VC generator with models of Python built-ins), z3.'),
        'theorems': sorted(h.name for h in hs if h.opts.get('sym') is not False),
    })
json.dump({'version': 1, 'setup_cmd': 'python3-vt -c "import z3"', 'checks': checks, 'not_applicable': na,
           'notes': 'See DESIGN.md. Contracts: contracts/*.py; verifier: pyvc/; driver: check.py.'}, open('/verif/MANIFEST.json', 'w'), indent=1)
