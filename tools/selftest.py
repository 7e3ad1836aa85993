#!/usr/bin/env python3
"""Test of the verifier: statements of tools/claims.py that are false must not be proved; true ones should be."""
import os
import sys
import time

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check  # noqa: E402

vlib = check.load()
vlib.HARNESSES.clear()
import claims  # noqa: E402,F401

cfg = dict(check.TIERS['quick'])
names = [n for n in sys.argv[1:] if not n.startswith('-')] or list(vlib.HARNESSES)
tasks = [('sym', n, 1, cfg) for n in names] + [('nat', n, 1, cfg) for n in names]
res = {}
for kind, n, r in check.parallel(tasks, time.time() + 3600):
    res.setdefault(n, {})[kind] = r
bad = 0
for n in names:
    r = res.get(n, {})
    want = vlib.HARNESSES[n].props[0]
    nat, sym = r.get('nat', {}), r.get('sym', {})
    st = check.status_of(sym) if sym else 'none'
    failed = bool(nat.get('failure'))
    err = str(sym.get('error') or '')
    if want == 'FALSE' and st == 'proved':
        bad += 1
        print('UNSOUND', n)
    elif want == 'TRUE' and st == 'refuted':
        print('WRONG REFUTATION', n)
        bad += 1
    elif want == 'TRUE' and st != 'proved':
        print('weak', n, st, err[:150])
    if 'internal' in err:
        print('INTERNAL', n, err[:200], (sym.get('trace') or '')[-400:])
    if failed != (want == 'FALSE'):
        print('claim?', n, want, 'native', 'fails' if failed else 'holds', nat.get('error'))
print('%d claims, %d bad' % (len(names), bad))
sys.exit(1 if bad else 0)
