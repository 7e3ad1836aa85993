#!/usr/bin/env python3
"""Symbolic (and native) run of all contracts on the tree VERIF_REPO; prints those not proved. For trying edits."""
import os
import sys
import time

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
import check  # noqa: E402

vlib = check.load()
cfg = dict(check.TIERS['quick'])
names = sys.argv[1:] or list(vlib.HARNESSES)
tasks = [('sym', n, 1, cfg) for n in names if vlib.HARNESSES[n].opts.get('sym') is not False]
if not os.environ.get('NONATIVE'):
    tasks += [('nat', n, 1, cfg) for n in names]
ok = 0
for kind, n, r in check.parallel(tasks, time.time() + 7200):
    if kind == 'nat':
        if r.get('failure') or r.get('error'):
            print('NATIVE', n, r.get('error'), str(r.get('failure'))[:600])
        continue
    st = check.status_of(r)
    if st == 'proved':
        ok += 1
        continue
    print('SYM', n, st, r.get('error'), (r.get('trace') or '')[-500:] if 'internal' in str(r.get('error')) else '')
    for o in [o for o in r['oblig'] if o['status'] != 'proved'][:1]:
        print('     ', o['label'], o['status'], o['detail'][:700])
print('proved', ok, 'of', sum(1 for x in tasks if x[0] == 'sym'))
