#!/usr/bin/env python3
"""Run checks against planted bugs in scratch copies: catch.py [seed ids...] (default: all of seeded/); -p Cxx overrides the property."""
import concurrent.futures
import json
import os
import shutil
import subprocess
import sys

args = sys.argv[1:]
props = []
while '-p' in args:
    i = args.index('-p')
    props.append(args[i + 1])
    del args[i:i + 2]
ids = args or sorted(os.listdir('/verif/seeded'))


def one(sid, prop):
    d = '/tmp/catch-%s-%s' % (sid, prop)
    shutil.rmtree(d, ignore_errors=True)
    subprocess.run(['cp', '-a', '/repo', d], check=True)
    subprocess.run('git checkout -q -- . && git apply /verif/seeded/%s/patch.diff' % sid, shell=True, cwd=d, check=True)
    r = subprocess.run(['python3-vt', 'check.py', prop], cwd='/verif', capture_output=True, text=True,
                       env=dict(os.environ, VERIF_REPO=d, VERIF_EVIDENCE=d + '/evidence', VERIF_SEED='1', VERIF_TIER='quick'))
    shutil.rmtree(d, ignore_errors=True)
    v = [x for x in r.stdout.splitlines() if x.startswith('VIOLATION')]
    full = [x for x in v if not x.endswith('no-failing-input-found')]
    return sid, prop, r.returncode, len(full), len(v) - len(full), [x for x in r.stdout.splitlines() if x.startswith('---')][:1]


with concurrent.futures.ThreadPoolExecutor(2) as ex:
    fs = []
    for sid in ids:
        meta = json.load(open('/verif/seeded/%s/meta.json' % sid))
        for p in props or [meta['property']]:
            fs.append(ex.submit(one, sid, p))
    for f in fs:
        sid, prop, rc, full, nofail, first = f.result()
        print('%-26s %s %s rc=%d inputs=%d obligations-only=%d %s' % (sid, prop, 'CAUGHT' if rc == 1 else 'MISSED', rc, full, nofail, first), flush=True)
