#!/usr/bin/env python3
"""Make seeded/<id> from a spec: seed.py SPEC.py [id...]; validates in a scratch copy of /repo (built, tests, demo both ways).

SPEC.py defines SEEDS = [dict(id, prop, edits=[(file, old, new)...], demo=python source, needs, breaks)].
"""
import json
import os
import runpy
import shutil
import subprocess
import sys

SCRATCH = '/tmp/seed-scratch'
OUT = '/verif/seeded'
STABLE = json.load(open('/opt/vp/BASELINE.json'))


def sh(cmd, cwd=None, **kw):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, **kw)


def tests_ok():
    r = sh('/opt/venv/bin/python -m pytest -q -x -p no:cacheprovider 2>&1 | tail -5', cwd=SCRATCH)
    return ' passed' in r.stdout and 'failed' not in r.stdout and 'error' not in r.stdout, r.stdout


def main():
    seeds = runpy.run_path(sys.argv[1])['SEEDS']
    want = set(sys.argv[2:])
    for s in seeds:
        if want and s['id'] not in want:
            continue
        shutil.rmtree(SCRATCH, ignore_errors=True)
        sh('cp -a /repo %s' % SCRATCH)
        sh('git checkout -q -- .', cwd=SCRATCH)
        ok = True
        for f, old, new in s['edits']:
            p = os.path.join(SCRATCH, f)
            text = open(p).read()
            if text.count(old) != 1:
                print(s['id'], 'edit matches', text.count(old), 'times in', f)
                ok = False
                break
            open(p, 'w').write(text.replace(old, new))
        if not ok:
            continue
        patch = sh('git diff', cwd=SCRATCH).stdout
        d = os.path.join(OUT, s['id'])
        demo_dir = '/tmp/seed-demo'
        shutil.rmtree(demo_dir, ignore_errors=True)
        os.makedirs(demo_dir)
        with open(demo_dir + '/demo.py', 'w') as f:
            f.write('import sys\nsys.path.insert(0, ".")\nsys.dont_write_bytecode = True\nimport sqlpuzzle\n' + s['demo'].strip('\n') + '\n')
        with open(demo_dir + '/demo.sh', 'w') as f:
            f.write('#!/bin/bash\n# run in the repository; fails if the property is broken\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        os.chmod(demo_dir + '/demo.sh', 0o755)
        bad = sh('bash %s/demo.sh' % demo_dir, cwd=SCRATCH)
        good = sh('bash %s/demo.sh' % demo_dir, cwd='/repo')
        t, out = tests_ok()
        if good.returncode != 0 or bad.returncode == 0 or not t:
            print(s['id'], 'REJECTED demo unchanged=%d patched=%d tests=%s' % (good.returncode, bad.returncode, t))
            print(good.stderr[-600:], out[-600:] if not t else '')
            continue
        shutil.rmtree(d, ignore_errors=True)
        shutil.copytree(demo_dir, d)
        with open(d + '/patch.diff', 'w') as f:
            f.write(patch)
        with open(d + '/meta.json', 'w') as f:
            json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, f, indent=1)
            f.write('\n')
        print(s['id'], 'ok')
    shutil.rmtree(SCRATCH, ignore_errors=True)
    shutil.rmtree('/tmp/seed-demo', ignore_errors=True)


main()
