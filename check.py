#!/usr/bin/env python3
"""Check of one property: proof of its contracts over the current /repo, plus a bounded search for failing inputs.

usage: check.py Cxx            quick or thorough (VERIF_TIER), seed VERIF_SEED
       check.py --replay FILE  run a recorded failing input again
       check.py --baseline     recompute baseline.json (the harnesses proved on the unchanged tree)
"""
import json
import multiprocessing
import multiprocessing.connection
import os
import resource
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
os.chdir(HERE)
sys.dont_write_bytecode = True
for stream in (sys.stdout, sys.stderr):
    stream.reconfigure(errors='backslashreplace')     # failing inputs may hold lone surrogates

EVID = os.environ.get('VERIF_EVIDENCE') or os.path.join(HERE, 'evidence')
WORKERS = max(2, min(8, os.cpu_count() or 2))
TIERS = {
    # symbolic budget per harness (s), native runs per harness, native time cap (s), total soft cap (s)
    'quick': dict(sym=60, runs=4000, cap=25, search=15000, search_cap=40),
    'thorough': dict(sym=600, runs=60000, cap=240, search=60000, search_cap=120),
}


def load():
    import contracts
    contracts.load()
    import vlib
    return vlib


def limit_memory():
    soft = 6 << 30
    resource.setrlimit(resource.RLIMIT_AS, (soft, soft))


def task(arg):
    """Runs in its own process."""
    kind, name, seed, cfg = arg
    sys.setrecursionlimit(20000)
    limit_memory()
    try:
        import vlib
        h = vlib.HARNESSES[name]
        if kind in ('sym', 'full'):
            from pyvc import runner
            if kind == 'full':
                h.sym_params = h.params
            r = runner.Run(h, budget=h.opts.get('budget', 1) * cfg['sym'], inline=h.opts.get('inline', ())).run()
            return kind, name, r
        import native
        if kind == 'nat':
            r = native.run_harness(name, seed, cfg['cap'], int(cfg['runs'] * h.opts.get('native', 1)))
        else:
            r = native.run_harness(name, 'search-%s' % seed, cfg['search_cap'], cfg['search'])
        return kind, name, r
    except MemoryError:
        return kind, name, {'harness': name, 'error': 'budget: memory', 'oblig': [], 'runs': 0, 'failure': None, 'distinct': 0, 'skipped': 0, 'samples': []}
    except BaseException as ex:   # pylint: disable=broad-except
        return kind, name, {'harness': name, 'error': 'internal: %r' % (ex,), 'trace': traceback.format_exc(), 'oblig': [], 'runs': 0,
                            'failure': None, 'distinct': 0, 'skipped': 0, 'samples': []}


def parallel(tasks, deadline):
    """Run tasks in processes of their own; a task over the deadline is undecided."""
    ctx = multiprocessing.get_context('fork')
    todo = list(tasks)
    running = {}
    out = []

    def child(arg, conn):
        os.setpgid(0, 0)
        conn.send(task(arg))
        conn.close()
        os._exit(0)

    while todo or running:
        while todo and len(running) < WORKERS:
            arg = todo.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=child, args=(arg, b))
            p.start()
            b.close()
            running[p] = (arg, a)
        ready = multiprocessing.connection.wait([c for _, c in running.values()], timeout=1)
        late = time.time() > deadline
        for p, (arg, conn) in list(running.items()):
            if conn in ready:
                try:
                    out.append(conn.recv())
                except (EOFError, OSError):
                    out.append((arg[0], arg[1], {'harness': arg[1], 'error': 'internal: worker died', 'oblig': [], 'runs': 0, 'failure': None,
                                                 'distinct': 0, 'skipped': 0, 'samples': []}))
                p.join(5)
            elif late:
                out.append((arg[0], arg[1], {'harness': arg[1], 'error': 'budget: deadline', 'oblig': [], 'runs': 0, 'failure': None,
                                             'distinct': 0, 'skipped': 0, 'samples': []}))
            else:
                continue
            if p.is_alive():
                p.kill()
                p.join()
            conn.close()
            del running[p]
        if late and not running:
            for arg in todo:
                out.append((arg[0], arg[1], {'harness': arg[1], 'error': 'budget: deadline', 'oblig': [], 'runs': 0, 'failure': None,
                                             'distinct': 0, 'skipped': 0, 'samples': []}))
            break
    return out


def baseline():
    try:
        with open(os.path.join(HERE, 'baseline.json')) as f:
            return json.load(f)
    except OSError:
        return {}


def status_of(r):
    """Verdict of the symbolic run of a harness."""
    if r.get('error'):
        return 'undecided'
    st = {o['status'] for o in r['oblig']}
    if not st:
        return 'undecided'
    if 'refuted' in st:
        return 'refuted'
    if st == {'proved'}:
        return 'proved'
    return 'undecided'


def write_replay(pid, name, kind, data):
    d = os.path.join(EVID, 'replay')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '%s-%s.json' % (pid, name))
    with open(path, 'w') as f:
        json.dump(dict(data, property=pid, harness=name, kind=kind), f, indent=1, default=str)
    return os.path.relpath(path, HERE)


def main(pid):
    t0 = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    cfg = TIERS.get(tier, TIERS['quick'])
    vlib = load()
    names = sorted((n for n, h in vlib.HARNESSES.items() if pid in h.props), key=lambda n: (-vlib.HARNESSES[n].weight, n))
    if not names:
        print('no contracts for', pid)
        return 2
    base = baseline()
    deadline = t0 + (700 if tier == 'quick' else 6000)
    tasks = [('sym', n, seed, cfg) for n in names if vlib.HARNESSES[n].opts.get('sym') is not False]
    tasks += [('nat', n, seed, cfg) for n in names]
    if tier == 'thorough':   # the proof over the whole domains, where the quick proof narrows them
        tasks += [('full', n, seed, cfg) for n in names if vlib.HARNESSES[n].opts.get('sym')]
    res = parallel(tasks, deadline)
    full = {n: status_of(r) for k, n, r in res if k == 'full'}
    sym = {n: r for k, n, r in res if k == 'sym'}
    nat = {n: r for k, n, r in res if k == 'nat'}
    violations = []
    failing = {n: nat[n]['failure'] for n in names if nat[n].get('failure')}
    refuted = [n for n in names if n in sym and status_of(sym[n]) == 'refuted']
    lost = [n for n in names if n in sym and status_of(sym[n]) == 'undecided' and base.get(n, 'proved') == 'proved']
    need = [n for n in refuted + lost if n not in failing]
    if need and not failing:
        for k, n, r in parallel([('search', n, seed, cfg) for n in need], deadline):
            nat[n]['runs'] += r.get('runs', 0)
            if r.get('failure'):
                failing[n] = r['failure']
    for n, f in failing.items():
        path = write_replay(pid, n, 'input', {'failure': f})
        violations.append('VIOLATION property=%s replay=%s' % (pid, path))
        print('--- contract %s broken: %s\n    %s\n    input (%s)' % (n, f['label'], f['detail'].replace('\n', '\n    '), f['args'][:600]))
    for n in refuted:
        if n in failing:
            continue
        bad = [o for o in sym[n]['oblig'] if o['status'] == 'refuted']
        if base and base.get(n) != 'proved':
            continue
        path = write_replay(pid, n, 'obligation', {'obligations': bad[:20]})
        print('--- obligation of contract %s no longer discharged: %s\n    %s' % (n, bad[0]['label'], bad[0]['detail'][:800]))
        violations.append('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, path))
    broken = [n for n in names if nat[n].get('error') or not nat[n].get('runs')]
    evidence(pid, tier, seed, names, sym, nat, violations, t0, full)
    for n in names:
        r = sym.get(n)
        print('%-40s %-9s obligations=%d paths=%s %.1fs | native runs=%d distinct=%d %s' % (
            n, status_of(r) if r else 'bounded', len(r['oblig']) if r else 0, r.get('paths') if r else '-', r.get('time', 0) if r else 0,
            nat[n].get('runs', 0), nat[n].get('distinct', 0), (r.get('error') or '')[:120] if r else ''))
    if violations:
        # one line: prefer one with a failing input
        for v in violations:
            print(v)
        return 1
    if len(broken) == len(names):
        print('undecided: no contract could be evaluated')
        for n in broken:
            print(nat[n].get('error'), nat[n].get('trace', ''))
        return 2
    known(pid)
    return 0


def known(pid):
    p = os.path.join(HERE, 'known-findings.txt')
    if os.path.exists(p):
        for line in open(p):
            if line.startswith('known: property=%s ' % pid):
                print('KNOWN-FINDING: ' + line[len('known: '):].strip())


TRUSTED = [
    'pyvc, the symbolic interpreter of Python in /verif/pyvc (its models of str, int, list, dict and the loop rules); cross-checked against CPython by native runs of the same contracts',
    'z3 (python binding of the tool venv)',
    'CPython evaluates module and class bodies at import; pyvc starts from the imported modules',
]
ASSUMPTIONS = [
    'Python semantics of the interpreted subset as modelled in pyvc (exact built-in types, no user subclasses of str, int, list...)',
    'hash collisions, recursion limits and memory exhaustion are not modelled',
    'SQL objects passed in are represented by objects with arbitrary text (AnySql, AnySelect, AnyUnion)',
]


def narrowed(name, full=None):
    """Parameters whose domain in the proof is narrower than in the bounded run."""
    import vlib
    h = vlib.HARNESSES[name]
    out = {p: '%s of %s' % (h.opts['sym'][p], d) for p, d in h.params.items() if p in (h.opts.get('sym') or {})}
    if out and full:
        out['proof over the whole domains'] = full
    return out


def evidence(pid, tier, seed, names, sym, nat, violations, t0, full):
    ob = disch = 0
    proved, bounded, called, by_contract = [], [], set(), set()
    solver = 0.0
    calls = paths = 0
    per = {}
    for n in names:
        r = sym.get(n)
        st = status_of(r) if r else 'bounded'
        item = {'native_runs': nat[n].get('runs', 0), 'native_distinct': nat[n].get('distinct', 0), 'status': st}
        if r:
            k = len(r['oblig'])
            d = sum(1 for o in r['oblig'] if o['status'] == 'proved')
            item.update(obligations=k, discharged=d, paths=r.get('paths'), solver_s=round(r.get('solver_time', 0), 2),
                        solver_calls=r.get('solver_calls', 0), total_s=round(r.get('time', 0), 2), error=r.get('error'))
            solver += r.get('solver_time', 0)
            calls += r.get('solver_calls', 0)
            paths += r.get('paths') or 0
            if st == 'proved':
                ob += k
                disch += d
                called |= set(r.get('called', ()))
                by_contract |= set(r.get('by_contract', ()))
            else:
                ob += max(k, 1)
                disch += d if k else 0
        (proved if st == 'proved' else bounded).append(n)
        per[n] = item
    cov = {
        'obligations': ob, 'discharged': disch,
        'checker_cmd': 'python3-vt check.py %s' % pid,
        'trusted_base': TRUSTED,
        'contracts': per,
        'contracts_proved': proved,
        'proof_domains': {n: narrowed(n, full.get(n)) for n in proved if narrowed(n)},
        'contracts_bounded_only': bounded,
        'functions_under_contract': sorted(x for x in called if x.startswith('sqlpuzzle')),
        'callee_contracts_used': sorted(by_contract),
        'paths': paths,
        'back_end': 'pyvc symbolic interpreter + z3',
        'solver_s': round(solver, 2), 'solver_calls': calls,
        'evaluations': sum(nat[n].get('runs', 0) for n in names),
        'distinct_nontrivial': sum(nat[n].get('distinct', 0) for n in names),
        'rule': 'bounded stand-in: each contract is also executed by CPython on inputs drawn from its domains; non-trivial: passed its precondition; distinct by printed input',
        'samples': [s for n in names for s in nat[n].get('samples', ())[:1]][:20],
    }
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'proof', 'coverage': cov, 'assumptions': ASSUMPTIONS,
          'wall_s': round(time.time() - t0, 2), 'violations': len(violations)}
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)


def make_baseline():
    vlib = load()
    cfg = dict(TIERS['quick'])
    res = parallel([('sym', n, 1, cfg) for n, h in vlib.HARNESSES.items() if h.opts.get('sym') is not False], time.time() + 7200)
    out = {n: status_of(r) for _, n, r in res}
    import gen
    strs, ints = gen.harvested()
    with open(gen.KNOWN, 'w') as f:
        json.dump({'strings': strs, 'integers': ints}, f, indent=0)
        f.write('\n')
    with open(os.path.join(HERE, 'baseline.json'), 'w') as f:
        json.dump(out, f, indent=1, sort_keys=True)
        f.write('\n')
    for n, s in sorted(out.items()):
        if s != 'proved':
            r = [x for _, m, x in res if m == n][0]
            print(n, s, r.get('error'), [(o['label'], o['status']) for o in r['oblig'] if o['status'] != 'proved'][:3])
    print(sum(1 for s in out.values() if s == 'proved'), 'of', len(out), 'proved')
    slow = sorted(((x.get('time', 0), n) for _, n, x in res), reverse=True)[:10]
    print('slowest:', [(n, round(s, 1)) for s, n in slow])
    return 0


def replay(path):
    with open(path) as f:
        d = json.load(f)
    if d['kind'] != 'input':
        print(json.dumps(d, indent=1))
        return 1
    vlib = load()
    import native
    f = d['failure']
    h = vlib.HARNESSES[d['harness']]
    for start in (f['index'], 0):
        for i in range(start, f['index'] + 1):
            backend, args = native.make_args(h, f['seed'], i)
            r = native.run_once(h, backend, args)
        if r not in (None, 'skip'):
            print('contract %s on %s: %s' % (h.name, backend, ', '.join(native.show(a) for a in args)))
            print(r[0], r[1])
            print(r[2])
            return 1
    print('does not fail')
    return 0


if __name__ == '__main__':
    if len(sys.argv) > 2 and sys.argv[1] == '--replay':
        sys.exit(replay(sys.argv[2]))
    if sys.argv[1:] == ['--baseline']:
        sys.exit(make_baseline())
    sys.exit(main(sys.argv[1]))
