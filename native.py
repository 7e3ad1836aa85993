"""Bounded layer: harnesses executed by CPython on generated inputs; replay of failing inputs."""
import json
import os
import pickle
import random
import sys
import time
import traceback
import zlib

import vlib
import gen


class Failure:
    def __init__(self, harness, label, detail, seed, args, tb):
        self.harness, self.label, self.detail, self.seed, self.args, self.tb = harness, label, detail, seed, args, tb


def make_args(h, seed, i):
    rng = random.Random('%s/%s/%d' % (h.name, seed, i))
    g = gen.Gen(rng, 'C17' not in h.props)   # whether 'a' and the same text of a derived class are equal is not laid down
    backend = rng.choice(('sql', 'mysql', 'postgresql', 'sqlite'))
    vlib.configure(backend)
    args = [d.gen(g) for n, d in h.params.items() if n != 'return']
    return backend, args


def run_once(h, backend, args):
    """-> None | 'skip' | (label, detail, traceback)"""
    vlib.configure(backend)
    try:
        h.fn(*args)
        return None
    except vlib.Skip:
        return 'skip'
    except vlib.CheckFailed as ex:
        return ex.label, ex.detail, traceback.format_exc()
    except RecursionError:
        return 'no-exception', 'RecursionError', traceback.format_exc()[-2000:]
    except Exception as ex:   # pylint: disable=broad-except
        return 'no-exception', 'raised %s: %s' % (type(ex).__name__, ex), traceback.format_exc()
    finally:
        vlib.configure('sql')


def show(x, depth=0):
    if depth > 4:
        return '...'
    if isinstance(x, (vlib.AnySql, vlib.AnySelect, vlib.AnyUnion, vlib.ForeignSql)):
        return '%s(%r)' % (type(x).__name__, x._text)
    if isinstance(x, vlib.Object):
        try:
            return '%s[%s]' % (type(x).__name__, x)
        except Exception:   # pylint: disable=broad-except
            return type(x).__name__
    if isinstance(x, list):
        return '[%s]' % ', '.join(show(y, depth + 1) for y in x)
    if isinstance(x, tuple):
        return '(%s,)' % ', '.join(show(y, depth + 1) for y in x)
    if isinstance(x, dict):
        return '{%s}' % ', '.join('%s: %s' % (show(k, depth + 1), show(v, depth + 1)) for k, v in x.items())
    return repr(x)


def run_harness(name, seed, budget, max_runs):
    h = vlib.HARNESSES[name]
    t0 = time.process_time()
    n = skipped = 0
    seen = set()
    samples = []
    while n < max_runs and time.process_time() - t0 < budget:
        backend, args = make_args(h, seed, n)
        shown = None
        try:
            shown = backend + ': ' + ', '.join(show(a) for a in args)
        except Exception:   # pylint: disable=broad-except
            shown = '?'
        r = run_once(h, backend, args)
        n += 1
        if r == 'skip':
            skipped += 1
            continue
        if shown is not None:
            seen.add(zlib.crc32(shown.encode('utf-8', 'surrogatepass')))
            if len(samples) < 2:
                samples.append(shown[:300])
        if r is not None:
            return {'harness': name, 'runs': n, 'skipped': skipped, 'distinct': len(seen), 'samples': samples,
                    'failure': {'label': r[0], 'detail': r[1], 'traceback': r[2], 'seed': seed, 'index': n - 1,
                                'backend': backend, 'args': shown}, 'time': time.process_time() - t0}
    return {'harness': name, 'runs': n, 'skipped': skipped, 'distinct': len(seen), 'samples': samples, 'failure': None,
            'time': time.process_time() - t0}


def main(argv):
    import contracts
    contracts.load()
    names = [a for a in argv if not a.isdigit()] or sorted(vlib.HARNESSES)
    k = [int(a) for a in argv if a.isdigit()] or [2000]
    for n in names:
        r = run_harness(n, 1, 20, k[0])
        print('%-40s runs=%d skipped=%d distinct=%d %.1fs %s' % (n, r['runs'], r['skipped'], r['distinct'], r['time'], 'FAIL' if r['failure'] else ''))
        if r['failure']:
            f = r['failure']
            print('   ', f['label'], '|', f['detail'][:600], '\n    args:', f['args'][:600])
            print(f['traceback'][-700:])


if __name__ == '__main__':
    main(sys.argv[1:])
