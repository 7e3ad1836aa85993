#!/usr/bin/env python3
"""Differential test of the verifier: random pairs of small Python programs, claimed to be equal.

fuzz.py SEED COUNT: a pair that pyvc proves equal and that differ when executed is an unsoundness of pyvc;
a pair that pyvc refutes and that never differs is a wrong refutation (or a rare difference).
"""
import importlib.util
import os
import random
import shutil
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, '..'))
import check  # noqa: E402

SIG = 's: STR, u: STR, n: INT, xs: Seq(STR), ys: Seq(STR), m: Map(STR), v: Dom(\'STRINT\'), k: Seq(INT)'


class Choices:
    """A sequence of random choices that can be replayed with changes."""

    def __init__(self, rng, given=()):
        self.rng, self.given, self.used = rng, list(given), []

    def pick(self, n):
        i = len(self.used)
        c = self.given[i] % n if i < len(self.given) else self.rng.randrange(n)
        self.used.append(c)
        return c


class Program:
    def __init__(self, ch):
        self.ch = ch
        self.vars = 0
        self.lines = []

    def one(self, *alts):
        return alts[self.ch.pick(len(alts))]()

    def name(self, p):
        self.vars += 1
        return '%s%d' % (p, self.vars)

    # ------------------------------------------------ expressions
    def S(self, d, env):
        names = [x for x, ty in env if ty == 'S']
        if d <= 0:
            return self.one(*[(lambda x=x: x) for x in names], lambda: "'a'", lambda: "'b'", lambda: "''")
        return self.one(
            lambda: self.S(0, env), lambda: self.S(0, env),
            lambda: '(%s + %s)' % (self.S(d - 1, env), self.S(d - 1, env)),
            lambda: '%r.join(%s)' % (self.sep(), self.L(d - 1, env)),
            lambda: '(%s if %s else %s)' % (self.S(d - 1, env), self.B(d - 1, env), self.S(d - 1, env)),
            lambda: '%s.get(%s, %s)' % (self.D(d - 1, env), self.S(d - 1, env), self.S(0, env)),
            lambda: 'str(%s)' % self.I(d - 1, env),
            lambda: "'<{}>'.format(%s)" % self.S(d - 1, env),
            lambda: "('%%s:%%s' %% (%s, %s))" % (self.S(d - 1, env), self.S(0, env)),
            lambda: 'next((%s for %s), %s)' % self.comp(d - 1, env) if False else self.nxt(d - 1, env),
        )

    def sep(self):
        return self.one(lambda: ',', lambda: '', lambda: ', ')

    def nxt(self, d, env):
        x = self.name('x')
        it = self.L(d, env)
        e2 = env + [(x, 'S')]
        cond = self.one(lambda: '', lambda: ' if %s' % self.B(d, e2))
        return 'next((%s for %s in %s%s), %s)' % (self.S(0, e2), x, it, cond, self.S(0, env))

    def L(self, d, env):
        names = [x for x, ty in env if ty == 'L']
        if d <= 0:
            return self.one(*[(lambda x=x: x) for x in names])
        return self.one(
            lambda: self.L(0, env), lambda: self.L(0, env), lambda: self.L(0, env),
            lambda: self.comp(d, env), lambda: self.comp(d, env),
            lambda: '(%s + %s)' % (self.L(d - 1, env), self.L(d - 1, env)),
            lambda: '[%s, %s]' % (self.S(d - 1, env), self.S(d - 1, env)),
            lambda: 'list(%s)' % self.D(d - 1, env),
            lambda: 'list(%s.values())' % self.D(d - 1, env),
            lambda: "[a + b for a, b in %s.items()]" % self.D(d - 1, env),
            lambda: 'sorted(%s)' % self.L(d - 1, env),
            lambda: '%s[1:]' % self.L(0, env),
            lambda: '%s[:1]' % self.L(0, env),
            lambda: '%s[:-1]' % self.L(0, env),
            lambda: '%s[::-1]' % self.L(0, env),
            lambda: 'list(reversed(%s))' % self.L(d - 1, env),
            lambda: 'list(dict.fromkeys(%s))' % self.L(d - 1, env),
            lambda: "[a + b for a, b in zip(%s, %s)]" % (self.L(d - 1, env), self.L(d - 1, env)),
            lambda: "[a + str(i) for i, a in enumerate(%s)]" % self.L(d - 1, env),
            lambda: "list(map(str, %s))" % self.L(d - 1, env),
            lambda: "list(filter(None, %s))" % self.L(d - 1, env),
            lambda: '[str(i) for i in k]',
            lambda: '[str(i) for i in k if i %s %s]' % (self.one(lambda: '>', lambda: '==', lambda: '!='), self.I(0, env)),
            lambda: 'sorted({x for x in %s})' % self.L(d - 1, env),
            lambda: 'list(itertools.chain(%s, %s))' % (self.L(d - 1, env), self.L(d - 1, env)),
            lambda: '[*%s, %s]' % (self.L(d - 1, env), self.S(0, env)),
        )

    def comp(self, d, env):
        x = self.name('x')
        it = self.L(d - 1, env)
        e2 = env + [(x, 'S')]
        cond = self.one(lambda: '', lambda: ' if %s' % self.B(d - 1, e2), lambda: ' if %s' % x)
        return '[%s for %s in %s%s]' % (self.S(d - 1, e2), x, it, cond)

    def D(self, d, env):
        names = [x for x, ty in env if ty == 'D']
        if d <= 0:
            return self.one(*[(lambda x=x: x) for x in names])
        return self.one(
            lambda: self.D(0, env), lambda: self.D(0, env),
            lambda: self.dcomp(d, env),
            lambda: 'dict(zip(%s, %s))' % (self.L(d - 1, env), self.L(d - 1, env)),
            lambda: '{**%s, %s: %s}' % (self.D(d - 1, env), self.S(0, env), self.S(0, env)),
            lambda: '{%s: %s, **%s}' % (self.S(0, env), self.S(0, env), self.D(d - 1, env)),
            lambda: '{a: b for a, b in %s.items() if %s}' % (self.D(d - 1, env), self.B(0, env + [('a', 'S'), ('b', 'S')])),
            lambda: '{a: %s for a in %s}' % (self.S(0, env + [('a', 'S')]), self.L(d - 1, env)),
            lambda: 'dict.fromkeys(%s, %s)' % (self.L(d - 1, env), self.S(0, env)),
        )

    def dcomp(self, d, env):
        x = self.name('x')
        it = self.L(d - 1, env)
        e2 = env + [(x, 'S')]
        return '{%s: %s for %s in %s}' % (self.S(d - 1, e2), self.S(0, e2), x, it)

    def I(self, d, env):
        names = [x for x, ty in env if ty == 'I']
        if d <= 0:
            return self.one(*[(lambda x=x: x) for x in names], lambda: '0', lambda: '1', lambda: '2')
        return self.one(
            lambda: self.I(0, env),
            lambda: 'len(%s)' % self.L(d - 1, env),
            lambda: 'len(%s)' % self.D(d - 1, env),
            lambda: '(%s + %s)' % (self.I(d - 1, env), self.I(0, env)),
            lambda: '(%s - %s)' % (self.I(d - 1, env), self.I(0, env)),
            lambda: 'sum(1 for a in %s if %s)' % (self.L(d - 1, env), self.B(0, env + [('a', 'S')])),
            lambda: '%s.count(%s)' % (self.L(0, env), self.S(0, env)),
            lambda: 'max(%s, %s)' % (self.I(0, env), self.I(0, env)),
            lambda: 'int(%s)' % self.B(d - 1, env),
            lambda: 'len(%s)' % self.S(0, env),
        )

    def B(self, d, env):
        if d <= 0:
            return self.one(
                lambda: '%s %s %s' % (self.S(0, env), self.one(lambda: '==', lambda: '!=', lambda: '<'), self.S(0, env)),
                lambda: '%s %s %s' % (self.I(0, env), self.one(lambda: '==', lambda: '<'), self.I(0, env)),
                lambda: '%s in %s' % (self.S(0, env), self.L(0, env)),
                lambda: '%s in %s' % (self.S(0, env), self.D(0, env)),
                lambda: 'bool(%s)' % self.L(0, env),
                lambda: 'bool(%s)' % self.S(0, env),
                lambda: 'isinstance(v, %s)' % self.one(lambda: 'str', lambda: 'int'))
        return self.one(
            lambda: self.B(0, env),
            lambda: '(%s and %s)' % (self.B(0, env), self.B(d - 1, env)),
            lambda: '(%s or %s)' % (self.B(0, env), self.B(d - 1, env)),
            lambda: '(not %s)' % self.B(d - 1, env),
            lambda: 'any(%s for a in %s)' % (self.B(0, env + [('a', 'S')]), self.L(d - 1, env)),
            lambda: 'all(%s for a in %s)' % (self.B(0, env + [('a', 'S')]), self.L(d - 1, env)),
            lambda: '%s in %s' % (self.S(d - 1, env), self.L(d - 1, env)),
            lambda: '%s in %s' % (self.S(d - 1, env), self.D(d - 1, env)),
            lambda: '%s == %s' % (self.L(d - 1, env), self.L(d - 1, env)),
            lambda: '%s %s %s' % (self.I(d - 1, env), self.one(lambda: '==', lambda: '<', lambda: '>'), self.I(d - 1, env)),
        )

    # ------------------------------------------------ statements
    def body(self):
        env = [('s', 'S'), ('u', 'S'), ('n', 'I'), ('xs', 'L'), ('ys', 'L'), ('m', 'D')]
        out = self.lines
        kind = self.ch.pick(5)
        if kind == 0:
            out.append('    return %s' % self.S(3, env))
            return
        if kind == 1:
            out.append('    return %s' % self.one(lambda: "','.join(%s)" % self.L(3, env), lambda: str(self.I(3, env)), lambda: self.B(3, env)))
            return
        # a loop with local state
        out.append('    out, d, c, f, w = [], %s, %s, %s, %s' % (
            self.one(lambda: '{}', lambda: 'dict(m)'), self.one(lambda: '0', lambda: 'n'), self.one(lambda: 'False', lambda: 'None'), self.one(lambda: "''", lambda: 's')))
        env = env + [('d', 'D')]
        src = self.one(lambda: self.L(1, env), lambda: self.L(2, env))
        inner = env + [('x', 'S')]
        out.append('    for x in %s:' % src)
        for _ in range(1 + self.ch.pick(3)):
            self.stmt(inner, '        ')
        if self.ch.pick(3) == 0:
            out.append('    else:')
            out.append("        out.append('end')")
        self.one(
            lambda: out.append("    return ','.join(out)"),
            lambda: out.append("    return ','.join(out) + '|' + ','.join(d)"),
            lambda: out.append("    return ','.join(out) + '|' + str(c)"),
            lambda: out.append("    return ','.join(out) + '|' + str(f)"),
            lambda: out.append("    return ','.join(out) + '|' + w"),
            lambda: out.append("    return d.get(%s, 'none')" % self.S(0, env)),
            lambda: out.append("    return (','.join(out), c == 0, f)"),
        )

    def stmt(self, env, ind):
        out = self.lines

        def guarded(line):
            g = self.ch.pick(3)
            if g == 0:
                out.append(ind + line)
            elif g == 1:
                out.append(ind + 'if %s:' % self.B(self.ch.pick(2), env))
                out.append(ind + '    ' + line)
            else:
                out.append(ind + 'if %s:' % self.B(0, env))
                out.append(ind + '    ' + line)
                out.append(ind + 'else:')
                out.append(ind + '    ' + self.simple(env))
        guarded(self.simple(env))

    def simple(self, env):
        return self.one(
            lambda: 'out.append(%s)' % self.S(1, env), lambda: 'out.append(x)',
            lambda: 'out.append(%s)' % self.S(2, env),
            lambda: 'd[%s] = %s' % (self.S(0, env), self.S(1, env)),
            lambda: 'd.setdefault(%s, %s)' % (self.S(0, env), self.S(0, env)),
            lambda: 'c += 1', lambda: 'c += %s' % self.one(lambda: '2', lambda: 'n', lambda: 'len(x)'),
            lambda: 'f = True', lambda: 'f = x',
            lambda: 'w += x', lambda: 'w += x + %s' % self.S(0, env), lambda: 'w = x', lambda: 'w = w or x',
            lambda: 'break', lambda: 'continue',
            lambda: 'out.extend(%s)' % self.L(0, env),
            lambda: 'out.insert(0, x)',
            lambda: 'out.append(w)', lambda: 'out.append(str(c))', lambda: 'out.append(x) if x not in out else None',
            lambda: "return ','.join(out)",
        )


def make(rng, given=()):
    ch = Choices(rng, given)
    p = Program(ch)
    p.body()
    return p.lines, ch.used


def pair(rng):
    a, used = make(rng)
    for _ in range(20):
        given = list(used)
        for _ in range(1 + rng.randrange(2)):
            i = rng.randrange(len(given))
            given[i] = rng.randrange(60)
        b, _ = make(random.Random(rng.random()), given)
        if b != a:
            return a, b
    return a, a


def main():
    seed, count = int(sys.argv[1]), int(sys.argv[2])
    rng = random.Random(seed)
    vlib = check.load()
    vlib.HARNESSES.clear()
    scratch = tempfile.mkdtemp(prefix='fuzz')
    try:
        text = ['import itertools', 'from vlib import *  # noqa', '']
        names = []
        for i in range(count):
            a, b = pair(rng)
            nm = 'f%d_%d' % (seed, i)
            args = ', '.join(x.split(':')[0] for x in SIG.split(', ') if ':' in x)
            text += ['', 'def %s_a(%s):' % (nm, args)] + a + ['', 'def %s_b(%s):' % (nm, args)] + b + [
                '', '@prop("F")', 'def %s(%s):' % (nm, SIG),
                '    check_eq(%s_a(%s), %s_b(%s), "same")' % (nm, args, nm, args), '']
            names.append(nm)
        path = os.path.join(scratch, 'fuzzed_%d.py' % seed)
        with open(path, 'w') as f:
            f.write('\n'.join(text))
        sys.path.insert(0, scratch)
        spec = importlib.util.spec_from_file_location('fuzzed_%d' % seed, path)
        mod = importlib.util.module_from_spec(spec)
        sys.modules[spec.name] = mod
        spec.loader.exec_module(mod)
        cfg = dict(check.TIERS['quick'], sym=15, runs=1500, cap=8)
        res = {}
        for kind, n, r in check.parallel([('sym', n, 1, cfg) for n in names] + [('nat', n, 1, cfg) for n in names], time.time() + 7200):
            res.setdefault(n, {})[kind] = r
        tally = {}
        for n in names:
            sym, nat = res[n].get('sym', {}), res[n].get('nat', {})
            st = check.status_of(sym) if sym else 'none'
            failed = bool(nat.get('failure'))
            key = (st, 'differs' if failed else 'error' if nat.get('error') else 'equal')
            tally[key] = tally.get(key, 0) + 1
            show = (st == 'proved' and failed) or (st == 'refuted' and not failed and not nat.get('error')) or 'internal' in str(sym.get('error'))
            if show:
                src = open(path).read().split('\ndef %s_a' % n)[1].split('\n@prop')[0]
                print('UNSOUND' if st == 'proved' else 'REFUTED?' if st == 'refuted' else 'INTERNAL', n)
                print('def a' + src)
                print(str(nat.get('failure'))[:500] if failed else [o['detail'][:300] for o in sym.get('oblig', ()) if o['status'] != 'proved'][:1], (sym.get('trace') or '')[-600:] if sym.get('error') else '')
        for k in sorted(tally):
            print(k, tally[k])
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


main()
