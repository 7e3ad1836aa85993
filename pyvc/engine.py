"""Path exploration, facts, type domains and the prover."""
import contextlib
import time
import z3

from . import terms as t
from .terms import T, mk
from .values import *   # noqa
from .values import _stamp

MISSING = object()
DOMAINS = {}           # name -> frozenset of tags


class Decider:
    __slots__ = ('choices', 'pos')

    def __init__(self):
        self.choices, self.pos = [], 0

    def replaying(self):
        return self.pos < len(self.choices)

    def take(self):
        c = self.choices[self.pos]
        self.pos += 1
        return c[1][c[0]]

    def new(self, options):
        self.choices.append([0, options])
        self.pos += 1
        return options[0]

    def next(self):
        while self.choices and self.choices[-1][0] + 1 >= len(self.choices[-1][1]):
            self.choices.pop()
        if not self.choices:
            return False
        self.choices[-1][0] += 1
        self.pos = 0
        return True


class Stats:
    def __init__(self):
        self.solver_time = 0.0
        self.solver_calls = 0
        self.paths = 0
        self.branches = 0
        self.unknown = 0


class Budget(Exception):
    pass


# operations the solver treats as arbitrary functions: a counter-model that mentions them proves nothing
VAGUE = frozenset(('upper', 'lower', 'title', 'capitalize', 'casefold', 'swapcase', 'call', 'hom', 'replace', 'kept', 'sorted', 'sortcat', 'uniqcat', 'uniq'))


class Engine:
    def __init__(self, rlimit=400000, deadline=None):
        self.axsubs, self.axmemo = {}, {}
        self.trail = []
        self.facts = {}
        self.fact_list = []
        self.eqlit = {}
        self.types = {}
        self.mat = {}
        self.allfacts = {}        # root -> tuple of (bv, formula)
        self.witnesses = {}       # root -> tuple of index terms
        self.unfolded = {}        # root -> 'empty' | 'cons'
        self.deciders = []
        self.rlimit = rlimit
        self.deadline = deadline
        self.solver = self._new_solver()
        self.synced = 0
        self.stats = Stats()
        self.hooks = {}
        self.overlay = {}         # id(real container) -> (real, symbolic copy)
        self.cls_overlay = {}     # (class/module dict id, name) -> value
        self.oblig_sink = None
        self.cur_label = None
        self.axiomatised = {}

    def _new_solver(self):
        s = z3.Solver()
        s.set('rlimit', self.rlimit)
        s.set('timeout', 8000)
        return s

    # ------------------------------------------------------------ trail
    def set_item(self, d, k, v):
        self.trail.append((0, d, k, d.get(k, MISSING)))
        d[k] = v

    def del_item(self, d, k):
        self.trail.append((0, d, k, d[k]))
        del d[k]

    def set_attr(self, o, name, v):
        self.trail.append((1, o, name, getattr(o, name)))
        setattr(o, name, v)

    def undo(self, mark):
        tr = self.trail
        while len(tr) > mark:
            kind, o, k, old = tr.pop()
            if kind == 0:
                if old is MISSING:
                    o.pop(k, None)
                else:
                    o[k] = old
            elif kind == 1:
                setattr(o, k, old)

    @contextlib.contextmanager
    def scope(self):
        mark = len(self.trail)
        nf = len(self.fact_list)
        self.sync()
        self.solver.push()
        try:
            yield
        finally:
            self.undo(mark)
            del self.fact_list[nf:]
            self.solver.pop()
            self.synced = nf

    def sync(self):
        fl = self.fact_list
        while self.synced < len(fl):
            f = fl[self.synced]
            self.synced += 1
            self.axioms(f)
            if f.op in ('ex',) or (f.op == 'not' and f.args[0].op == 'ex'):
                pass
            self.solver.add(t.z(f))

    def axioms(self, f):
        subs = self.axsubs.get(f)
        if subs is None:
            subs = self.axsubs[f] = [s for s in t.subterms(f) if s.op in AXIOMATIC]
        for s in subs:
            key = ('ax', s)
            if key in self.facts:
                continue
            self.set_item(self.facts, key, True)
            a = self.axmemo.get(s)
            if a is None:
                a = self.axmemo[s] = axiom(s) or ()
            for x in a:
                self.solver.add(x)

    # ------------------------------------------------------------ exploration
    def explore(self, thunk, max_paths=4000):
        """Run thunk over all feasible paths; thunk must return self-contained data."""
        d = Decider()
        self.deciders.append(d)
        outs = []
        n = 0
        try:
            while True:
                n += 1
                if n > max_paths:
                    raise Unsupported('more than %d paths' % max_paths)
                self.check_deadline()
                with self.scope():
                    nf = len(self.fact_list)
                    try:
                        r = thunk()
                        outs.append((t.and_(*self.fact_list[nf:]), r))
                    except PathAbort:
                        pass
                if not d.next():
                    break
        finally:
            self.deciders.pop()
        self.stats.paths += n
        return outs

    def check_deadline(self):
        if self.deadline is not None and time.process_time() > self.deadline:
            raise Budget('time budget exhausted')

    def fork(self, options):
        if len(options) == 1:
            return options[0]
        d = self.deciders[-1]
        if d.replaying():
            return d.take()
        return d.new(list(options))

    # ------------------------------------------------------------ facts
    def add_fact(self, f):
        """Assume f (no feasibility check)."""
        if f is True:
            return
        if f is False:
            raise PathAbort()
        if f.op == 'and':
            for a in f.args:
                self.add_fact(a)
            return
        if f in self.facts:
            return
        neg = t.not_(f)
        if neg in self.facts:
            raise PathAbort()
        if f.op == 'tag':
            self.narrow(f.args[0], f.args[1])
            return
        if f.op == 'not' and f.args[0].op == 'tag':
            v, tags = f.args[0].args
            self.narrow(v, self.dom(v) - tags)
            return
        self._push_fact(f)
        if f.op == 'eq':
            a, b = f.args
            if not isinstance(b, T):
                old = self.eqlit.get(a)
                if old is not None and old != b:
                    raise PathAbort()
                self.set_item(self.eqlit, a, b)
            elif a.sort == 'V':
                d = self.dom(a) & self.dom(b)
                self.narrow(a, d)
                self.narrow(b, d)

    def add_fact_soft(self, f):
        """Assume a derived fact; disjunctions stay unsplit."""
        if f is True:
            return
        if f is False:
            raise PathAbort()
        if f.op == 'and':
            for a in f.args:
                self.add_fact_soft(a)
            return
        if f.op == 'or':
            live = []
            for a in f.args:
                k = self.quick(a)
                if k is True:
                    return
                if k is None:
                    live.append(a)
            f = t.or_(*live)
            if f is False:
                raise PathAbort()
            if f is True:
                return
            if f.op != 'or':
                self.add_fact_soft(f)
                return
            self._push_fact(f)
            return
        if f.op == 'ex' or (f.op == 'not' and f.args[0].op == 'ex'):
            c = f if f.op == 'ex' else f.args[0]
            if self.lookup(c) is None:
                self.hooks['assume_ex'](c, f.op == 'ex')
            return
        self.add_fact(f)

    def quick(self, a):
        """Cheap truth value of a formula under the current facts, or None."""
        if isinstance(a, bool):
            return a
        if a.op == 'not':
            k = self.quick(a.args[0])
            return None if k is None else not k
        if a.op == 'tag':
            d = self.dom(a.args[0])
            if d <= a.args[1]:
                return True
            if not (d & a.args[1]):
                return False
            return None
        if a.op == 'and':
            ks = [self.quick(x) for x in a.args]
            if False in ks:
                return False
            return True if all(k is True for k in ks) else None
        if a.op == 'or':
            ks = [self.quick(x) for x in a.args]
            if True in ks:
                return True
            return False if all(k is False for k in ks) else None
        return self.lookup(a)

    def valid_z(self, c):
        """Entailment without the structural string prover (used inside it)."""
        if isinstance(c, bool):
            return c
        h = self.hooks.get('prove_eq')
        self.hooks['prove_eq'] = None
        try:
            return self.valid(c)
        finally:
            self.hooks['prove_eq'] = h

    def _push_fact(self, f):
        if f not in self.facts:
            self.set_item(self.facts, f, True)
            self.fact_list.append(f)

    def dom(self, v):
        d = self.types.get(v)
        if d is not None:
            return d
        c = t.VCONS.get(v.op)
        if c:
            return frozenset((c,))
        if v.op in ('in', 'it'):
            return DOMAINS[v.args[0]]
        raise Unsupported('no domain for %s' % v)

    def narrow(self, v, tags):
        d = self.dom(v)
        nd = d & tags
        if not nd:
            raise PathAbort()
        if nd == d and v in self.types:
            return
        if v.op in t.VCONS:
            return
        self.set_item(self.types, v, nd)
        if nd != d:
            self._push_fact(mk('tag', 'B', v, nd))
            if self.hooks.get('narrowed'):
                self.hooks['narrowed'](v, nd)

    def test_tag(self, v, tags):
        d = self.dom(v)
        tags = frozenset(tags)
        if d <= tags:
            return True
        if not (d & tags):
            return False
        val = self.fork((True, False))
        self.narrow(v, d & tags if val else d - tags)
        return val

    def tag_of(self, v):
        d = self.dom(v)
        if len(d) == 1:
            return next(iter(d))
        tag = self.fork(tuple(sorted(d)))
        self.narrow(v, frozenset((tag,)))
        return tag

    def lookup(self, c):
        if isinstance(c, bool):
            return c
        if c in self.facts:
            return True
        if t.not_(c) in self.facts:
            return False
        if c.op == 'eq':
            a, b = c.args
            if not isinstance(b, T):
                v = self.eqlit.get(a)
                if v is not None:
                    return v == b
            else:
                x, y = self.eqlit.get(a), self.eqlit.get(b)
                if x is not None and y is not None:
                    return x == y
                if a.sort == 'V' and not (self.dom(a) & self.dom(b)):
                    return False
        return None

    def branch(self, c):
        if isinstance(c, bool):
            return c
        if c.op == 'not':
            return not self.branch(c.args[0])
        if c.op == 'and':
            return all(self.branch(a) for a in c.args)
        if c.op == 'or':
            return any(self.branch(a) for a in c.args)
        if c.op == 'tag':
            return self.test_tag(*c.args)
        if c.op == 'eq' and isinstance(c.args[0], T) and c.args[0].op == 'len' and len(c.args[0].args) == 2 and c.args[1] == 0 \
                and not isinstance(c.args[1], T):
            # a filtered segment is empty iff no element is kept
            return not self.branch(t.mk('ex', 'B', *c.args[0].args))
        k = self.lookup(c)
        if k is not None:
            return k
        self.stats.branches += 1
        d = self.deciders[-1]
        if d.replaying():
            val = d.take()
        else:
            if c.op == 'ex':
                k = self.hooks['decide_ex'](c)
                opts = [True, False] if k is None else [k]
            else:
                opts = []
                if self.feasible(c):
                    opts.append(True)
                if not opts or self.feasible(t.not_(c)):
                    opts.append(False)
            val = d.new(opts)
        if c.op == 'ex':
            self.hooks['assume_ex'](c, val)
        else:
            self.add_fact(c if val else t.not_(c))
        return val

    def assume(self, c):
        if isinstance(c, bool):
            if not c:
                raise PathAbort()
            return
        if not self.branch_only(c):
            raise PathAbort()

    def branch_only(self, c):
        """Assume c, aborting when infeasible (no fork on the negation)."""
        if c.op == 'and':
            for a in c.args:
                self.assume(a)
            return True
        if c.op == 'or':
            # fork over which disjunct
            return self.branch(c)
        if c.op == 'ex' or (c.op == 'not' and c.args[0].op == 'ex'):
            return self.branch(c)
        k = self.lookup(c) if c.op != 'tag' else None
        if k is not None:
            return k
        self.add_fact(c)
        return True

    def _check(self, *extra):
        self.sync()
        t0 = time.time()
        self.stats.solver_calls += 1
        try:
            r = self.solver.check(*extra)
        except z3.Z3Exception as e:
            r = z3.unknown
        self.stats.solver_time += time.time() - t0
        return r

    def feasible(self, c):
        self.sync()
        self.solver.push()
        try:
            self.axioms(c)
            self.solver.add(t.z(c))
            return self._check() != z3.unsat
        finally:
            self.solver.pop()
            # axioms added inside this push are popped: forget them
            self._drop_ax(c)

    def _drop_ax(self, c):
        for s in t.subterms(c):
            self.facts.pop(('ax', s), None)

    def path_feasible(self):
        return self._check() != z3.unsat

    # ------------------------------------------------------------ proving
    def valid(self, c):
        """True if the current facts entail c (definitely), else False."""
        return self.prove(c)[0] == 'proved'

    def prove(self, c):
        """-> ('proved'|'refuted'|'unknown', model or None)"""
        if c is True:
            return 'proved', None
        if c is not False:
            c = self.simplify(c)
        if c is True:
            return 'proved', None
        if c is not False and c.op == 'and':
            for a in c.args:
                r = self.prove(a)
                if r[0] != 'proved':
                    return r
            return 'proved', None
        if c is not False and c.op == 'tag' and self.dom(c.args[0]) <= c.args[1]:
            return 'proved', None
        if c is not False and c.op == 'ex':
            k = self.hooks['decide_ex'](c)
            if k is True:
                return 'proved', None
        if c is not False and c.op == 'not' and c.args[0].op == 'ex':
            k = self.hooks['decide_ex'](c.args[0])
            if k is False:
                return 'proved', None
        if c is not False and c.op == 'eq' and self.hooks.get('prove_eq'):
            if self.hooks['prove_eq'](c):
                return 'proved', None
        self.sync()
        self.solver.push()
        try:
            if c is not False:
                self.axioms(c)
                self.solver.add(z3.Not(t.z(c)))
            r = self._check()
            if r == z3.unsat:
                return 'proved', None
            m = None
            if r == z3.sat:
                m = self.solver.model()
            else:
                r2, m = self.retry()
                if r2 == z3.unsat:
                    return 'proved', None
                if r2 == z3.sat:
                    r = z3.sat
            if r == z3.sat:
                if any(isinstance(f, t.T) and (x.op in VAGUE or x.op == 'len' and len(x.args) == 2) for f in [c] + self.fact_list if isinstance(f, t.T) for x in t.subterms(f)):
                    return 'unknown', None
                if split_apart(c):
                    return 'unknown', None
                return 'refuted', m
            self.stats.unknown += 1
            return 'unknown', None
        finally:
            self.solver.pop()
            if c is not False:
                self._drop_ax(c)

    def retry(self):
        s = z3.Solver()
        s.set('timeout', 15000)
        for a in self.solver.assertions():
            s.add(a)
        t0 = time.time()
        try:
            r = s.check()
        except z3.Z3Exception:
            r = z3.unknown
        self.stats.solver_time += time.time() - t0
        return r, (s.model() if r == z3.sat else None)

    def simplify(self, c):
        """Rewrite with known literal equalities."""
        if not self.eqlit:
            k = self.lookup(c) if isinstance(c, T) and c.op not in ('tag',) else None
            return c if k is None else k
        m = {a: b for a, b in self.eqlit.items()}
        c2 = t.subst(c, m)
        if isinstance(c2, T) and c2.op not in ('tag', 'and', 'or', 'not'):
            k = self.lookup(c2)
            if k is not None:
                return k
        return c2


def split_apart(c):
    """The formula speaks of a string and of its components, whose relation the solver does not know."""
    if not isinstance(c, T):
        return False
    seen = set()
    whole = set()
    stack = [c]
    subjects = set()
    while stack:
        x = stack.pop()
        if not isinstance(x, T) or x in seen:
            continue
        seen.add(x)
        if x.op == 'ssplit':
            subjects.add(x.args[0])
            continue
        if x.sort == 'S':
            whole.add(x)
        stack.extend(x.args)
    return bool(subjects & whole)


AXIOMATIC = frozenset(('len', 'in', 'it', 'i2s', 'REF', 'fmt5f', 'hom', 'upper', 'lower'))


def axiom(s):
    op = s.op
    if op == 'len':
        return [t.z(s) >= 0]
    if op in ('in', 'it'):
        return [t.ztag(s, DOMAINS[s.args[0]])]
    if op == 'i2s':
        zs = t.z(s)
        return [z3.Length(zs) >= 1]
    if op == 'REF':
        # contract of the reference renderer (C02): empty, or starts with a quote or *
        r = t.z(s)
        return [z3.Implies(t.ztag(s.args[1], frozenset(('str',))),
                           z3.Or(z3.Length(r) == 0, *[z3.PrefixOf(t.zstr(q), r) for q in ('"', '`', '*')]))]
    if op == 'VAL':
        return None
    if op == 'fmt5f':
        return [z3.Length(t.z(s)) >= 7]
    if op == 'hom':
        out = []
        if t.hom_nonerasing(s.args[0]):
            out.append((z3.Length(t.z(s)) >= z3.Length(t.z(s.args[1]))))
            out.append((z3.Length(t.z(s.args[1])) == 0) == (z3.Length(t.z(s)) == 0))
            # characters that have no image stay as they are; removed characters disappear
        for c, r in s.args[0]:
            if c not in r and all(c not in r2 for _, r2 in s.args[0]):
                out.append(z3.Not(z3.Contains(t.z(s), t.zstr(c))))
        return out
    if op == 'upper' or op == 'lower':
        return [(z3.Length(t.z(s)) == 0) == (z3.Length(t.z(s.args[0])) == 0)]
    return None
