"""Sequences of arbitrary length: segments, loops over them, existential atoms, joins."""
import types

from . import terms as t
from .terms import T, mk
from .values import *  # noqa
from .values import Env, _stamp
from .engine import DOMAINS, MISSING


def setup(ip):
    ip.e.hooks['decide_ex'] = lambda c: decide_ex(ip, c)
    ip.e.hooks['assume_ex'] = lambda c, val: assume_ex(ip, c, val)
    ip.e.hooks['prove_eq'] = lambda c: prove_eq(ip, c)


# ---------------------------------------------------------------- templates
def level_of(*xs):
    lv = 0
    for x in xs:
        for v in t.free_vars(x):
            n = v.args[0]
            if n.startswith('#'):
                lv = max(lv, int(n[1:].split('K')[0]))
        if isinstance(x, T):
            for s in t.subterms(x):
                if s.op == 'tmpl':
                    lv = max(lv, s.args[0])
    return lv


def tmpl(bv, pairs, extra=None):
    """Closed template term over index variable bv; pairs [(guard, T|const|None)]."""
    groups = []
    for g, v in pairs:
        v = '%SKIP' if v is None else v
        for gr in groups:
            if gr[1] is v or (not isinstance(v, T) and not isinstance(gr[1], T) and type(v) == type(gr[1]) and v == gr[1]):
                gr[0] = t.or_(gr[0], g)
                break
        else:
            groups.append([g, v])
    if len(groups) == 1:
        groups[0][0] = True
    elif len(groups) == 2:
        # the guards are exclusive and exhaustive: state one, the other is its negation
        for i in (0, 1):
            g = groups[i][0]
            if isinstance(g, T) and (g.op == 'ex' or g.op == 'not' and g.args[0].op == 'ex'):
                groups[1 - i][0] = t.not_(g)
                break
    flat = [x for g in groups for x in g]
    lv = 1 + level_of(*flat)
    m = {bv: t.var('#%d' % lv, 'I')}
    if extra is not None:
        m[extra] = t.var('#%dK' % lv, 'Q')
    flat = [t.subst(x, m) if isinstance(x, T) else x for x in flat]
    return mk('tmpl', 'X', lv, *flat)


def tmpl_pairs(tm, idx, kroot=None):
    lv = tm.args[0]
    m = {t.var('#%d' % lv, 'I'): idx}
    if kroot is not None:
        m[t.var('#%dK' % lv, 'Q')] = kroot
    a = tm.args[1:]
    out = []
    for i in range(0, len(a), 2):
        g = t.subst(a[i], m) if isinstance(a[i], T) else a[i]
        v = t.subst(a[i + 1], m) if isinstance(a[i + 1], T) else a[i + 1]
        out.append((g, v))
    return out


def ex_formula(tm, idx):
    """Boolean template instantiated at idx."""
    return t.or_(*[t.and_(g, v) for g, v in tmpl_pairs(tm, idx) if not isinstance(v, str)])


# ---------------------------------------------------------------- instantiation
def instantiate(ip, v, m, mark, memo=None):
    """Copy of v with index variables substituted; objects older than `mark` are shared."""
    memo = {} if memo is None else memo
    if isinstance(v, T):
        return t.subst(v, m) if m else v
    if v is None or isinstance(v, (bool, int, str, float, bytes, type)):
        return v
    k = id(v)
    if k in memo:
        return memo[k]
    if isinstance(v, (SSeq, SDict, SObj)) and v.term is not None:
        nt = t.subst(v.term, m) if m else v.term
        if nt is v.term:
            return v
        r = ip.force(nt)
        memo[k] = r
        return r
    if isinstance(v, SSeq):
        if v.stamp <= mark:
            return v
        r = SSeq(v.kind, ())
        memo[k] = r
        r.entries = tuple(instantiate(ip, x, m, mark, memo) for x in v.entries)
        return r
    if isinstance(v, SDict):
        if v.stamp <= mark:
            return v
        r = SDict(v.kind, ())
        memo[k] = r
        r.entries = tuple(instantiate(ip, x, m, mark, memo) for x in v.entries)
        return r
    if isinstance(v, SObj):
        if v.stamp <= mark:
            return v
        r = SObj(v.cls)
        memo[k] = r
        for n, x in v.attrs.items():
            r.attrs[n] = instantiate(ip, x, m, mark, memo)
        if v.entries is not None:
            r.entries = tuple(instantiate(ip, x, m, mark, memo) for x in v.entries)
        return r
    if isinstance(v, tuple):
        return tuple(instantiate(ip, x, m, mark, memo) for x in v)
    if isinstance(v, Seg):
        root = t.subst(v.root, m)
        if not m:
            return Seg(v.root, v.bv, [(g, instantiate(ip, x, m, mark, memo)) for g, x in v.paths])
        return Seg(root, v.bv, [(t.subst(g, m) if isinstance(g, T) else g, instantiate(ip, x, m, mark, memo))
                                for g, x in v.paths])
    if isinstance(v, SBound):
        return SBound(v.func, instantiate(ip, v.self, m, mark, memo))
    if isinstance(v, SBuiltin):
        return SBuiltin(v.name, instantiate(ip, v.self, m, mark, memo), v.owner)
    if isinstance(v, SMatch):
        return SMatch(instantiate(ip, v.cond, m, mark, memo))
    return v


# ---------------------------------------------------------------- segments
def base_seg(root, shape):
    bv = t.fresh('i', 'I')
    return Seg(root, bv, [(True, shape(bv))])


def at(ip, seg, idx, mark=0):
    """Element of seg at root index idx: forks over the template paths, returns value or SKIP."""
    e = ip.e
    assume_facts(ip, seg.root, idx)
    paths = seg.paths
    m = {seg.bv: idx}
    live = []
    for g, v in paths:
        gi = t.subst(g, m) if isinstance(g, T) else g
        if gi is False:
            continue
        live.append((gi, v))
    if len(live) > 1:
        k = e.fork(tuple(range(len(live))))
    else:
        k = 0
    if not live:
        raise PathAbort()     # the guards of a segment are exhaustive: no such index here
    g, v = live[k]
    e.assume(g) if g is not True else None
    if len(live) > 1 and not e.path_feasible():
        raise PathAbort()
    if v is SKIP:
        return SKIP
    return instantiate(ip, v, m, seg_mark(seg))


def seg_mark(seg):
    return 0 if seg.bv is None else _seg_marks.get(seg.bv, 0)


_seg_marks = {}
_tok_parent = {}


def assume_facts(ip, root, idx):
    e = ip.e
    key = ('inst', root, idx)
    if key in e.facts:
        return
    e.set_item(e.facts, key, True)
    for bv, f in e.allfacts.get(root, ()):
        e.add_fact_soft(t.subst(f, {bv: idx}))
    op = root.op
    if op == 'tail':
        assume_facts(ip, root.args[0], t.add(idx, 1))
    elif op == 'drop':
        assume_facts(ip, root.args[0], t.add(idx, root.args[1], 1))
    elif op in ('take', 'init'):
        assume_facts(ip, root.args[0], idx)
        if op == 'take':
            e.add_fact_soft(t.not_(t.le(root.args[1], idx)))
    elif op in ('sorted', 'kept', 'rev', 'uniq'):
        assume_facts(ip, root.args[0], mk('src', 'I', root, idx))
    elif root in _tok_parent:
        assume_facts(ip, _tok_parent[root], mk('src', 'I', root, idx))
        for r, j in ip.loops:
            if r is _tok_parent[root]:
                distinct(ip, r, mk('src', 'I', root, idx), j)


class MapKeys(dict):
    """Roots of dictionaries: key of element i.  Dictionaries that are elements of a sequence are registered once for all."""

    def family(self, root):
        return root.args[:2] if isinstance(root, T) and root.op == 'sub' else None

    def __contains__(self, root):
        f = self.family(root)
        return dict.__contains__(self, root if f is None else f)

    def __getitem__(self, root):
        f = self.family(root)
        if f is None:
            return dict.__getitem__(self, root)
        g = dict.__getitem__(self, f)
        return lambda i: g(root, i)


map_keys = MapKeys()     # roots of dictionaries: pairwise different keys


def base_index(root, idx):
    """Root and index of the input the element idx of a derived root comes from."""
    while True:
        op = root.op
        if op == 'tail':
            root, idx = root.args[0], t.add(idx, 1)
        elif op == 'drop':
            root, idx = root.args[0], t.add(idx, root.args[1], 1)
        elif op in ('take', 'init'):
            root = root.args[0]
        elif op in ('sorted', 'kept', 'rev', 'uniq'):
            root, idx = root.args[0], mk('src', 'I', root, idx)
        elif root in _tok_parent:
            root, idx = _tok_parent[root], mk('src', 'I', root, idx)
        else:
            return root, idx


def distinct(ip, root, i, j):
    """Elements i and j are different elements: their dictionary keys differ."""
    base, bi = base_index(root, i)
    if base in map_keys:
        _, bj = base_index(root, j)
        ip.e.add_fact_soft(t.not_(t.eq(map_keys[base](bi), map_keys[base](bj))))


def index_of_key(seg, key):
    """Index of the one element of a dictionary segment with the given key, None if that is not plain."""
    if len(seg.paths) != 1 or seg.paths[0][0] is not True or seg.paths[0][1] is SKIP or not isinstance(key, T) or seg.bv is None:
        return None
    x = seg.paths[0][1]
    k = x[0] if isinstance(x, tuple) else x.entries[0] if isinstance(x, SSeq) else None
    if k is not key_at(seg.root, seg.bv) or k is None:
        return None
    base, _ = base_index(seg.root, seg.bv)
    if key.op != 'sval' or key.args[0].op != 'it':
        return None
    x = key.args[0].args[2]
    if map_keys[base](x) is not key:
        return None

    def locate(root):
        if root is base:
            return x
        if root.op in ('sorted', 'rev', 'kept', 'uniq') or root in _tok_parent:
            y = locate(root.args[0] if root not in _tok_parent else _tok_parent[root])
            if isinstance(y, T) and y.op == 'src' and y.args[0] is root:
                return y.args[1]
        return None
    return locate(seg.root)


def key_at(root, idx):
    """Dictionary key of element idx, None if the root does not come from a dictionary."""
    base, bi = base_index(root, idx)
    return map_keys[base](bi) if base in map_keys else None


def sub_root(ip, seg, root, idxmap):
    """Segment over another root whose element k is the parent's element idxmap(k)."""
    bv = t.fresh('i', 'I')
    m = {seg.bv: idxmap(bv)}
    mark = seg_mark(seg)
    s = Seg(root, bv, [(t.subst(g, m) if isinstance(g, T) else g, v if v is SKIP else instantiate(ip, v, m, mark))
                       for g, v in seg.paths])
    _seg_marks[bv] = mark
    return s


def norm(ip, entries):
    """Expand segments whose root was case split on this path."""
    e = ip.e
    if not any(isinstance(x, Seg) and (x.root in e.unfolded or x.root.op == 'kept' and of_one(ip, x.root)) for x in entries):
        return list(entries)
    out = []
    for x in entries:
        if isinstance(x, Seg) and x.root in e.unfolded:
            out.extend(norm(ip, expand(ip, x)))
        elif isinstance(x, Seg) and x.root.op == 'kept' and of_one(ip, x.root) and keeps_first(ip, x.root):
            m = {mk('src', 'I', x.root, x.bv): 0}
            mark = seg_mark(x)
            one = Seg(x.root, x.bv, [(t.subst(g, m) if isinstance(g, T) else g, v if v is SKIP else instantiate(ip, v, m, mark)) for g, v in x.paths])
            h = at(ip, one, 0)
            out.extend([] if h is SKIP else [h])
        else:
            out.append(x)
    return out


def expand(ip, seg):
    u = ip.e.unfolded[seg.root]
    root = seg.root
    if u == 'empty':
        return []
    if u == 'cons':
        h = at(ip, seg, 0)
        tl = sub_root(ip, seg, mk('tail', 'Q', root), lambda k: t.add(k, 1))
        return ([] if h is SKIP else [h]) + [tl]
    if u == 'snoc':
        last = t.add(mk('len', 'I', root), -1)
        h = at(ip, seg, last)
        ini = sub_root(ip, seg, mk('init', 'Q', root), lambda k: k)
        return [ini] + ([] if h is SKIP else [h])
    kind, w = u
    h = at(ip, seg, w)
    a = sub_root(ip, seg, mk('take', 'Q', root, w), lambda k: k)
    b = sub_root(ip, seg, mk('drop', 'Q', root, w), lambda k: t.add(k, w, 1))
    return [a] + ([] if h is SKIP else [h]) + [b]


def rlen(ip, root):
    """Length of a root, normalised by the case splits of this path."""
    u = ip.e.unfolded.get(root)
    if u == 'empty':
        return 0
    if u == 'cons':
        return t.add(1, rlen(ip, mk('tail', 'Q', root)))
    if u == 'snoc':
        return t.add(1, rlen(ip, mk('init', 'Q', root)))
    if u is not None:
        return t.add(1, rlen(ip, mk('take', 'Q', root, u[1])), rlen(ip, mk('drop', 'Q', root, u[1])))
    if root.op in ('sorted', 'rev') and (len(root.args) == 1 or root.args[1] == 'by key' or
                                         isinstance(root.args[1], T) and root.args[1].op == 'tmpl' and not tm_skips(root.args[1])):
        return rlen(ip, root.args[0])
    return mk('len', 'I', root)


def length(ip, entries):
    n = 0
    for x in norm(ip, entries):
        if isinstance(x, Seg):
            if x.one_to_one:
                n = t.add(n, rlen(ip, x.root))
            else:
                n = t.add(n, mk('len', 'I', x.root, keep_tmpl(x)))
        else:
            n = t.add(n, 1)
    return n


def keep_tmpl(seg):
    return tmpl(seg.bv, [(g, False if v is SKIP else True) for g, v in seg.paths])


def seg_empty(ip, seg):
    """Branch: is the segment empty?"""
    if not seg.one_to_one:
        return not ip.e.branch(mk('ex', 'B', seg.root, keep_tmpl(seg)))
    return ip.e.branch(t.eq(rlen(ip, seg.root), 0))


def split_root(ip, root, how):
    e = ip.e
    if root in e.unfolded:
        return
    e.set_item(e.unfolded, root, how)
    ln = mk('len', 'I', root)
    if how == 'empty':
        e.add_fact(t.eq(ln, 0))
    elif how == 'cons':
        e.add_fact(t.eq(ln, t.add(1, mk('len', 'I', mk('tail', 'Q', root)))))
    elif how == 'snoc':
        e.add_fact(t.eq(ln, t.add(1, mk('len', 'I', mk('init', 'Q', root)))))
    else:
        e.add_fact(t.eq(ln, t.add(1, mk('len', 'I', mk('take', 'Q', root, how[1])),
                                  mk('len', 'I', mk('drop', 'Q', root, how[1])))))


def unfold(ip, entries, end=False):
    """Make the first (last) entry a plain value: case split the leading (trailing) segment."""
    entries = norm(ip, entries)
    while entries and isinstance(entries[-1 if end else 0], Seg):
        seg = entries[-1 if end else 0]
        if ip.e.branch(t.eq(rlen(ip, seg.root), 0)):
            split_root(ip, seg.root, 'empty')
        else:
            split_root(ip, seg.root, 'snoc' if end else 'cons')
        entries = norm(ip, entries)
    return entries


def expose(ip, entries, first, last):
    entries = norm(ip, entries)
    i = 0
    while i < first and i < len(entries):
        rest = unfold(ip, entries[i:])
        entries = entries[:i] + rest
        if len(entries) <= i:
            break
        i += 1
    k = 0
    while k < last and len(entries) - k > i:
        cut = len(entries) - k
        entries = unfold(ip, entries[:cut], end=True) + entries[cut:]
        k += 1
    return entries


def exact(ip, entries, n):
    """Entries as exactly n plain values, or None when the length differs."""
    entries = norm(ip, entries)
    i = 0
    while i < len(entries):
        if isinstance(entries[i], Seg):
            plain = sum(1 for x in entries if not isinstance(x, Seg))
            if plain > n:
                return None
            entries = entries[:i] + unfold(ip, entries[i:])
            continue
        i += 1
        if i > n:
            return None
    return entries if len(entries) == n else None


def cmp_len(ip, term, c):
    """Case split `len` roots of an integer term so that comparing it with constant c is decided."""
    e = ip.e
    for _ in range(40):
        term = norm_len(ip, term)
        if not isinstance(term, T):
            return term
        args = term.args if term.op == 'add' else (term,)
        k = sum(a for a in args if isinstance(a, int))
        lens = [a for a in args if isinstance(a, T)]
        for a in lens:
            if a.op == 'len' and len(a.args) == 2 and k <= c:
                # number of elements that satisfy a condition: is there one?
                if e.branch(mk('ex', 'B', *a.args)):
                    e.add_fact(t.le(1, a))
                else:
                    return cmp_len(ip, t.add(*[b for b in args if b is not a]), c)
        if any(a.op != 'len' or len(a.args) != 1 for a in lens) or k > c or c - k > 8:
            return term
        root = lens[0].args[0]
        if e.branch(t.eq(lens[0], 0)):
            split_root(ip, root, 'empty')
        else:
            split_root(ip, root, 'cons')
    return term


def norm_len(ip, term):
    if not isinstance(term, T):
        return term
    args = term.args if term.op == 'add' else (term,)
    return t.add(*[one_len(ip, a) for a in args])


def one_len(ip, a):
    if isinstance(a, T) and a.op == 'neg':
        return t.neg(one_len(ip, a.args[0]))
    return rlen(ip, a.args[0]) if isinstance(a, T) and a.op == 'len' and len(a.args) == 1 else a


# ---------------------------------------------------------------- existential atoms
def witness(c):
    return mk('first', 'I', c.args[0], c.args[1])


def decide_ex(ip, c):
    """Decide an existential atom from the facts, or None."""
    e = ip.e
    root, tm = c.args
    root_ents = [root]
    if root in e.unfolded:
        u = e.unfolded[root]
        if u == 'empty':
            return False
    if e.lookup(t.eq(rlen(ip, root), 0)) is True:
        return False
    for w in e.witnesses.get(root, ()):
        with e.scope():
            if e.valid(ex_formula(tm, w)):
                return True
    if e.allfacts.get(root) and e.lookup(t.eq(rlen(ip, root), 0)) is False:
        with e.scope():
            assume_facts(ip, root, 0)
            if e.valid(ex_formula(tm, 0)):
                return True
    # refute for a generic element
    def thunk():
        j = t.fresh('j', 'I')
        assume_facts(ip, root, j)
        e.assume(ex_formula(tm, j))
        if not e.path_feasible():
            raise PathAbort()
        return True
    try:
        outs = e.explore(thunk, max_paths=200)
    except Unsupported:
        return None
    if not outs:
        return False
    # known existential with an equivalent body
    for f in list(e.facts):
        if isinstance(f, T):
            neg = f.op == 'not' and f.args[0].op == 'ex'
            g = f.args[0] if neg else f
            if g.op == 'ex' and g.args[0] is root and g is not c:
                if implies_pointwise(ip, root, c if neg else g, g if neg else c):
                    return not neg
    return None


def implies_pointwise(ip, root, a, b):
    """forall j: a(j) => b(j)"""
    e = ip.e

    def thunk():
        j = t.fresh('j', 'I')
        assume_facts(ip, root, j)
        e.assume(ex_formula(a.args[1], j))
        if e.valid(ex_formula(b.args[1], j)):
            raise PathAbort()
        if not e.path_feasible():
            raise PathAbort()
        return True
    try:
        return not e.explore(thunk, max_paths=200)
    except Unsupported:
        return False


def assume_ex(ip, c, val):
    e = ip.e
    root, tm = c.args
    if val:
        e._push_fact(c)
        w = witness(c)
        e.set_item(e.witnesses, root, e.witnesses.get(root, ()) + (w,))
        if root.op in ('sorted', 'kept', 'rev', 'uniq'):
            pass
        assume_facts(ip, root, w)
        e.add_fact_soft(ex_formula(tm, w))
        e.add_fact(t.le(0, w))
        e.add_fact(t.not_(t.le(rlen(ip, root), w)))
        bv = t.fresh('i', 'I')
        before = mk('take', 'Q', root, w)
        e.set_item(e.allfacts, before, e.allfacts.get(before, ()) + ((bv, t.not_(ex_formula(tm, bv))),))
    else:
        e._push_fact(t.not_(c))
        add_allfact(ip, root, lambda bv: t.not_(ex_formula(tm, bv)))
        if len(e.allfacts.get(root, ())) > 1 and root not in e.unfolded and e.lookup(t.eq(mk('len', 'I', root), 0)) is None:
            # the facts about all elements may be contradictory: then there is none
            def thunk():
                assume_facts(ip, root, t.fresh('j', 'I'))
                if not e.path_feasible():
                    raise PathAbort()
                return True
            try:
                if not e.explore(thunk, max_paths=50):
                    split_root(ip, root, 'empty')
            except Unsupported:
                pass


def add_allfact(ip, root, mkf):
    e = ip.e
    bv = t.fresh('i', 'I')
    f = mkf(bv)
    e.set_item(e.allfacts, root, e.allfacts.get(root, ()) + ((bv, f),))
    for key in list(e.facts):
        if isinstance(key, tuple) and key[0] == 'inst' and key[1] is root:
            e.add_fact_soft(t.subst(f, {bv: key[2]}))


# ---------------------------------------------------------------- splitting strings
def lacks(ip, s, ch):
    """The character is known not to occur in the string."""
    from . import models
    c = models.str_contains(ip, s, ch)
    return c is False or isinstance(c, T) and ip.e.lookup(c) is False


def component(root, i):
    return t.sval(mk('it', 'V', 'STR', root, i))


def split_at(ip, s, sep):
    """Root of the components of s between occurrences of a character: at least one, none of them contains it."""
    from . import models
    root = mk('ssplit', 'Q', s, sep)
    split_root(ip, root, 'cons')
    known = ('ssplit', root)
    had = ip.e.facts.get(known, ())
    now = tuple(ch for ch in SPLIT_CHARS if ch == sep or lacks(ip, s, ch))
    if now != had:
        ip.e.set_item(ip.e.facts, known, now)
        for ch in now:
            if ch not in had:
                add_allfact(ip, root, lambda i, ch=ch: t.not_(models.str_contains(ip, component(root, i), ch)))
    return root


SPLIT_CHARS = '."`\'*'


def split_blocks(ip, seg):
    """Elements of re.split(pattern, s) where only the one-character alternative of the pattern can match:
    the components of s with one None per group between them; None if that is not known."""
    from . import regex
    flags, pattern = seg.root.args[0].split(':', 1)
    s = seg.root.args[1]
    p = regex.separators(pattern, int(flags))
    if p is None or p[0] not in SPLIT_CHARS or not all(any(lacks(ip, s, ch) for ch in need) for need in p[2]) \
            or len(seg.paths) != 1 or seg.paths[0][0] is not True or seg.paths[0][1] is SKIP:
        return None
    sep, groups, _ = p
    parts = split_at(ip, s, sep)
    mark = seg_mark(seg)

    def value(idx, x):
        v = instantiate(ip, seg.paths[0][1], {seg.bv: idx}, mark)
        return instantiate(ip, v, {mk('it', 'V', 'STRNONE', seg.root, idx): x}, mark)
    assume_facts(ip, parts, 0)
    first = value(0, mk('it', 'V', 'STR', parts, 0))
    rest = mk('tail', 'Q', parts)
    k = t.fresh('i', 'I')
    block = [value(t.add(t.times(groups + 1, k), i + 1), mk('it', 'V', 'NONE', parts, k)) for i in range(groups)]
    block.append(value(t.add(t.times(groups + 1, k), groups + 1), mk('it', 'V', 'STR', parts, t.add(k, 1))))
    return first, Seg(rest, k, [(True, SSeq('tuple', block))])


# ---------------------------------------------------------------- joins
def join(ip, sep, entries, text):
    """sep.join(text(x) for x in entries); text maps a value to a string."""
    entries = norm(ip, entries)
    pieces = []
    for x in entries:
        if isinstance(x, Seg):
            ps = []
            for g, v in x.paths:
                if v is SKIP:
                    ps.append((g, None))
                else:
                    s = text(v)
                    if not isinstance(s, (str, T)):
                        raise Unsupported('join of non-strings')
                    ps.append((g, s))
            pieces.append(('seg', x, tmpl(x.bv, ps)))
        else:
            s = text(x)
            pieces.append(('val', s, None))
    return render_join(ip, sep, pieces)


def render_join(ip, sep, pieces):
    vals = [i for i, p in enumerate(pieces) if p[0] == 'val']
    if not vals:
        if not pieces:
            return ''
        if len(pieces) == 1:
            return mk('join', 'S', sep, pieces[0][1].root, pieces[0][2])
        first = pieces[0]
        if seg_empty(ip, first[1]):
            return render_join(ip, sep, pieces[1:])
        out = [mk('join', 'S', sep, first[1].root, first[2])]
        for p in pieces[1:]:
            out.append(mk('jsuf', 'S', sep, p[1].root, p[2]))
        return t.cat(*out)
    f = vals[0]
    out = []
    for p in pieces[:f]:
        out.append(mk('jpre', 'S', sep, p[1].root, p[2]))
    out.append(pieces[f][1])
    for p in pieces[f + 1:]:
        if p[0] == 'seg':
            out.append(mk('jsuf', 'S', sep, p[1].root, p[2]))
        else:
            out.append(sep)
            out.append(p[1])
    return t.cat(*out)


def expand_join_atom(ip, p):
    """Rewrite a join atom whose root was split / is empty on this path; None if not applicable."""
    e = ip.e
    sep, root, tm = p.args
    u = e.unfolded.get(root)
    if u is None:
        if e.lookup(t.eq(rlen(ip, root), 0)) is True:
            return ''
        if root.op == 'kept':
            h = join_of_one_kept(ip, root, tm)
            return None if h is None else t.cat(sep, h) if p.op == 'jsuf' else t.cat(h, sep) if p.op == 'jpre' else h
        return None
    if u == 'empty':
        return ''

    def elem(idx):
        assume_facts(ip, root, idx)
        prs = [(g, v) for g, v in tmpl_pairs(tm, idx)]
        for g, v in prs:
            if g is True or e.valid(g):
                return v
        return None

    def shifted(newroot, f):
        bv = t.fresh('i', 'I')
        prs = [(g, None if isinstance(v, str) and v == '%SKIP' else v) for g, v in tmpl_pairs(tm, f(bv))]
        return newroot, tmpl(bv, prs)
    if u == 'cons':
        h = elem(0)
        if h is None:
            return None
        r, m = shifted(mk('tail', 'Q', root), lambda k: t.add(k, 1))
        segs = [('v', h), ('s', r, m)]
    elif u == 'snoc':
        h = elem(t.add(mk('len', 'I', root), -1))
        if h is None:
            return None
        r, m = shifted(mk('init', 'Q', root), lambda k: k)
        segs = [('s', r, m), ('v', h)]
    else:
        w = u[1]
        h = elem(w)
        if h is None:
            return None
        r1, m1 = shifted(mk('take', 'Q', root, w), lambda k: k)
        r2, m2 = shifted(mk('drop', 'Q', root, w), lambda k: t.add(k, w, 1))
        segs = [('s', r1, m1), ('v', h), ('s', r2, m2)]
    if isinstance(h, str) and h == '%SKIP':
        return None
    out = []
    seen = False
    for s in segs:
        if s[0] == 'v':
            if p.op == 'jsuf':
                out += [sep, s[1]]
            elif p.op == 'jpre':
                out += [s[1], sep]
            else:
                out += [s[1]]
            seen = True
        else:
            op = p.op
            if op == 'join':
                op = 'jsuf' if seen else 'jpre'
            out.append(mk(op, 'S', sep, s[1], s[2]))
    return t.cat(*out)


def of_one(ip, root):
    """A filter of a sequence of exactly one element?"""
    src = root.args[0]
    return ip.e.unfolded.get(src) == 'cons' and ip.e.lookup(t.eq(mk('len', 'I', mk('tail', 'Q', src)), 0)) is True


def keeps_first(ip, root):
    K = t.fresh('K', 'Q')
    assume_facts(ip, root.args[0], 0)
    try:
        keep = t.or_(*[without_K(g, K) for g, v in tmpl_pairs(root.args[1], 0, K) if v is True])
    except LookupError:
        return False
    return keep is True or isinstance(keep, T) and ip.e.valid(keep)


def join_of_one_kept(ip, root, tm):
    """A filter of a sequence of one element that keeps it: that element."""
    e = ip.e
    if not of_one(ip, root) or not keeps_first(ip, root):
        return None
    first = {mk('src', 'I', root, 0): 0}
    for g, v in tmpl_pairs(tm, 0):
        g = t.subst(g, first) if isinstance(g, T) else g
        v = t.subst(v, first) if isinstance(v, T) else v
        if g is True or isinstance(g, T) and e.valid(g):
            return None if isinstance(v, str) and v == '%SKIP' else v
    return None


def rejoin(s):
    """The components of a string joined by the character it was split at are the string."""
    ps = t.parts(s)
    out = []
    i = 0
    while i < len(ps):
        p = ps[i]
        if i + 1 < len(ps) and isinstance(p, T) and p.op == 'sval' and isinstance(p.args[0], T) and p.args[0].op == 'it':
            _, root, idx = p.args[0].args
            q = ps[i + 1]
            if idx == 0 and isinstance(root, T) and root.op == 'ssplit' and isinstance(q, T) and q.op == 'jsuf' \
                    and q.args[0] == root.args[1] and q.args[1] is mk('tail', 'Q', root) \
                    and q.args[2] is tmpl_of(lambda k: component(root, t.add(k, 1))):
                out.append(root.args[0])
                i += 2
                continue
        out.append(p)
        i += 1
    return t.cat(*out) if len(out) != len(ps) else s


def tmpl_of(f):
    bv = t.fresh('i', 'I')
    return tmpl(bv, [(True, f(bv))])


def expand_joins(ip, s):
    s = expand_all_joins(ip, s)
    if any(isinstance(x, T) and x.op == 'jsuf' and 'tail' == getattr(x.args[1], 'op', '') for x in t.parts(s)):
        s = rejoin(s)
    return s


def expand_all_joins(ip, s):
    for _ in range(20):
        changed = False
        out = []
        for p in t.parts(s):
            if isinstance(p, T) and p.op in ('join', 'jpre', 'jsuf'):
                r = expand_join_atom(ip, p)
                if r is not None:
                    out.append(r)
                    changed = True
                    continue
            out.append(p)
        s = t.cat(*out)
        if not changed:
            break
    return s


# ---------------------------------------------------------------- equality proofs
def prove_eq(ip, c):
    a, b = c.args
    srt = t.sort_of(a)
    if srt == 'S':
        return prove_eq_s(ip, a, b)
    if srt == 'I' and isinstance(a, T) and isinstance(b, T):
        return same_witness(ip, a, b)
    return False


def same_witness(ip, a, b):
    if a.op == b.op and a.op in ('first', 'last') and a.args[0] is b.args[0]:
        x = mk('ex', 'B', a.args[0], a.args[1])
        y = mk('ex', 'B', b.args[0], b.args[1])
        return implies_pointwise(ip, a.args[0], x, y) and implies_pointwise(ip, a.args[0], y, x)
    return False


def known_texts(ip, s):
    """Renderings whose value became known (None, integer, SQL object) after the term was built."""
    if not isinstance(s, T) or s.sort != 'S':
        return s
    out = []
    hit = False
    for p in t.parts(s):
        if isinstance(p, T) and p.op in ('VAL', 'REF') and isinstance(p.args[1], T) and p.args[1].sort == 'V':
            v = p.args[1]
            d = ip.e.dom(v)
            if d == {'none'} and p.op == 'VAL':
                p = 'NULL'
            elif d == {'int'}:
                p = t.i2s(t.ival(v))
            elif d and d <= {'sql', 'foreign'}:
                p = mk('TEXT', 'S', v)
            elif d and d <= {'select', 'union'}:
                p = t.cat('(', mk('TEXT', 'S', v), ')')
            hit = True
        out.append(p)
    return t.cat(*out) if hit else s


def prove_eq_s(ip, a, b):
    e = ip.e
    a, b = known_texts(ip, expand_joins(ip, a)), known_texts(ip, expand_joins(ip, b))
    c = e.simplify(t.eq(a, b)) if not (a is b) else True
    if c is True:
        return True
    if c is False or c.op != 'eq':
        return c is not False and c.op == 'and' and e.valid(c)
    a, b = c.args
    if t.sort_of(a) != 'S':
        return e.valid(c)
    pa, pb = list(t.parts(a)), list(t.parts(b))
    n = 0
    while pa and pb:
        n += 1
        if n > 200:
            return False
        x, y = pa[0], pb[0]
        if x is y:
            pa.pop(0)
            pb.pop(0)
            continue
        if isinstance(x, str) and isinstance(y, str):
            k = min(len(x), len(y))
            if x[:k] != y[:k]:
                return False
            pa[0:1] = [x[k:]] if x[k:] else []
            pb[0:1] = [y[k:]] if y[k:] else []
            continue
        if isinstance(x, T) and isinstance(y, T) and same_atom(ip, x, y):
            pa.pop(0)
            pb.pop(0)
            continue
        # separated joins of a non-empty sequence
        ex = plain_join(ip, pa, y)
        if ex is not None:
            pa = ex
            continue
        ey = plain_join(ip, pb, x)
        if ey is not None:
            pb = ey
            continue
        ex = split_sep(ip, x)
        if ex is not None:
            pa[0:1] = ex
            continue
        ey = split_sep(ip, y)
        if ey is not None:
            pb[0:1] = ey
            continue
        # maybe an atom is empty on this path
        if empty_join(ip, x):
            pa.pop(0)
            continue
        if empty_join(ip, y):
            pb.pop(0)
            continue
        if isinstance(x, T) and x.op != 'i2s' and e.valid_z(t.eqs(x, '')):
            pa.pop(0)
            continue
        if isinstance(y, T) and y.op != 'i2s' and e.valid_z(t.eqs(y, '')):
            pb.pop(0)
            continue
        return False
    rest = pa or pb
    for p in rest:
        if isinstance(p, str) or not (empty_join(ip, p) or e.valid_z(t.eqs(p, ''))):
            return False
    return True


def empty_join(ip, x):
    return isinstance(x, T) and x.op in ('join', 'jpre', 'jsuf') and ip.e.valid_z(t.eq(rlen(ip, x.args[1]), 0))


def split_sep(ip, x):
    """jpre/jsuf of a sequence known to be non-empty as join and separator."""
    if not isinstance(x, T) or x.op not in ('jpre', 'jsuf'):
        return None
    sep, root, tm = x.args
    if not isinstance(sep, str) or tm_skips(tm) or not ip.e.valid_z(t.not_(t.eq(rlen(ip, root), 0))):
        return None
    j = mk('join', 'S', sep, root, tm)
    return [j, sep] if x.op == 'jpre' else [sep, j]


def tm_skips(tm):
    return any(isinstance(v, str) and v == '%SKIP' for v in tm.args[2::2])


def plain_join(ip, ps, other):
    """The atom at the front of ps as a join without separator, if `other` is one: sep ++ join(sep, ...) and jsuf."""
    if not (isinstance(other, T) and other.op == 'join' and other.args[0] == ''):
        return None
    x = ps[0]
    if isinstance(x, T) and x.op in ('jsuf', 'jpre') and isinstance(x.args[0], str):
        sep, root, tm = x.args
        return [separated(sep, root, tm, x.op == 'jsuf')] + ps[1:]
    if isinstance(x, str) and len(ps) > 1 and isinstance(ps[1], T) and ps[1].op == 'join' and ps[1].args[0] == x:
        sep, root, tm = ps[1].args
        if not tm_skips(tm) and ip.e.valid_z(t.not_(t.eq(rlen(ip, root), 0))):
            return [separated(sep, root, tm, True)] + ps[2:]
    return None


def separated(sep, root, tm, before):
    bv = t.fresh('i', 'I')
    prs = []
    for g, v in tmpl_pairs(tm, bv):
        skip = isinstance(v, str) and v == '%SKIP'
        prs.append((g, None if skip else t.cat(sep, v) if before else t.cat(v, sep)))
    return mk('join', 'S', '', root, tmpl(bv, prs))


def indexed_sep(x):
    """join with a separator as one without, the separator being put before all elements but the first."""
    sep, root, tm = x.args
    bv = t.fresh('i', 'I')
    prs = []
    for g, v in tmpl_pairs(tm, bv):
        first = t.eq(bv, 0)
        prs += [(t.and_(g, first), v), (t.and_(g, t.not_(first)), t.cat(sep, v))]
    return mk('join', 'S', '', root, tmpl(bv, prs))


def same_atom(ip, x, y):
    e = ip.e
    if x.op == y.op == 'join' and x.args[0] != y.args[0]:
        if x.args[0] == '' and isinstance(y.args[0], str) and not tm_skips(y.args[2]):
            y = indexed_sep(y)
        elif y.args[0] == '' and isinstance(x.args[0], str) and not tm_skips(x.args[2]):
            x = indexed_sep(x)
    if x.op == y.op and x.op in ('join', 'jpre', 'jsuf') and x.args[0] == y.args[0]:
        if x.args[1] is y.args[1] or same_root(ip, x.args[1], y.args[1]):
            return tmpl_equal(ip, x.args[1], x.args[2], y.args[2])
        if t.eq(rlen(ip, x.args[1]), rlen(ip, y.args[1])) is not False and e.valid_z(t.eq(rlen(ip, x.args[1]), rlen(ip, y.args[1]))):
            # the elements are given by the templates, the root gives the number of them only
            return tmpl_equal(ip, x.args[1], x.args[2], y.args[2])
        return False
    if x.op == y.op and x.op == 'hom' and x.args[0] == y.args[0]:
        return e.valid(t.eqs(x.args[1], y.args[1]))
    if x.op == y.op and len(x.args) == len(y.args) and x.op in ('VAL', 'REF', 'TEXT', 'fmt', 'iso', 'hex', 'upper', 'lower', 'strip', 'strof', 'call'):
        for p, q in zip(x.args, y.args):
            if p is q:
                continue
            if not isinstance(p, T) or not isinstance(q, T):
                if isinstance(p, T) or isinstance(q, T):
                    if t.sort_of(p) == t.sort_of(q) and e.valid(t.eq(p, q)):
                        continue
                    return False
                if p != q:
                    return False
                continue
            if p.sort != q.sort or not e.valid(t.eq(p, q)):
                return False
        return True
    return e.valid_z(t.eqs(x, y)) if t.eqs(x, y) is not False else False


def same_root(ip, a, b):
    if a is b:
        return True
    if a.op != b.op or len(a.args) != len(b.args):
        return False
    for i, (p, q) in enumerate(zip(a.args, b.args)):
        if p is q:
            continue
        if isinstance(p, T) and isinstance(q, T):
            if p.op == 'tmpl' and q.op == 'tmpl':
                if a.op in ('sortcat', 'uniqcat'):
                    # pieces: a root and the template of its elements
                    if isinstance(a.args[i - 1], T) and a.args[i - 1].sort == 'Q' and tmpl_equal(ip, a.args[i - 1], p, q):
                        continue
                    return False
                if a.op == 'kept':
                    if kept_equal(ip, a.args[0], p, q):
                        continue
                    return False
                if not tmpl_equal(ip, a.args[0], p, q):
                    return False
            elif p.sort == 'Q' and q.sort == 'Q':
                if not same_root(ip, p, q):
                    return False
            elif p.sort == 'I' and q.sort == 'I':
                if not ip.e.valid(t.eq(p, q)):
                    return False
            else:
                return False
        elif isinstance(p, T) or isinstance(q, T) or p != q:
            return False
    return True


def tmpl_equal(ip, root, m1, m2):
    """Pointwise equality of two templates over the same root."""
    if m1 is m2:
        return True
    e = ip.e

    def thunk():
        j = t.fresh('j', 'I')
        assume_facts(ip, root, j)
        e.add_fact_soft(t.le(0, j))
        p1, p2 = tmpl_pairs(m1, j), tmpl_pairs(m2, j)
        k = e.fork(tuple((a, b) for a in range(len(p1)) for b in range(len(p2))))
        g1, v1 = p1[k[0]]
        g2, v2 = p2[k[1]]
        e.assume(g1)
        e.assume(g2)
        if not e.path_feasible():
            raise PathAbort()
        s1 = isinstance(v1, str) and v1 == '%SKIP'
        s2 = isinstance(v2, str) and v2 == '%SKIP'
        if s1 and s2:
            raise PathAbort()
        if s1 != s2:
            return False
        if e.valid(t.eq(v1, v2)):
            raise PathAbort()
        return False
    try:
        return not e.explore(thunk, max_paths=6000)
    except Unsupported:
        return False


def kept_equal(ip, root, m1, m2):
    """Two order-preserving filters of the same root that depend on what was kept before.

    Same placeholder for the kept prefix on both sides; equal if they decide alike for every element
    and every prefix (kept elements are given by their source index in both, so the induction on the
    sequence carries)."""
    if m1 is m2:
        return True
    e = ip.e
    K = t.fresh('K', 'Q')
    _tok_parent[K] = root

    def thunk():
        j = t.fresh('j', 'I')
        assume_facts(ip, root, j)
        p1, p2 = tmpl_pairs(m1, j, K), tmpl_pairs(m2, j, K)
        k = e.fork(tuple((a, b) for a in range(len(p1)) for b in range(len(p2))))
        g1, v1 = p1[k[0]]
        g2, v2 = p2[k[1]]
        if v1 is v2 or v1 == v2:
            raise PathAbort()
        e.assume(g1)
        e.assume(g2)
        if not e.path_feasible():
            raise PathAbort()
        return False
    try:
        return not e.explore(thunk, max_paths=6000)
    except Unsupported:
        return False


# ---------------------------------------------------------------- iteration
def unordered(ip, v):
    """Is v a set built by the program, whose order (and, with segments, size) is not determined?"""
    if isinstance(v, (set, frozenset)):
        return len(v) > 1
    if not (isinstance(v, SSeq) and v.kind in ('set', 'frozenset')):
        return False
    ents = norm(ip, v.entries)
    if len(ents) < 2 and not any(isinstance(x, Seg) for x in ents):
        return False
    return not pristine(v)


def pristine(v):
    """An input set nobody changed: its root lists the elements in the order of iteration, once each."""
    return v.term is not None and len(v.entries) == 1 and isinstance(v.entries[0], Seg) and \
        v.entries[0].root.op == 'items' and v.entries[0].root.args[0] is v.term and v.entries[0].one_to_one


def distinct_entries(ip, ents):
    """Are the elements of a built set provably different?  (keys of one dictionary)"""
    if not any(isinstance(x, Seg) for x in ents):
        return True                        # set_add compared them
    if len(ents) != 1:
        return False
    seg = ents[0]
    vs = [v for _, v in seg.paths if v is not SKIP]
    return all(isinstance(v, T) and v is key_at(seg.root, seg.bv) for v in vs)


def iter_entries(ip, v, ordered=True):
    """The elements of any iterable as a list of values and segments."""
    from . import models
    v = ip.force(v)
    if ordered and unordered(ip, v):
        return some_order(ip, v)
    if isinstance(v, SSeq):
        ents = norm(ip, v.entries)
        if v.kind in ('gen', 'iter'):
            ip.note_write(v)
            ip.e.set_attr(v, 'entries', ())
        return ents
    if isinstance(v, SDict):
        return keys_of(ip, models.dict_view(ip, v))
    if isinstance(v, SGen):
        if v.done:
            return []
        ip.e.set_attr(v, 'done', True)
        return comp_entries(ip, v.node, v.frame, v.first)
    if isinstance(v, SIter):
        return iter_entries(ip, v.seq, ordered)
    if isinstance(v, SObj):
        f = ip.class_lookup(v.cls, '__iter__')
        if isinstance(f, types.FunctionType):
            return iter_entries(ip, ip.call(f, [v], {}), ordered)
        if v.entries is not None:
            return norm(ip, v.entries)
        ip.throw(TypeError, 'not iterable')
    if isinstance(v, T):
        if v.sort == 'S':
            return models.char_entries(ip, v)
        ip.throw(TypeError, 'not iterable')
    v = ip.real_view(v)
    if isinstance(v, (SSeq, SDict)):
        return iter_entries(ip, v, ordered)
    if isinstance(v, (list, tuple, set, frozenset, range, str, bytes)) or isinstance(v, dict):
        return list(v)
    if isinstance(v, (type({}.keys()), type({}.values()), type({}.items()))):
        return [SSeq('tuple', x) if isinstance(x, tuple) else x for x in v]
    if v is None or isinstance(v, (bool, int, float, type, types.FunctionType, SFunc, SBound)):
        if isinstance(v, type) and hasattr(type(v), '__iter__'):
            return list(v)
        ip.throw(TypeError, 'not iterable')
    if isinstance(v, models.SOpaque):
        ip.throw(TypeError, 'not iterable')
    if isinstance(v, (enumerate, zip, map, filter)) or hasattr(v, '__next__'):
        raise Unsupported('native iterator')
    raise Unsupported('iteration over %r' % (v,))


def keys_of(ip, entries):
    out = []
    for x in entries:
        if isinstance(x, Seg):
            out.append(map_paths(x, lambda v: v[0] if isinstance(v, tuple) else v.entries[0]))
        else:
            out.append(x[0])
    return out


def map_paths(seg, f):
    s = Seg(seg.root, seg.bv, [(g, v if v is SKIP else f(v)) for g, v in seg.paths])
    return s


def some_order(ip, v):
    """Elements of a set in an order the program cannot know: every order is explored."""
    ents = norm(ip, v.entries) if isinstance(v, SSeq) else list(v)
    if any(isinstance(x, Seg) for x in ents):
        raise Unsupported('order of a symbolic set')
    if len(ents) > 3:
        raise Unsupported('order of a set')
    out = []
    while len(ents) > 1:
        i = 0
        while i + 1 < len(ents) and not ip.e.branch(t.fresh('order', 'B')):
            i += 1
        out.append(ents.pop(i))
    return out + ents


def comp_entries(ip, n, fr, first, add=None):
    """Entries produced by a comprehension / generator expression."""
    from .interp import Frame
    acc = SSeq('list', ())
    import ast

    def gen(k, fr2, it):
        g = n.generators[k]

        def body(x):
            f3 = Frame(fr2.globs, parent=fr2, klass=fr2.klass)
            f3.first = fr2.first
            ip.assign(g.target, x, f3)
            for c in g.ifs:
                if not ip.truth(ip.eval(c, f3)):
                    return
            if k + 1 < len(n.generators):
                gen(k + 1, f3, ip.eval(n.generators[k + 1].iter, f3))
                return
            if isinstance(n, ast.DictComp):
                kk = ip.eval(n.key, f3)
                val = (kk, ip.eval(n.value, f3))
            else:
                val = ip.eval(n.elt, f3)
            if add is not None:
                add(val)
                return
            ip.e.set_attr(acc, 'entries', acc.entries + (val,))
        run_loop(ip, it, body, fr2, n)

    gen(0, fr, first)
    return list(acc.entries)


def map_entries(ip, ents, f):
    """Entries of (f(x) for x in ents)."""
    acc = SSeq('list', ())

    def body(x):
        ip.e.set_attr(acc, 'entries', acc.entries + (f(x),))
    run_loop(ip, SSeq('list', ents), body, None, None)
    return list(acc.entries)


def note_write(ip, o):
    pass


class CarriedLocal(Unsupported):
    def __init__(self, text, env=None, name=None):
        super().__init__(text)
        self.env, self.name = env, name


class Poison:
    """A local that only exists inside a loop body."""

    def __repr__(self):
        return 'POISON'


class Outcome:
    __slots__ = ('kind', 'guard', 'writes', 'value', 'idx', 'note')

    def __init__(self, kind, writes, value, idx):
        self.kind, self.writes, self.value, self.idx = kind, writes, value, idx
        self.guard = self.note = None


class Blocks:
    """Entry of a loop whose elements are tuples of elements."""
    __slots__ = ('of',)

    def __init__(self, of):
        self.of = of


def run_loop(ip, it, body, fr, node, ordered=True):
    """Execute `for x in it: body(x)`; True when left by break."""
    from .interp import BreakEx, ContinueEx
    cont = ip.force(it) if isinstance(it, T) else it
    ents = iter_entries(ip, it, ordered)
    i = 0

    def each(block):
        for y in block.entries:
            try:
                body(y)
            except ContinueEx:
                pass
    while i < len(ents):
        x = ents[i]
        run = body
        if isinstance(x, Blocks):
            x, run = x.of, each
        if isinstance(x, Seg):
            if x.root in ip.e.unfolded:
                ents[i:i + 1] = norm(ip, [x]) if run is body else [Blocks(y) for y in norm(ip, [x])]
                continue
            b = split_blocks(ip, x) if x.root.op == 'resplit' else None
            if b is not None:
                ents[i:i + 1] = [b[0], Blocks(b[1])]
                continue
            r = seg_loop(ip, x, run, fr, node, cont)
            if r == 'break':
                return True
            i += 1
            continue
        i += 1
        try:
            run(x)
        except BreakEx:
            return True
        except ContinueEx:
            pass
    return False


def collect_writes(ip, mark_trail, mark):
    """Writes of the current (sandboxed) iteration to things that existed before it."""
    e = ip.e
    locs = {}
    order = []
    for kind, o, k, old in e.trail[mark_trail:]:
        if kind == 0:
            if isinstance(o, Env):
                if o.stamp > mark:
                    continue
                key = ('env', id(o), k)
            elif o is e.overlay:
                key = ('overlay', id(o), k)
            elif o is e.cls_overlay:
                key = ('global', id(o), k)
            else:
                continue
        else:
            st = getattr(o, 'stamp', None)
            if st is None or st > mark:
                continue
            key = ('attr', id(o), k)
        if key not in locs:
            locs[key] = (o, k, old)
            order.append(key)
    out = []
    for key in order:
        o, k, old = locs[key]
        new = o.get(k, MISSING) if key[0] != 'attr' else getattr(o, k)
        if new is old or (type(new) is type(old) and isinstance(new, (str, int)) and new == old):
            continue
        out.append((key, o, k, old, new))
    return out


def run_body(ip, seg, body, idx, from_value=None):
    """One sandboxed iteration on the element of index idx -> (kind, value)."""
    from .interp import BreakEx, ContinueEx, ReturnEx
    x = at(ip, seg, idx)
    if x is SKIP:
        return 'normal', None
    try:
        body(x)
        return 'normal', None
    except ContinueEx:
        return 'normal', None
    except BreakEx:
        return 'break', None
    except ReturnEx as r:
        return 'return', r.value
    except PyRaise as p:
        return 'raise', p.exc


def unsplit(ip, old, new):
    """Undo the split of a segment at a witness element (see focus) if the element was not changed."""
    out = []
    i = 0
    for x in old:
        if i < len(new) and new[i] is x:
            out.append(x)
            i += 1
            continue
        if not (isinstance(x, Seg) and i + 2 < len(new) and isinstance(new[i], Seg) and isinstance(new[i + 2], Seg)):
            return new
        a, y, b = new[i:i + 3]
        if not (a.root.op == 'take' and a.root.args[0] is x.root and b.root.op == 'drop' and b.root.args == a.root.args):
            return new
        w = a.root.args[1]
        m = {x.bv: w}
        if not any(v is not SKIP and same_value(y, instantiate(ip, v, m, seg_mark(x))) for _, v in x.paths):
            return new
        out.append(x)
        i += 3
    return tuple(out) + tuple(new[i:])


def explore_body(ip, seg, body, prepare=None):
    """All paths of a generic iteration; writes are snapshotted."""
    e = ip.e
    mark = _stamp[0]
    outs = []
    j = t.fresh('j', 'I')
    _seg_marks[j] = mark

    def thunk():
        nf = len(e.fact_list)
        note = prepare(j) if prepare is not None else None
        mt = len(e.trail)
        ip.loops.append((seg.root, j))
        try:
            kind, value = run_body(ip, seg, body, j)
        finally:
            ip.loops.pop()
        ws = []
        memo = {}
        for key, o, k, old, new in collect_writes(ip, mt, mark):
            if isinstance(new, tuple):
                if k == 'entries' and isinstance(old, tuple):
                    new = unsplit(ip, old, new)
                    if len(new) == len(old) and all(x is y for x, y in zip(new, old)):
                        continue
                was = old if isinstance(old, tuple) else ()
                new = tuple(x if i < len(was) and x is was[i] else instantiate(ip, x, {}, mark, memo) for i, x in enumerate(new))
            else:
                new = instantiate(ip, new, {}, mark, memo)
            ws.append((key, o, k, old, new))
        oc = Outcome(kind, ws, instantiate(ip, value, {}, mark, memo), j)
        oc.guard = t.and_(*e.fact_list[nf:])
        oc.note = note
        return oc
    for g, oc in e.explore(thunk):
        if oc.guard is None:
            oc.guard = g
        outs.append(oc)
    return j, mark, outs


def seg_loop(ip, seg, body, fr, node, cont):
    e = ip.e
    j, mark, outs = explore_body(ip, seg, body)
    # ---- discover what the loop writes
    locals_w, accs, other = {}, {}, {}
    classify(outs, fr, locals_w, accs, other)
    if not other and len(accs) == 1 and constant_set_loop(ip, seg, body, fr, outs, accs, locals_w):
        return None
    if not other:
        # poison locals: a body that reads one before writing it carries state
        names = [(o, k) for (o, k) in locals_w.values()]
        carry = {}
        if names or accs:
            acc_info = {}

            def prep2(jj):
                for o, k in names:
                    c = carry.get((id(o), k))
                    e.set_item(o, k, POISON if c is None else c.before(ip, jj))
                for key, (o, old) in accs.items():
                    info = acc_info[key]
                    e.set_attr(o, 'entries', tuple(old) + (info['seg'],))
            for key, (o, old) in accs.items():
                acc_info[key] = acc_token(ip, seg, j, mark, outs, key, old)
            for _ in range(6):
                names = [(o, k) for (o, k) in locals_w.values()]
                try:
                    j2, mark2, outs2 = explore_body(ip, seg, body, prep2)
                except CarriedLocal as ex:
                    c = Carry.make(ip, ex, names, carry, j, outs)
                    if c is None:
                        break
                    carry[(id(ex.env), ex.name)] = c
                    continue
                l2, a2, o2 = {}, {}, {}
                classify(outs2, fr, l2, a2, o2, acc_info)
                if o2 or not set(a2) <= set(accs):
                    break
                if not set(l2) <= set(locals_w):
                    locals_w.update(l2)      # only written when there are earlier elements
                    continue
                bad = [k for k, c in carry.items() if not c.inductive(ip, j2, outs2, carry)]
                if bad:
                    if not all(carry[k].other for k in bad):
                        break
                    for k in bad:
                        carry[k] = carry[k].other
                    continue
                if shapes_closed(ip, j2, mark2, outs2, acc_info):
                    return finish_r1(ip, seg, body, fr, cont, j2, mark2, outs2, accs, acc_info, locals_w, carry)
                break
            return seg_loop_r2(ip, seg, body, fr, node, cont)
        return finish_r1(ip, seg, body, fr, cont, j, mark, outs, accs, {}, locals_w)
    return seg_loop_r2(ip, seg, body, fr, node, cont)


POISON = Poison()


def constant_set_loop(ip, seg, body, fr, outs, accs, locals_w):
    """Iterations that add constants to a set and do nothing else: a constant is in the set afterwards if it was
    before or some iteration adds it.  The body is run for every subset of the constants already being there and
    must do the same for all of them."""
    e = ip.e
    (key, (o, old)), = accs.items()
    if not isinstance(o, SSeq) or o.kind != 'set' or any(not isinstance(x, (str, int)) for x in old) or any(oc.kind != 'normal' for oc in outs):
        return False
    consts = []
    for oc in outs:
        for w in oc.writes:
            if w[0] == key:
                for c in w[4][len(old):]:
                    if not isinstance(c, str):
                        return False
                    if c not in consts:
                        consts.append(c)
    if not consts or len(consts) > 4:
        return False

    def prep(jj):
        for env, k in locals_w.values():
            e.set_item(env, k, POISON)
        had = tuple(c for c in consts if e.fork((False, True)))
        e.set_attr(o, 'entries', tuple(old) + had)
        return had
    try:
        j, mark, outs = explore_body(ip, seg, body, prep)
    except CarriedLocal:
        return False
    l2, a2, o2 = {}, {}, {}
    classify(outs, fr, l2, a2, o2)
    if o2 or not set(a2) <= {key} or not set(l2) <= set(locals_w) or any(oc.kind != 'normal' for oc in outs):
        return False
    adds = {}       # guard -> constants in the set after an iteration, by what was there
    for oc in outs:
        new = [w[4][len(old):] for w in oc.writes if w[0] == key]
        if new and any(not isinstance(c, str) for c in new[0]):
            return False
        adds.setdefault(oc.guard, {}).setdefault(frozenset(oc.note), []).append(frozenset(new[0] if new else oc.note))
    pairs = []
    for g, by in adds.items():
        if len(by) != 2 ** len(consts) or any(len(x) != 1 for x in by.values()):
            return False
        plain = by[frozenset()][0]
        if any(x[0] != plain | had for had, x in by.items()):
            return False
        pairs.append((g, plain))
    for env, k in locals_w.values():
        e.set_item(env, k, POISON)
    found = list(old)
    for c in consts:
        always = all(c in plain for _, plain in pairs)
        if not e.branch(t.eq(rlen(ip, seg.root), 0)) if always else \
                e.branch(mk('ex', 'B', seg.root, tmpl(j, [(g, c in plain) for g, plain in pairs]))):
            found.append(c)
    e.set_attr(o, 'entries', tuple(found))
    return True


class Carry:
    """A local that a loop extends: a string that grows at its end, or an integer that grows by a constant.

    The invariant is: before iteration j the string is its first value and the pieces of the iterations below j
    (an opaque token; the body must not look at it), the integer is its first value + step * j.
    """

    other = None

    def __init__(self, key, init, step):
        self.key, self.init, self.step = key, init, step
        self.token = t.fresh('acc', 'S') if step is None else None

    @staticmethod
    def make(ip, ex, names, carry, j, outs):
        cell = [(o, k) for o, k in names if o is ex.env and k == ex.name]
        if not cell or (id(ex.env), ex.name) in carry:
            return None
        init = None
        news = []
        for oc in outs:
            for key, o, k, old, new in oc.writes:
                if o is ex.env and k == ex.name:
                    init = (key, old, new)
                    news.append(new)
        if init is None:
            return None
        key, old, new = init
        c = Carry.grows(key, old, new)
        if isinstance(old, CONSTANTS) and isinstance(new, CONSTANTS) and all(type(n) is type(new) and n == new for n in news):
            f = Flag(key, old, new)
            f.other = c
            return f
        return c

    @staticmethod
    def grows(key, old, new):
        if isinstance(old, str) or isinstance(old, T) and old.sort == 'S':
            return Carry(key, old, None)
        if is_int_value(old) and is_int_value(new):
            step = t.add(new, t.neg(old))
            if isinstance(step, int) and -8 < step < 8:
                c = Carry(key, old, step)
                if step:
                    c.other = Count(key, old, step)
                return c
        return None

    def before(self, ip, j):
        return self.at(j)

    def at(self, j):
        return self.token if self.step is None else t.add(self.init, t.times(self.step, j))

    def piece(self, oc):
        """What a path appends; None if it does something else."""
        for key, o, k, old, new in oc.writes:
            if key == self.key:
                ps = list(t.parts(new)) if isinstance(new, (str, T)) else []
                if not ps or ps[0] is not self.token:
                    return None
                return t.cat(*ps[1:]) if ps[1:] else ''
        return ''

    def inductive(self, ip, j, outs, carry):
        for oc in outs:
            if oc.kind != 'normal':
                if self.step is None and isinstance(oc.guard, T) and self.token in t.free_vars(oc.guard):
                    return False
                continue
            if self.step is not None:
                new = [w[4] for w in oc.writes if w[0] == self.key]
                if not new or not is_int_value(new[0]) or t.add(new[0], t.neg(self.at(j))) != self.step:
                    return False
                continue
            p = self.piece(oc)
            if p is None:
                return False
            terms = [oc.guard, p] + [x for w in oc.writes if w[0] != self.key for x in value_terms(w[4])]
            if any(isinstance(x, T) and self.token in t.free_vars(x) for x in terms):
                return False
        return True

    def final(self, ip, root, j, mark, normal):
        if self.step is not None:
            n = rlen(ip, root)
            return t.add(self.init, t.times(self.step, n))
        bv = t.fresh('i', 'I')
        _seg_marks[bv] = mark
        paths = [(t.subst(oc.guard, {j: bv}) if isinstance(oc.guard, T) else oc.guard, instantiate(ip, self.piece(oc), {j: bv}, mark)) for oc in normal]
        return t.cat(self.init, join(ip, '', [simplify_seg(Seg(root, bv, paths))], lambda s: s))


class Count(Carry):
    """An integer that some iterations increase by a constant: its first value + constant * number of these iterations.

    The body must not look at it (it is an opaque token)."""

    def __init__(self, key, init, step):
        super().__init__(key, init, step)
        self.token = t.fresh('count', 'I')

    def at(self, j):
        return self.token

    def counts(self, oc):
        """Does the path increase the counter?  None if it does something else."""
        for w in oc.writes:
            if w[0] == self.key:
                return True if is_int_value(w[4]) and t.add(w[4], t.neg(self.token)) == self.step else None
        return False

    def inductive(self, ip, j, outs, carry):
        for oc in outs:
            if self.counts(oc) is None and oc.kind == 'normal':
                return False
            terms = [oc.guard] + [x for w in oc.writes if w[0] != self.key for x in value_terms(w[4])]
            if any(isinstance(x, T) and self.token in t.free_vars(x) for x in terms):
                return False
        return True

    def final(self, ip, root, j, mark, normal):
        bv = t.fresh('i', 'I')
        _seg_marks[bv] = mark
        paths = [(t.subst(oc.guard, {j: bv}) if isinstance(oc.guard, T) else oc.guard, None if self.counts(oc) else SKIP) for oc in normal]
        n = length(ip, [simplify_seg(Seg(root, bv, paths))])
        return t.add(self.init, t.times(self.step, n))


CONSTANTS = (str, int, bool, type(None))


class Flag(Carry):
    """A local that every iteration sets to the same constant: its first value before iteration 0, the constant later."""

    def __init__(self, key, init, const):
        super().__init__(key, init, 0)
        self.const = const

    def before(self, ip, j):
        return self.init if ip.e.branch(t.eq(j, 0)) else self.const

    def inductive(self, ip, j, outs, carry):
        for oc in outs:
            if oc.kind != 'normal':
                continue
            new = [w[4] for w in oc.writes if w[0] == self.key]
            if new:
                if type(new[0]) is not type(self.const) or new[0] != self.const:
                    return False
            elif t.subst(oc.guard, {j: 0}) is not False:
                return False
        return True

    def final(self, ip, root, j, mark, normal):
        n = root.args[1] if root.op == 'take' else rlen(ip, root)
        return self.init if ip.e.branch(t.eq(n, 0)) else self.const


def is_int_value(x):
    return isinstance(x, int) and not isinstance(x, bool) or isinstance(x, T) and x.sort == 'I'


def classify(outs, fr, locals_w, accs, other, acc_info=None):
    for oc in outs:
        for key, o, k, old, new in oc.writes:
            if key[0] == 'env' and not isinstance(o.owner, SObj):
                locals_w[key] = (o, k)
            elif key[0] == 'attr' and k == 'entries' and isinstance(o, (SSeq, SObj, SDict)) and \
                    getattr(o, 'kind', 'list') in ('list', 'set', 'dict', 'OrderedDict') and \
                    len(new) >= len(old) and all(a is b for a, b in zip(new, old)) and \
                    len(new) == len(old) + 1 and not (isinstance(o, SDict) and False):
                accs[key] = (o, old)
            elif key[0] == 'attr' and k == 'entries' and isinstance(o, SSeq) and o.kind in ('gen', 'iter'):
                other[key] = (o, k)
            else:
                other[key] = (o, k)


def acc_token(ip, seg, j, mark, outs, key, old):
    """Placeholder segment for what earlier iterations appended to an accumulator."""
    K = t.fresh('K', 'Q')
    _tok_parent[K] = seg.root
    paths = []
    bv = t.fresh('i', 'I')
    src = mk('src', 'I', K, bv)
    alts = []
    for oc in outs:
        if oc.kind != 'normal':
            continue
        for k2, o, k, old2, new in oc.writes:
            if k2 == key:
                alts.append((oc.guard, new[len(old2):]))
    for g, vals in alts:
        if len(vals) != 1:
            raise Unsupported('several appends per iteration')
        g = drop_ex(g)
        paths.append((t.subst(g, {j: src}) if isinstance(g, T) else g, instantiate(ip, vals[0], {j: src}, mark)))
    _seg_marks[bv] = mark
    s = Seg(K, bv, paths)
    return {'K': K, 'seg': s, 'old': old}


def shapes_closed(ip, j, mark, outs, acc_info):
    """Every value appended from an arbitrary accumulator has a shape the placeholder already offers."""
    for oc in outs:
        if oc.kind != 'normal':
            continue
        for key, o, k, old, new in oc.writes:
            if key in acc_info:
                v = new[len(old):]
                if len(v) != 1:
                    return False
                tok = acc_info[key]['seg']
                src = mk('src', 'I', tok.root, tok.bv)
                inst = instantiate(ip, v[0], {j: src}, mark)
                if not any(same_value(inst, pv) for _, pv in tok.paths):
                    return False
    return True


def drop_ex(g):
    if g is True or not isinstance(g, T):
        return g
    if g.op == 'and':
        return t.and_(*[a for a in g.args if not has_ex(a)])
    return True if has_ex(g) else g


def has_ex(a):
    return any(s.op in ('ex', 'first') or s.op == 'len' for s in t.subterms(a))


def finish_r1(ip, seg, body, fr, cont, j, mark, outs, accs, acc_info, locals_w, carry=None):
    """Independent iterations, or order-preserving accumulation that looks at what was kept."""
    e = ip.e
    Ks = {info['K']: key for key, info in acc_info.items()}
    normal = [oc for oc in outs if oc.kind == 'normal']
    abrupt = [oc for oc in outs if oc.kind != 'normal']

    def mentions_K(g):
        fv = t.free_vars(g)
        return any(K in fv for K in Ks)

    def raised_flag(o, k, root):
        """A local set to one constant by some iterations (never read in the loop): was there such an iteration?"""
        ws = [[w for w in oc.writes if w[1] is o and w[2] == k] for oc in normal]
        vals = [w[0][4] for w in ws if w]
        init = o.get(k, POISON)
        if not vals or not isinstance(init, CONSTANTS) or not all(isinstance(b, CONSTANTS) and type(b) is type(vals[0]) and b == vals[0] for b in vals) \
                or any(len(w) > 1 for w in ws) or any(isinstance(oc.guard, T) and (mentions_K(oc.guard) or reads_token(oc.guard)) for oc in normal):
            return POISON
        cond = mk('ex', 'B', root, tmpl(j, [(oc.guard, bool(w)) for oc, w in zip(normal, ws)] + [(oc.guard, False) for oc in abrupt]))
        return vals[0] if e.branch(cond) else init

    def reads_token(g):
        return any(c.token is not None and c.token in t.free_vars(g) for c in (carry or {}).values())

    def effects(root_seg, idxmap=None):
        """Apply the accumulated effect of all iterations over root_seg (same template, maybe sub-root)."""
        root = root_seg.root
        for o, k in locals_w.values():
            c = carry.get((id(o), k)) if carry else None
            if c is None:
                e.set_item(o, k, raised_flag(o, k, root))
                continue
            if (c.step is None or isinstance(c, Count)) and any(isinstance(oc.guard, T) and mentions_K(oc.guard) for oc in normal):
                raise Unsupported('string built along a dependent accumulator')
            e.set_item(o, k, c.final(ip, root, j, mark, normal))
        if not accs:
            return
        m0 = {} if idxmap is None else {j: idxmap(j)}
        dep = any(mentions_K(oc.guard) for oc in normal) or any(
            mentions_K(x) for oc in normal for w in oc.writes for x in value_terms(w[4]))
        for key, (o, old) in accs.items():
            pairs = []
            for oc in normal:
                v = SKIP
                for k2, o2, k, old2, new in oc.writes:
                    if k2 == key:
                        added = new[len(old2):]
                        if len(added) != 1:
                            raise Unsupported('several appends per iteration')
                        v = added[0]
                pairs.append((t.subst(oc.guard, m0) if isinstance(oc.guard, T) else oc.guard,
                              v if v is SKIP or not m0 else instantiate(ip, v, m0, mark)))
            bv = t.fresh('i', 'I')
            _seg_marks[bv] = mark
            if not dep:
                s = Seg(root, bv, [(t.subst(g, {j: bv}) if isinstance(g, T) else g,
                                    v if v is SKIP else instantiate(ip, v, {j: bv}, mark)) for g, v in pairs])
                s = simplify_seg(s)
            else:
                if len(accs) != 1 or old_has_state(old):
                    pass
                if len(accs) != 1:
                    raise Unsupported('several dependent accumulators')
                K = acc_info[key]['K']
                # pair fold (root, keep template) -> canonical kept root
                tm = tmpl(j, [(g, v is not SKIP) for g, v in pairs], extra=K)
                kroot = kept_root(ip, root, tm)
                src = mk('src', 'I', kroot, bv)
                kp = []
                for g, v in pairs:
                    if v is SKIP:
                        continue
                    g2 = drop_ex_K(g, K)
                    vv = instantiate(ip, v, {j: src}, mark)
                    kp.append((t.subst(g2, {j: src}) if isinstance(g2, T) else g2, vv))
                s = merge_paths(Seg(kroot, bv, kp))
                kept_facts(ip, root, kroot, j, K, pairs)
            e.set_attr(o, 'entries', tuple(old) + (s,))

    if abrupt:
        gab = t.or_(*[oc.guard for oc in abrupt])
        depK = isinstance(gab, T) and mentions_K(gab)
        if depK:
            hit = e.fork((False, True))
            c = None
        elif not isinstance(gab, T) or j not in t.free_vars(gab):
            c = 0       # every element ends the loop, or none does: so does the first one
            hit = not e.branch(t.eq(rlen(ip, seg.root), 0)) and e.branch(gab)
        else:
            c = mk('ex', 'B', seg.root, tmpl(j, [(oc.guard, oc.kind != 'normal') for oc in outs]))
            hit = e.branch(c)
        if hit:
            w = 0 if c == 0 else witness(c) if c is not None else t.fresh('w', 'I')
            if w != 0:
                before = sub_root(ip, seg, mk('take', 'Q', seg.root, w), lambda k: k)
                effects(before)
            # refine the container so that the element has an identity
            from .interp import BreakEx, ContinueEx
            x = at(ip, seg, w)
            if x is SKIP:
                raise PathAbort()
            focus(ip, cont, seg, w, x)
            try:
                body(x)
            except BreakEx:
                return 'break'
            except ContinueEx:
                raise PathAbort()
            raise PathAbort()
    effects(seg)
    return None


_kept_roots = {}


def kept_root(ip, root, tm):
    """The filter of `root` by tm, named by an earlier filter that is provably the same here."""
    known = _kept_roots.setdefault(root, [])
    for k in known:
        if k.args[1] is tm:
            return k
    for k in known[:6]:
        if kept_equal(ip, root, k.args[1], tm):
            return k
    k = mk('kept', 'Q', root, tm)
    known.append(k)
    return k


def kept_facts(ip, root, kroot, j, K, pairs):
    """Emptiness of an order-preserving filter: empty if the source is; the first element is kept if nothing is kept yet."""
    e = ip.e
    l0 = t.eq(rlen(ip, root), 0)
    k0 = t.eq(mk('len', 'I', kroot), 0)
    e.add_fact_soft(t.or_(t.not_(l0), k0))
    try:
        keep = t.or_(*[without_K(g, K) for g, v in pairs if v is not SKIP])
    except LookupError:
        return
    keep = t.subst(keep, {j: 0}) if isinstance(keep, T) else keep
    e.add_fact_soft(t.or_(t.not_(keep), l0, t.not_(k0)))


def without_K(g, K):
    """g where the kept prefix K is empty."""
    if not isinstance(g, T) or K not in t.free_vars(g):
        return g
    if g.op == 'ex' and g.args[0] is K:
        return False
    if g.op == 'not':
        return t.not_(without_K(g.args[0], K))
    if g.op == 'and':
        return t.and_(*[without_K(a, K) for a in g.args])
    if g.op == 'or':
        return t.or_(*[without_K(a, K) for a in g.args])
    raise LookupError(g)


def focus(ip, cont, seg, w, x):
    """Split the container's segment at w so that mutations of the element stay visible."""
    e = ip.e
    if isinstance(cont, (SSeq, SObj)) and cont.entries is not None and isinstance(x, SObj) and x.term is None:
        ents = list(norm(ip, cont.entries))
        for i, y in enumerate(ents):
            if isinstance(y, Seg) and y.root is seg.root:
                a = sub_root(ip, y, mk('take', 'Q', seg.root, w), lambda k: k)
                b = sub_root(ip, y, mk('drop', 'Q', seg.root, w), lambda k: t.add(k, w, 1))
                if seg.root not in e.unfolded:
                    split_root(ip, seg.root, ('split', w))
                e.set_attr(cont, 'entries', tuple(ents[:i] + [a, x, b] + ents[i + 1:]))
                return


def drop_ex_K(g, K):
    if not isinstance(g, T):
        return g
    if g.op == 'and':
        return t.and_(*[a for a in g.args if K not in t.free_vars(a)])
    return True if K in t.free_vars(g) else g


def old_has_state(old):
    return bool(old)


def value_terms(v):
    """All terms reachable in a value (for dependency tests)."""
    out = []
    seen = set()

    def go(x):
        if isinstance(x, T):
            out.append(x)
        elif isinstance(x, (tuple, list)):
            for y in x:
                go(y)
        elif id(x) in seen:
            return
        elif isinstance(x, (SSeq, SDict)):
            seen.add(id(x))
            for y in x.entries:
                go(y)
        elif isinstance(x, SObj):
            seen.add(id(x))
            for y in x.attrs.values():
                go(y)
            for y in x.entries or ():
                go(y)
        elif isinstance(x, Seg):
            pass
        elif isinstance(x, SBound):
            go(x.self)
    go(v)
    return out


def same_value(a, b, seen=None, m=None):
    """Structural identity of two template values (m: index variables of b's segments as those of a's)."""
    if a is b and m is None:
        return True
    if isinstance(a, T) or isinstance(b, T):
        return m is not None and isinstance(b, T) and t.subst(b, m) is a
    if type(a) is not type(b):
        return False
    if isinstance(a, (str, int, bool, float, bytes, type(None))):
        return a == b
    seen = set() if seen is None else seen
    if (id(a), id(b)) in seen:
        return True
    seen.add((id(a), id(b)))
    if isinstance(a, (SSeq, SDict)):
        return a.kind == b.kind and (a.term is b.term if m is None else same_term(a.term, b.term, m)) and len(a.entries) == len(b.entries) and \
            all(same_value(x, y, seen, m) for x, y in zip(a.entries, b.entries))
    if isinstance(a, SObj):
        return a.cls is b.cls and (a.term is b.term if m is None else same_term(a.term, b.term, m)) and list(a.attrs) == list(b.attrs) and \
            all(same_value(a.attrs[k], b.attrs[k], seen, m) for k in a.attrs) and \
            ((a.entries is None and b.entries is None) or (a.entries is not None and b.entries is not None and
             len(a.entries) == len(b.entries) and all(same_value(x, y, seen, m) for x, y in zip(a.entries, b.entries))))
    if isinstance(a, tuple):
        return len(a) == len(b) and all(same_value(x, y, seen, m) for x, y in zip(a, b))
    if isinstance(a, Seg):
        if len(a.paths) != len(b.paths) or not same_value(a.root, b.root, seen, m):
            return False
        m = {**(m or {}), b.bv: a.bv}
        return all(same_value(g, h, seen, m) and (v is w is SKIP or v is not SKIP and w is not SKIP and same_value(v, w, seen, m))
                   for (g, v), (h, w) in zip(a.paths, b.paths))
    if isinstance(a, SBound):
        return a.func is b.func and same_value(a.self, b.self, seen, m)
    if isinstance(a, SBuiltin):
        return a.name == b.name and a.owner is b.owner and same_value(a.self, b.self, seen, m)
    return False


def same_term(a, b, m):
    return a is b if a is None or b is None else t.subst(b, m) is a


def merge_paths(s):
    """Merge paths with the same value (guards become the disjunction; True when all paths agree)."""
    out = []
    for g, v in s.paths:
        for o in out:
            if (v is SKIP and o[1] is SKIP) or (v is not SKIP and o[1] is not SKIP and same_value(o[1], v)):
                o[0] = t.or_(o[0], g)
                break
        else:
            out.append([g, v])
    if len(out) == 1:
        out[0][0] = True
    s.paths = [tuple(x) for x in out]
    return s


def simplify_seg(s):
    return merge_paths(s)


# ---------------------------------------------------------------- R2: loop-carried state
def seg_loop_r2(ip, seg, body, fr, node, cont):
    raise Unsupported('loop carries state (line %s)' % getattr(node, 'lineno', '?'))
