"""Hash-consed first-order terms (sorts S string, I int, B bool, V dynamic value, Q sequence key).

Python constants (str, int, bool) stand for themselves inside terms.  Smart constructors normalise,
so that most obligations are settled by syntactic identity before a solver is asked.
"""
import z3


class T:
    __slots__ = ('op', 'sort', 'args', 'id', 'h', '_z', '_vars')

    def __repr__(self):
        return show(self)


_tab = {}
_cnt = [0]


def mk(op, sort, *args):
    key = (op, sort) + tuple(a if isinstance(a, T) else (type(a).__name__, a) for a in args)
    t = _tab.get(key)
    if t is None:
        t = T()
        t.op, t.sort, t.args = op, sort, args
        t.id = len(_tab)
        t._z = None
        t._vars = None
        _tab[key] = t
    return t


def fresh(prefix, sort):
    _cnt[0] += 1
    return mk('var', sort, '%s!%d' % (prefix, _cnt[0]))


def reset_fresh(n=0):
    _cnt[0] = n


def fresh_mark():
    return _cnt[0]


def var(name, sort):
    return mk('var', sort, name)


def show(t, depth=6):
    if not isinstance(t, T):
        return repr(t)
    if t.op == 'var':
        return t.args[0]
    if depth <= 0:
        return '..'
    if t.op == 'cat':
        return '(' + ' ++ '.join(show(a, depth - 1) for a in t.args) + ')'
    if t.op == 'eq':
        return '(%s = %s)' % tuple(show(a, depth - 1) for a in t.args)
    return '%s(%s)' % (t.op, ', '.join(show(a, depth - 1) if not isinstance(a, tuple) else str(a) for a in t.args))


def sort_of(x):
    if isinstance(x, T):
        return x.sort
    if isinstance(x, bool):
        return 'B'
    if isinstance(x, int):
        return 'I'
    if isinstance(x, str):
        return 'S'
    raise TypeError(x)


def is_const(x):
    return not isinstance(x, T)


# ---------------------------------------------------------------- booleans
def not_(a):
    if isinstance(a, bool):
        return not a
    if a.op == 'not':
        return a.args[0]
    if a.op == 'and':
        return or_(*[not_(x) for x in a.args])
    if a.op == 'or':
        return and_(*[not_(x) for x in a.args])
    if a.op == 'tag':
        return mk('not', 'B', a)
    return mk('not', 'B', a)


def and_(*xs):
    out = []
    for x in xs:
        if x is True:
            continue
        if x is False:
            return False
        for y in (x.args if x.op == 'and' else (x,)):
            if y not in out:
                if not_(y) in out:
                    return False
                out.append(y)
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    return mk('and', 'B', *out)


def or_(*xs):
    out = []
    for x in xs:
        if x is False:
            continue
        if x is True:
            return True
        for y in (x.args if x.op == 'or' else (x,)):
            if y not in out:
                if not_(y) in out:
                    return True
                out.append(y)
    if not out:
        return False
    if len(out) == 1:
        return out[0]
    return mk('or', 'B', *out)


def implies(a, b):
    return or_(not_(a), b)


# ---------------------------------------------------------------- strings
def parts(s):
    if isinstance(s, str):
        return (s,) if s else ()
    if s.op == 'cat':
        return s.args
    return (s,)


def cat(*xs):
    out = []
    for x in xs:
        for p in parts(x):
            if isinstance(p, str) and out and isinstance(out[-1], str):
                out[-1] += p
            else:
                out.append(p)
    if not out:
        return ''
    if len(out) == 1:
        return out[0]
    return mk('cat', 'S', *out)


def hom_apply(table, lit):
    d = dict(table)
    return ''.join(d.get(c, c) for c in lit)


def hom(table, s):
    """Character homomorphism: every char c -> dict(table).get(c, c)."""
    table = tuple(sorted((c, r) for c, r in table if c != r))
    if not table:
        return s
    if isinstance(s, str):
        return hom_apply(table, s)
    if s.op == 'cat':
        return cat(*[hom(table, p) for p in s.args])
    if s.op == 'hom':
        inner = dict(s.args[0])
        comp = {c: hom_apply(table, r) for c, r in inner.items()}
        for c, r in table:
            comp.setdefault(c, r)
        return hom(tuple(comp.items()), s.args[1])
    if s.op == 'i2s' and all(c not in '-0123456789' for c, _ in table):
        return s
    return mk('hom', 'S', table, s)


def replace_all(s, old, new):
    if isinstance(s, str) and isinstance(old, str) and isinstance(new, str):
        return s.replace(old, new)
    if isinstance(old, str) and isinstance(new, str):
        if len(old) == 1:
            return hom(((old, new),), s)
        if old == new:
            return s
    return mk('replace', 'S', s, old, new)


def hom_injective(table):
    """Images (plus identity on other chars) form a prefix code -> the extension to strings is injective."""
    d = dict(table)
    imgs = list(d.values())
    if any(not r for r in imgs):
        return False
    for i, a in enumerate(imgs):
        for k, b in enumerate(imgs):
            if i != k and b.startswith(a):
                return False
        # other characters map to themselves: a one-char image / prefix collision
        if len(a) >= 1:
            c = a[0]
            if c not in d:
                return False          # char c itself is a prefix of image a
    return True


def i2s(i):
    if isinstance(i, int):
        return str(i)
    return mk('i2s', 'S', i)


def strlen(s):
    if isinstance(s, str):
        return len(s)
    n, rest = 0, []
    for p in parts(s):
        if isinstance(p, str):
            n += len(p)
        else:
            rest.append(mk('slen', 'I', p))
    return add(n, *rest)


# ---------------------------------------------------------------- ints
def add(*xs):
    n, out = 0, []
    for x in xs:
        if isinstance(x, int):
            n += x
        elif x.op == 'add':
            for a in x.args:
                if isinstance(a, int):
                    n += a
                else:
                    out.append(a)
        else:
            out.append(x)
    for x in [x for x in out if x.op == 'neg']:
        if x.args[0] in out:
            out.remove(x)
            out.remove(x.args[0])
    if not out:
        return n
    out.sort(key=lambda t: t.id)
    if n:
        out.append(n)
    return out[0] if len(out) == 1 else mk('add', 'I', *out)


def neg(x):
    if isinstance(x, int):
        return -x
    if x.op == 'neg':
        return x.args[0]
    if x.op == 'add':
        return add(*[neg(a) for a in x.args])
    return mk('neg', 'I', x)


def times(k, x):
    """k * x for a constant k."""
    return add(*[x if k > 0 else neg(x)] * abs(k))


def le(a, b):
    if not isinstance(a, T) and not isinstance(b, T):
        return a <= b
    if a is b:
        return True
    return mk('le', 'B', a, b)


def lt(a, b):
    return not_(le(b, a))


def slt(a, b):
    if isinstance(a, str) and isinstance(b, str):
        return a < b
    if a is b:
        return False
    return mk('slt', 'B', a, b)


# ---------------------------------------------------------------- dynamic values
def vnone():
    return mk('vnone', 'V')


def vbool(b):
    if isinstance(b, T) and b.op == 'bval':
        return b.args[0]
    return mk('vbool', 'V', b)


def vint(i):
    if isinstance(i, T) and i.op == 'ival':
        return i.args[0]
    return mk('vint', 'V', i)


def vstr(s):
    if isinstance(s, T) and s.op == 'sval':
        return s.args[0]
    return mk('vstr', 'V', s)


def sval(v):
    if v.op == 'vstr':
        return v.args[0]
    return mk('sval', 'S', v)


def ival(v):
    if v.op == 'vint':
        return v.args[0]
    return mk('ival', 'I', v)


def bval(v):
    if v.op == 'vbool':
        return v.args[0]
    return mk('bval', 'B', v)


VCONS = {'vnone': 'none', 'vbool': 'bool', 'vint': 'int', 'vstr': 'str'}


# ---------------------------------------------------------------- equality
def eq(a, b):
    if a is b:
        return True
    ca, cb = not isinstance(a, T), not isinstance(b, T)
    if ca and cb:
        return type(a) == type(b) and a == b
    s = sort_of(a)
    if s != sort_of(b):
        raise TypeError('eq sorts %s %s' % (a, b))
    if s == 'B':
        if ca:
            a, b, ca, cb = b, a, cb, ca
        if b is True:
            return a
        if b is False:
            return not_(a)
    if s == 'S':
        return eqs(a, b)
    if s == 'V':
        if a.op in VCONS and b.op in VCONS:
            if a.op != b.op:
                return False
            if not a.args:
                return True
            return eq(a.args[0], b.args[0])
    if s == 'I' and isinstance(a, T) and isinstance(b, T) and a.op == 'add' and b.op == 'add':
        pass
    if ca or (not cb and a.id > b.id):
        a, b = b, a
    return mk('eq', 'B', a, b)


def eqs(a, b):
    pa, pb = list(parts(a)), list(parts(b))
    # common prefix
    for rev in (False, True):
        if rev:
            pa.reverse()
            pb.reverse()
        while pa and pb:
            x, y = pa[0], pb[0]
            if x is y:
                pa.pop(0)
                pb.pop(0)
            elif isinstance(x, str) and isinstance(y, str):
                n = 0
                m = min(len(x), len(y))
                if rev:
                    while n < m and x[-1 - n] == y[-1 - n]:
                        n += 1
                    rx, ry = x[:len(x) - n], y[:len(y) - n]
                else:
                    while n < m and x[n] == y[n]:
                        n += 1
                    rx, ry = x[n:], y[n:]
                if n < m:
                    return False
                if rx:
                    pa[0] = rx
                else:
                    pa.pop(0)
                if ry:
                    pb[0] = ry
                else:
                    pb.pop(0)
                if n == 0:
                    break
            else:
                break
        if rev:
            pa.reverse()
            pb.reverse()
    if not pa and not pb:
        return True
    if not pa or not pb:
        rest = pa or pb
        if any(isinstance(p, str) or p.op == 'i2s' for p in rest):
            return False
        return and_(*[mk('eq', 'B', p, '') if p.op != 'hom' or not hom_nonerasing(p.args[0])
                      else eqs(p.args[1], '') for p in rest])
    a, b = cat(*pa), cat(*pb)
    if isinstance(a, T) and isinstance(b, T):
        if a.op == 'hom' and b.op == 'hom' and a.args[0] == b.args[0] and hom_injective(a.args[0]):
            return eqs(a.args[1], b.args[1])
        if a.op == 'i2s' and b.op == 'i2s':
            return eq(a.args[0], b.args[0])
    else:
        if isinstance(a, str):
            a, b = b, a
        if a.op == 'i2s':
            if b == str(int(b)) if b.lstrip('-').isdigit() and b.isascii() else False:
                return eq(a.args[0], int(b))
            return False
    if isinstance(a, str) or (isinstance(b, T) and a.id > b.id):
        a, b = b, a
    return mk('eq', 'B', a, b)


def hom_nonerasing(table):
    return all(r for _, r in table)


# ---------------------------------------------------------------- traversal
def subst(t, m):
    """m: {T var: replacement}."""
    memo = {}

    def go(x):
        if not isinstance(x, T):
            return x
        r = m.get(x)
        if r is not None:
            return r
        if x.op == 'var' or not x.args:
            return x
        r = memo.get(x)
        if r is not None:
            return r
        args = tuple(go(a) for a in x.args)
        if all(p is q for p, q in zip(args, x.args)):
            r = x
        else:
            r = rebuild(x.op, x.sort, args)
        memo[x] = r
        return r
    return go(t)


def rebuild(op, sort, args):
    f = _REBUILD.get(op)
    if f is not None:
        return f(*args)
    return mk(op, sort, *args)


_REBUILD = {
    'cat': cat, 'hom': hom, 'replace': replace_all, 'i2s': i2s, 'not': not_, 'and': and_, 'or': or_,
    'eq': eq, 'add': add, 'neg': neg, 'le': le, 'slt': slt, 'vbool': vbool, 'vint': vint, 'vstr': vstr,
    'sval': sval, 'ival': ival, 'bval': bval, 'slen': strlen,
}


def occurs(v, t):
    return v in free_vars(t)


def free_vars(t):
    if not isinstance(t, T):
        return frozenset()
    if t._vars is None:
        if t.op == 'var':
            t._vars = frozenset((t,))
        else:
            s = frozenset()
            for a in t.args:
                if isinstance(a, T):
                    s |= free_vars(a)
            t._vars = s
    return t._vars


def subterms(t, seen=None):
    seen = set() if seen is None else seen
    stack = [t]
    while stack:
        x = stack.pop()
        if isinstance(x, T) and x not in seen:
            seen.add(x)
            stack.extend(x.args)
    return seen


# ---------------------------------------------------------------- z3
ZV = z3.Datatype('Val')
ZV.declare('vnone')
ZV.declare('vbool', ('bval', z3.BoolSort()))
ZV.declare('vint', ('ival', z3.IntSort()))
ZV.declare('vstr', ('sval', z3.StringSort()))
ZV.declare('opq', ('otag', z3.IntSort()), ('oid', z3.IntSort()))
ZV = ZV.create()
ZQ = z3.DeclareSort('SeqKey')
SORTS = {'S': z3.StringSort(), 'I': z3.IntSort(), 'B': z3.BoolSort(), 'V': ZV, 'Q': ZQ}
TAGNUM = {}


def tagnum(tag):
    return TAGNUM.setdefault(tag, len(TAGNUM) + 1)


def ztag(v, tags):
    zv = z(v)
    out = []
    for tag in sorted(tags):
        if tag == 'none':
            out.append(ZV.is_vnone(zv))
        elif tag == 'bool':
            out.append(ZV.is_vbool(zv))
        elif tag == 'int':
            out.append(ZV.is_vint(zv))
        elif tag == 'str':
            out.append(ZV.is_vstr(zv))
        else:
            out.append(z3.And(ZV.is_opq(zv), ZV.otag(zv) == tagnum(tag)))
    return z3.Or(*out)


def zstr(s):
    out = []
    for c in s:
        o = ord(c)
        if 32 <= o < 127 and c != '\\':
            out.append(c)
        else:
            out.append('\\u{%x}' % o)
    return z3.StringVal(''.join(out))


def z(t):
    if isinstance(t, bool):
        return z3.BoolVal(t)
    if isinstance(t, int):
        return z3.IntVal(t)
    if isinstance(t, str):
        return zstr(t)
    if t._z is not None:
        return t._z
    r = _z(t)
    t._z = r
    return r


def _z(t):
    op, a = t.op, t.args
    if op == 'var':
        return z3.Const(a[0], SORTS[t.sort])
    if op == 'cat':
        return z3.Concat(*[z(x) for x in a])
    if op == 'eq':
        return z(a[0]) == z(a[1])
    if op == 'not':
        return z3.Not(z(a[0]))
    if op == 'and':
        return z3.And(*[z(x) for x in a])
    if op == 'or':
        return z3.Or(*[z(x) for x in a])
    if op == 'le':
        return z(a[0]) <= z(a[1])
    if op == 'slt':
        return z(a[0]) < z(a[1])
    if op == 'add':
        return z3.Sum(*[z(x) for x in a])
    if op == 'neg':
        return -z(a[0])
    if op == 'slen':
        return z3.Length(z(a[0]))
    if op == 'contains':
        return z3.Contains(z(a[0]), z(a[1]))
    if op == 'prefix':
        return z3.PrefixOf(z(a[1]), z(a[0]))
    if op == 'suffix':
        return z3.SuffixOf(z(a[1]), z(a[0]))
    if op == 'vnone':
        return ZV.vnone
    if op == 'vbool':
        return ZV.vbool(z(a[0]))
    if op == 'vint':
        return ZV.vint(z(a[0]))
    if op == 'vstr':
        return ZV.vstr(z(a[0]))
    if op == 'bval':
        return ZV.bval(z(a[0]))
    if op == 'ival':
        return ZV.ival(z(a[0]))
    if op == 'sval':
        return ZV.sval(z(a[0]))
    if op == 'tag':
        return ztag(a[0], a[1])
    if op == 'inre':
        from . import regex
        return z3.InRe(z(a[0]), regex.get(a[1]))
    # uninterpreted: constants and template arguments become part of the name
    name = [op]
    targs = []
    for x in a:
        if isinstance(x, T) and x.op != 'tmpl':
            targs.append(x)
        elif isinstance(x, T):
            name.append('t%d' % x.id)
        else:
            name.append(repr(x))
    f = z3.Function('|'.join(name), *([SORTS[x.sort] for x in targs] + [SORTS[t.sort]]))
    return f(*[z(x) for x in targs])
