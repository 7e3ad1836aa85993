"""Structural equality of two symbolic object graphs."""
from . import terms as t
from . import models, seqs
from .terms import T
from .values import *  # noqa
from .models import SOpaque


def same(ip, a, b):
    """True, False or a formula."""
    return _same(ip, a, b, {})


def _same(ip, a, b, seen):
    a, b = ip.res(a), ip.res(b)
    if a is b:
        return True
    if isinstance(a, T) and a.sort == 'V' or isinstance(b, T) and b.sort == 'V':
        try:
            return t.eq(models.encode(ip, a), models.encode(ip, b))
        except Unsupported:
            a, b = ip.force(a), ip.force(b)
            if a is b:
                return True
    sa, sb = models.scalar_sort(a), models.scalar_sort(b)
    if sa or sb:
        return t.eq(a, b) if sa == sb else False
    if isinstance(a, SOpaque) and isinstance(b, SOpaque):
        return a.cls is b.cls and t.eq(a.term, b.term)
    if isinstance(a, SBound) and isinstance(b, SBound):
        return a.func is b.func
    if isinstance(a, SBuiltin) and isinstance(b, SBuiltin):
        return a.name == b.name
    if isinstance(a, SFunc) and isinstance(b, SFunc):
        return a.node is b.node
    a, b = lift(ip, a), lift(ip, b)
    if type(a) is not type(b):
        return False
    if (id(a), id(b)) in seen:
        return True
    seen[(id(a), id(b))] = (a, b)
    if isinstance(a, SObj):
        if a.cls is not b.cls:
            return False
        if a.term is not None and b.term is not None:
            return t.eq(a.term, b.term)
        if set(a.attrs) != set(b.attrs):
            return False
        out = [_same(ip, a.attrs[k], b.attrs[k], seen) for k in a.attrs]
        if a.entries is not None:
            out.append(entries(ip, a.entries, b.entries, seen))
        return conj(out)
    if isinstance(a, (SSeq, SDict)):
        if a.kind != b.kind:
            return False
        if a.term is not None and b.term is not None:
            return t.eq(a.term, b.term)
        return entries(ip, a.entries, b.entries, seen)
    if isinstance(a, tuple):
        return conj([_same(ip, x, y, seen) for x, y in zip(a, b)]) if len(a) == len(b) else False
    try:
        return bool(a == b)
    except Exception as ex:   # pylint: disable=broad-except
        raise Unsupported('state of %r' % (a,)) from ex


def lift(ip, x):
    x = ip.real_view(x)
    if isinstance(x, (list, tuple, set, frozenset)) and not isinstance(x, SSeq):
        return SSeq(type(x).__name__, list(x))
    if isinstance(x, dict):
        return SDict(type(x).__name__, list(x.items()))
    return x


def conj(xs):
    if any(x is False for x in xs):
        return False
    return t.and_(*xs)


def entries(ip, xs, ys, seen):
    xs, ys = seqs.norm(ip, xs), seqs.norm(ip, ys)
    out = []
    if len(xs) != len(ys):
        if not any(isinstance(x, Seg) for x in list(xs) + list(ys)):
            return False
        raise Unsupported('structure of symbolic sequences')
    for x, y in zip(xs, ys):
        if isinstance(x, Seg) != isinstance(y, Seg):
            raise Unsupported('structure of symbolic sequences')
        if isinstance(x, Seg):
            if not seqs.same_root(ip, x.root, y.root) or not segs(ip, x, y):
                raise Unsupported('content of symbolic sequences')
        else:
            r = _same(ip, x, y, seen)
            if r is False:
                return False
            out.append(r)
    return t.and_(*out)


def segs(ip, x, y):
    e = ip.e

    def thunk():
        j = t.fresh('j', 'I')
        vx, vy = seqs.at(ip, x, j), seqs.at(ip, y, j)
        if vx is SKIP or vy is SKIP:
            if vx is vy:
                raise PathAbort()
            return False
        r = _same(ip, vx, vy, {})
        if r is True or (r is not False and e.valid(r)):
            raise PathAbort()
        return False
    return not e.explore(thunk)
