"""Models of built-in operations and of the few library functions the package uses (trusted base)."""
import ast
import binascii
import builtins
import collections
import copy
import datetime
import decimal
import functools
import itertools
import operator
import re
import string
import types
from collections import OrderedDict
from collections.abc import Hashable

from . import terms as t
from . import prelude
from . import seqs
from .terms import T, mk
from .values import *  # noqa
from .engine import MISSING, DOMAINS


class SOpaque:
    """Scalar of a known type with no inspected structure (float, Decimal, bytes, date, ...)."""
    __slots__ = ('cls', 'term')

    def __init__(self, cls, term):
        self.cls, self.term = cls, term

    def __repr__(self):
        return 'SOpaque(%s,%s)' % (self.cls.__name__, self.term)


OPAQUE = {'float': float, 'decimal': decimal.Decimal, 'bytes': bytes, 'date': datetime.date,
          'datetime': datetime.datetime}
OPAQUE_TRUTHY = {'float', 'decimal', 'bytes'}
TAG_CLASS = {
    'none': type(None), 'bool': bool, 'int': int, 'str': str, 'list': list, 'tuple': tuple, 'set': set,
    'frozenset': frozenset, 'range': range, 'gen': types.GeneratorType, 'dict': dict,
}
TAG_CLASS.update(OPAQUE)
MAKERS = {}            # tag -> f(ip, v) -> value, for tags defined by the contracts library
ITEM_DOMAIN = 'ITEM'


def define_tag(tag, cls, maker=None):
    TAG_CLASS[tag] = cls
    if maker is not None:
        MAKERS[tag] = maker


def tag_class(tag):
    return TAG_CLASS[tag]


def tag_hasattr(tag, name):
    return hasattr(TAG_CLASS[tag], name)


_unmodelled = {}


def unmodelled_state(cls):
    """Attributes of objects known by their text only (vlib.TextIs) that the symbolic object does not carry."""
    r = _unmodelled.get(cls)
    if r is None:
        make = getattr(cls, '_make', None)
        r = _unmodelled[cls] = frozenset(vars(make())) if make is not None and any(c.__name__ == 'TextIs' for c in cls.__mro__) else frozenset()
    return r


def materialise(ip, v, tag):
    if tag == 'none':
        return None
    if tag == 'bool':
        return t.bval(v)
    if tag == 'int':
        return t.ival(v)
    if tag == 'str':
        return t.sval(v)
    e = ip.e
    o = e.mat.get(v)
    if o is not None:
        return o
    if tag in MAKERS:
        o = MAKERS[tag](ip, v)
        try:
            o.term = v
        except AttributeError:
            pass
    elif tag in OPAQUE:
        o = SOpaque(OPAQUE[tag], v)
    elif tag in ('list', 'tuple', 'set', 'frozenset', 'range', 'gen'):
        root = mk('items', 'Q', v)
        domk = 'INT' if tag == 'range' else ITEM_DOMAIN
        seg = seqs.base_seg(root, lambda i: mk('it', 'V', domk, root, i))
        o = SSeq(tag, (seg,), term=v)
    elif tag == 'dict':
        root = mk('items', 'Q', v)
        seg = seqs.base_seg(root, lambda i: (mk('it', 'V', 'DKEY', root, i), mk('it', 'V', ITEM_DOMAIN, mk('vals', 'Q', v), i)))
        o = SDict('dict', (seg,), term=v)
    else:
        raise Unsupported('materialise %s' % tag)
    e.set_item(e.mat, v, o)
    return o


def encode(ip, x):
    """Value -> V-term (identity of a value in the logic)."""
    if isinstance(x, T):
        if x.sort == 'V':
            return x
        return {'S': t.vstr, 'I': t.vint, 'B': t.vbool}[x.sort](x)
    if x is None:
        return t.vnone()
    if isinstance(x, bool):
        return t.vbool(x)
    if isinstance(x, int):
        return t.vint(x)
    if isinstance(x, str):
        return t.vstr(x)
    if isinstance(x, (SSeq, SDict, SObj, SOpaque)) and x.term is not None:
        return x.term
    if isinstance(x, (float, bytes, decimal.Decimal, datetime.date)):
        return const_opaque(x)
    raise Unsupported('no logical identity for %r' % (x,))


def const_opaque(x):
    tag = {float: 'float', bytes: 'bytes', decimal.Decimal: 'decimal', datetime.date: 'date',
           datetime.datetime: 'datetime'}[type(x)]
    DOMAINS.setdefault('C:' + tag, frozenset((tag,)))
    return mk('in', 'V', 'C:' + tag, repr(x))


def setup(ip):
    pass


# ================================================================ equality and comparison
def is_symbolic(x):
    return isinstance(x, (T, SSeq, SDict, SObj, SOpaque, SGen, SIter, STypeOf, SFunc, SBound, SBuiltin, SMatch, SSuper))


def deep_concrete(x):
    """Real Python value if x contains nothing symbolic, else MISSING."""
    if isinstance(x, SSeq):
        if x.kind not in ('list', 'tuple', 'set', 'frozenset'):
            return MISSING
        out = []
        for y in x.entries:
            if isinstance(y, Seg):
                return MISSING
            v = deep_concrete(y)
            if v is MISSING:
                return MISSING
            out.append(v)
        return {'list': list, 'tuple': tuple, 'set': set, 'frozenset': frozenset}[x.kind](out)
    if isinstance(x, SDict):
        out = OrderedDict() if x.kind == 'OrderedDict' else {}
        for ent in x.entries:
            if isinstance(ent, Seg):
                return MISSING
            k, v = deep_concrete(ent[0]), deep_concrete(ent[1])
            if k is MISSING or v is MISSING:
                return MISSING
            out[k] = v
        return out
    if is_symbolic(x) or isinstance(x, Seg):
        return MISSING
    return x


def from_native(x):
    """Lift results of native calls: fresh lists/tuples/dicts become symbolic containers."""
    if type(x) in (list, tuple, set, frozenset):
        return SSeq(type(x).__name__, [from_native(y) for y in x])
    if type(x) is dict:
        return SDict('dict', [(k, from_native(v)) for k, v in x.items()])
    return x


def py_is(ip, a, b):
    a, b = ip.res(a), ip.res(b)
    if a is b:
        return True
    for x, y in ((a, b), (b, a)):
        if y is None:
            if isinstance(x, T):
                if x.sort == 'V':
                    return ip.e.test_tag(x, frozenset(('none',)))
                return False
            return x is None
        if isinstance(y, bool):
            if isinstance(x, T):
                if x.sort == 'V':
                    if not ip.e.test_tag(x, frozenset(('bool',))):
                        return False
                    x = t.bval(x)
                if x.sort == 'B':
                    return t.eq(x, y)
                return False
            return x is y
    for x, y in ((a, b), (b, a)):
        if isinstance(x, STypeOf):
            return type_eq(ip, a, b)
    if isinstance(a, T) and isinstance(b, T):
        if a.sort == 'B' and b.sort == 'B':
            return t.eq(a, b)
        if a.sort == 'V' and b.sort == 'V':
            raise Unsupported('identity of undecided values')
        if a.sort == b.sort:
            raise Unsupported('identity of scalars')
        return False
    if isinstance(a, T) or isinstance(b, T):
        other = b if isinstance(a, T) else a
        if isinstance(other, (int, str)):
            raise Unsupported('identity of scalars')
        return False
    if isinstance(a, SBound) and isinstance(b, SBound):
        return False
    ta, tb = getattr(a, 'term', None), getattr(b, 'term', None)
    if isinstance(ta, T) and isinstance(tb, T) and type(a) is type(b):
        return t.eq(ta, tb)                # two inputs may be one object
    return a is b


def type_eq(ip, a, b):
    e = ip.e
    if isinstance(a, STypeOf) and isinstance(b, STypeOf):
        if a.v is b.v:
            return True
        tag = e.tag_of(a.v)
        return e.test_tag(b.v, frozenset(x for x in e.dom(b.v) if tag_class(x) is tag_class(tag)))
    if isinstance(b, STypeOf):
        a, b = b, a
    if not isinstance(b, type):
        return False
    tags = frozenset(x for x in e.dom(a.v) if tag_class(x) is b)
    return e.test_tag(a.v, tags) if tags else False


NUM = {'bool', 'int', 'float', 'decimal'}


def py_eq(ip, a, b):
    """a == b as bool or B-term."""
    e = ip.e
    a, b = ip.res(a), ip.res(b)
    if a is b and not isinstance(a, (SOpaque,)):
        if not isinstance(a, SObj):
            return True
    if isinstance(a, STypeOf) or isinstance(b, STypeOf):
        return type_eq(ip, a, b)
    if isinstance(a, T) and a.sort == 'V' or isinstance(b, T) and b.sort == 'V':
        # decide types as little as possible
        if isinstance(a, T) and a.sort == 'V':
            return py_eq_dyn(ip, a, b)
        return py_eq_dyn(ip, b, a)
    # SObj: user defined __eq__
    for x, y in ((a, b), (b, a)):
        if isinstance(x, SObj):
            r = obj_eq(ip, x, y)
            if r is not NotImplemented:
                return r
    if isinstance(a, SObj) or isinstance(b, SObj):
        return a is b
    if isinstance(a, SOpaque) or isinstance(b, SOpaque):
        return opaque_eq(ip, a, b)
    if isinstance(a, T) or isinstance(b, T):
        sa, sb = scalar_sort(a), scalar_sort(b)
        if sa is None or sb is None:
            return False
        if sa == sb:
            return t.eq(a, b)
        if {sa, sb} == {'I', 'B'}:
            i, bl = (a, b) if sa == 'I' else (b, a)
            return t.or_(t.and_(bl, t.eq(i, 1)), t.and_(t.not_(bl), t.eq(i, 0)))
        return False
    a, b = ip.real_view(a), ip.real_view(b)
    if isinstance(a, (SSeq, list, tuple, set, frozenset)) and isinstance(b, (SSeq, list, tuple, set, frozenset)):
        ka, kb = kind_of(a), kind_of(b)
        if ka != kb and {ka, kb} != {'set', 'frozenset'}:
            return False
        if ka in ('gen', 'iter'):
            return a is b
        if ka == 'view':
            raise Unsupported('equality of dictionary views')
        return seq_eq(ip, a, b)
    if isinstance(a, (SDict, dict)) and isinstance(b, (SDict, dict)):
        return dict_eq(ip, a, b)
    if is_symbolic(a) or is_symbolic(b):
        if isinstance(a, SBound) and isinstance(b, SBound):
            return a.func is b.func and a.self is b.self
        return a is b
    return a == b


def kind_of(x):
    return x.kind if isinstance(x, SSeq) else type(x).__name__


def scalar_sort(x):
    if isinstance(x, T):
        return x.sort
    if isinstance(x, bool):
        return 'B'
    if isinstance(x, int):
        return 'I'
    if isinstance(x, str):
        return 'S'
    return None


def py_eq_dyn(ip, v, y):
    e = ip.e
    if isinstance(y, T) and y.sort == 'V':
        if v is y:
            return True
        tag = e.tag_of(v)
        return py_eq(ip, materialise(ip, v, tag), y)
    # y typed: which tags of v can be equal?
    if y is None:
        return e.test_tag(v, frozenset(('none',)))
    s = scalar_sort(y)
    dom = e.dom(v)
    sqlish = frozenset(x for x in dom if x in MAKERS)
    if s == 'S':
        poss = frozenset(('str',)) | sqlish
    elif s in ('I', 'B'):
        poss = frozenset(NUM) | sqlish
    elif isinstance(y, SSeq):
        poss = frozenset(('set', 'frozenset') if y.kind in ('set', 'frozenset') else (y.kind,)) | sqlish
    else:
        poss = dom
    poss &= dom
    if not poss or not e.test_tag(v, poss):
        return False
    return py_eq(ip, ip.force(v), y)


def opaque_eq(ip, a, b):
    if isinstance(a, SOpaque) and isinstance(b, SOpaque) and a.term is b.term:
        return True
    ca, cb = ip.type_of(a), ip.type_of(b)
    numeric = (int, bool, float, decimal.Decimal)
    comparable = ca is cb or (ca in numeric and cb in numeric)
    if not comparable:
        return False
    try:
        x, y = encode(ip, a), encode(ip, b)
    except Unsupported:
        return False
    if x is y:
        return True
    if x.id > y.id:
        x, y = y, x
    return mk('pyeq', 'B', x, y)


def obj_eq(ip, x, y):
    f = ip.class_lookup(x.cls, '__eq__')
    if isinstance(f, types.FunctionType):
        r = ip.call(f, [x, y], {})
        if r is NotImplemented:
            return NotImplemented
        r = ip.res(r)
        return r if isinstance(r, (bool, T)) else ip.truth(r)
    if x.entries is not None and f is list.__eq__:
        return list_eq_slot(ip, x, y)
    if f is object.__eq__ or f is None:
        return x is y or NotImplemented
    if f is BaseException.__eq__:
        return x is y
    raise Unsupported('__eq__ slot %r' % (f,))


def list_eq_slot(ip, x, y):
    y = ip.real_view(y)
    if isinstance(y, SSeq) and y.kind == 'list' or isinstance(y, list) or isinstance(y, SObj) and y.entries is not None:
        return seq_eq(ip, x, y)
    return NotImplemented


def entries_of(x):
    return x.entries if isinstance(x, (SSeq, SObj, SDict)) else tuple(x)


def seq_eq(ip, a, b):
    """Elementwise equality of two sequences."""
    e = ip.e
    ea, eb = seqs.norm(ip, entries_of(a)), seqs.norm(ip, entries_of(b))
    if kind_of(a) in ('set', 'frozenset') if not isinstance(a, SObj) else False:
        ca, cb = deep_concrete(a), deep_concrete(b)
        if ca is not MISSING and cb is not MISSING:
            return set(ca) == set(cb)
        if len(ea) == 0 or len(eb) == 0:
            return len_eq_zero(ip, ea if ea else eb)
        raise Unsupported('symbolic set equality')
    if not eb or not ea:
        return len_eq_zero(ip, ea or eb)
    if not any(isinstance(x, Seg) for x in ea + eb):
        if len(ea) != len(eb):
            return False
        for x, y in zip(ea, eb):
            if x is y:
                continue
            r = py_eq(ip, x, y)
            if not e.branch(r):
                return False
        return True
    # identical segment structure
    i = 0
    while i < len(ea) and i < len(eb):
        x, y = ea[i], eb[i]
        if isinstance(x, Seg) != isinstance(y, Seg):
            # case split the segment
            if isinstance(x, Seg):
                ea = ea[:i] + seqs.unfold(ip, ea[i:])
            else:
                eb = eb[:i] + seqs.unfold(ip, eb[i:])
            continue
        if isinstance(x, Seg):
            if (x.root is y.root or seqs.same_root(ip, x.root, y.root)) and seg_values_equal(ip, x, y):
                i += 1
                continue
            if all(isinstance(z_, Seg) for z_ in ea[i:] + eb[i:]) or True:
                raise Unsupported('equality of unrelated symbolic sequences')
        r = py_eq(ip, x, y)
        if not e.branch(r):
            return False
        i += 1
    rest = ea[i:] or eb[i:]
    return len_eq_zero(ip, rest)


def seg_values_equal(ip, x, y):
    """Pointwise equality of two segments over the same root (proved for a generic element)."""
    e = ip.e
    if len(x.paths) == 1 and len(y.paths) == 1 and x.bv is y.bv and x.paths[0][1] is y.paths[0][1]:
        return True

    def thunk():
        j = t.fresh('j', 'I')
        vx = seqs.at(ip, x, j)
        vy = seqs.at(ip, y, j)
        if vx is SKIP or vy is SKIP:
            if vx is vy:
                raise PathAbort()
            return False
        r = py_eq(ip, vx, vy)
        if r is True or (r is not False and e.valid(r)):
            raise PathAbort()
        return False
    return not e.explore(thunk)


def len_eq_zero(ip, ents):
    if any(not isinstance(x, Seg) for x in ents):
        return False
    for x in ents:
        if not seqs.seg_empty(ip, x):
            return False
    return True


def dict_eq(ip, a, b):
    ea, eb = dict_view(ip, a), dict_view(ip, b)
    if not ea or not eb:
        return len_eq_zero(ip, ea or eb)
    if any(isinstance(x, Seg) for x in ea + eb):
        if len(ea) == len(eb) and all(isinstance(x, Seg) == isinstance(y, Seg) for x, y in zip(ea, eb)):
            for x, y in zip(ea, eb):
                if isinstance(x, Seg):
                    if x.root is y.root and seg_values_equal(ip, x, y):
                        continue
                    raise Unsupported('equality of symbolic dicts')
                if not (ip.truth(py_eq(ip, x[0], y[0])) and ip.truth(py_eq(ip, x[1], y[1]))):
                    return False
            return True
        raise Unsupported('equality of symbolic dicts')
    if len(ea) != len(eb):
        return False
    for k, v in ea:
        for k2, v2 in eb:
            if ip.truth(py_eq(ip, k, k2)):
                if v is v2 or ip.truth(py_eq(ip, v, v2)):
                    break
                return False
        else:
            return False
    return True


def compare(ip, op, a, b):
    e = ip.e
    if isinstance(op, ast.Is):
        return py_is(ip, a, b)
    if isinstance(op, ast.IsNot):
        r = py_is(ip, a, b)
        return (not r) if isinstance(r, bool) else t.not_(r)
    if isinstance(op, (ast.In, ast.NotIn)):
        r = contains(ip, b, a)
        if isinstance(op, ast.NotIn):
            return (not r) if isinstance(r, bool) else t.not_(r)
        return r
    if isinstance(op, ast.Eq):
        a2, b2 = split_len(ip, a, b)
        return py_eq(ip, a2, b2)
    if isinstance(op, ast.NotEq):
        a, b = ip.res(a), ip.res(b)
        if isinstance(a, SObj):
            f = ip.class_lookup(a.cls, '__ne__')
            if isinstance(f, types.FunctionType):
                return ip.call(f, [a, b], {})
            if a.entries is not None and f is list.__ne__ and isinstance(ip.class_lookup(a.cls, '__eq__'), types.WrapperDescriptorType):
                pass
        a2, b2 = split_len(ip, a, b)
        r = py_eq(ip, a2, b2)
        return (not r) if isinstance(r, bool) else t.not_(r)
    # ordering
    a, b = ip.force(a), ip.force(b)
    name = {ast.Lt: '__lt__', ast.Gt: '__gt__', ast.LtE: '__le__', ast.GtE: '__ge__'}[type(op)]
    if isinstance(a, SObj) or isinstance(b, SObj):
        if isinstance(a, SObj):
            f = ip.class_lookup(a.cls, name)
            if isinstance(f, types.FunctionType):
                r = ip.call(f, [a, b], {})
                if r is not NotImplemented:
                    return r
        if isinstance(b, SObj):
            rn = {'__lt__': '__gt__', '__gt__': '__lt__', '__le__': '__ge__', '__ge__': '__le__'}[name]
            f = ip.class_lookup(b.cls, rn)
            if isinstance(f, types.FunctionType):
                r = ip.call(f, [b, a], {})
                if r is not NotImplemented:
                    return r
        ip.throw(TypeError, 'unorderable')
    a, b = split_len(ip, a, b)
    sa, sb = scalar_sort(a), scalar_sort(b)
    if sa in ('I', 'B') and sb in ('I', 'B'):
        if not isinstance(a, T) and not isinstance(b, T):
            return {'__lt__': operator.lt, '__gt__': operator.gt, '__le__': operator.le, '__ge__': operator.ge}[name](a, b)
        if sa == 'B' and isinstance(a, T):
            a = 1 if e.branch(a) else 0
        if sb == 'B' and isinstance(b, T):
            b = 1 if e.branch(b) else 0
        a, b = int(a) if isinstance(a, bool) else a, int(b) if isinstance(b, bool) else b
        return {'__lt__': lambda: t.lt(a, b), '__gt__': lambda: t.lt(b, a), '__le__': lambda: t.le(a, b),
                '__ge__': lambda: t.le(b, a)}[name]()
    if sa == 'S' and sb == 'S':
        if isinstance(a, str) and isinstance(b, str):
            return {'__lt__': operator.lt, '__gt__': operator.gt, '__le__': operator.le, '__ge__': operator.ge}[name](a, b)
        return {'__lt__': lambda: t.slt(a, b), '__gt__': lambda: t.slt(b, a), '__le__': lambda: t.not_(t.slt(b, a)),
                '__ge__': lambda: t.not_(t.slt(a, b))}[name]()
    if isinstance(a, SSeq) and isinstance(b, SSeq) and a.kind == b.kind and a.kind in ('tuple', 'list'):
        for x, y in zip(a.entries, b.entries):
            if isinstance(x, Seg) or isinstance(y, Seg):
                raise Unsupported('ordering of symbolic sequences')
            if not ip.truth(py_eq(ip, x, y)):
                return compare(ip, ast.Lt() if name in ('__lt__', '__le__') else ast.Gt(), x, y)
        return compare(ip, op, len(a.entries), len(b.entries))
    ca, cb = deep_concrete(a), deep_concrete(b)
    if ca is not MISSING and cb is not MISSING:
        try:
            return {'__lt__': operator.lt, '__gt__': operator.gt, '__le__': operator.le, '__ge__': operator.ge}[name](ca, cb)
        except TypeError:
            ip.throw(TypeError, 'unorderable')
    if isinstance(a, SOpaque) or isinstance(b, SOpaque):
        ta, tb = ip.type_of(a), ip.type_of(b)
        numeric = (int, bool, float, decimal.Decimal)
        if ta is tb or (ta in numeric and tb in numeric):
            return mk('pylt', 'B', name, encode(ip, a), encode(ip, b))
    ip.throw(TypeError, 'unorderable')


def split_len(ip, a, b):
    """When a length is compared with a constant, case split the underlying segments."""
    def has_len(x):
        return isinstance(x, T) and x.sort == 'I' and any(
            isinstance(y, T) and y.op == 'len' for y in (x.args if x.op == 'add' else (x,)))
    if has_len(a) and isinstance(b, int) and not isinstance(b, bool):
        return seqs.cmp_len(ip, a, b), b
    if has_len(b) and isinstance(a, int) and not isinstance(a, bool):
        return a, seqs.cmp_len(ip, b, a)
    return a, b


def contains(ip, c, x):
    e = ip.e
    c = ip.force(c)
    c = ip.real_view(c)
    if isinstance(c, SObj):
        f = ip.class_lookup(c.cls, '__contains__')
        if isinstance(f, types.FunctionType):
            r = ip.call(f, [c, x], {})
            return r if isinstance(r, bool) else ip.truth(r)
        return search(ip, c, x)
    if isinstance(c, (T, str)) and (isinstance(c, str) or c.sort == 'S'):
        x = ip.force(x)
        if isinstance(x, str) and isinstance(c, str):
            return x in c
        if not isinstance(x, (str, T)) or (isinstance(x, T) and x.sort != 'S'):
            ip.throw(TypeError, "'in <string>' requires string")
        return str_contains(ip, c, x)
    if isinstance(c, (SSeq, SGen, SIter)):
        return search(ip, c, x)
    if isinstance(c, (SDict, dict)):
        return dict_find(ip, c, x) is not MISSING
    if isinstance(c, (tuple, list, set, frozenset, range)) or isinstance(c, (type({}.keys()), type({}.values()), type({}.items()))):
        if not is_symbolic(x):
            try:
                return x in c
            except TypeError:
                ip.throw(TypeError, 'unhashable')
        if isinstance(c, range):
            raise Unsupported('symbolic in range')
        return search(ip, SSeq('list', list(c)), x)
    if hasattr(type(c), '__contains__') and not is_symbolic(x):
        return x in c
    ip.throw(TypeError, 'argument is not iterable')


def str_contains(ip, c, x):
    """x in c for strings."""
    if isinstance(x, str):
        if x == '':
            return True
        ps = t.parts(c)
        if any(isinstance(p, str) and x in p for p in ps):
            return True
        if len(x) == 1:
            # decide per part
            out = []
            for p in ps:
                if isinstance(p, str):
                    continue
                out.append(char_in(p, x))
            return t.or_(*out)
    return mk('contains', 'B', c if isinstance(c, T) else c, x)


def char_in(p, ch):
    if p.op == 'hom':
        table = dict(p.args[0])
        srcs = [c for c, r in table.items() if ch in r]
        if ch not in table:
            srcs.append(ch)
        return t.or_(*[mk('contains', 'B', p.args[1], c) for c in srcs])
    if p.op == 'i2s' and ch not in '-0123456789':
        return False
    return mk('contains', 'B', p, ch)


def search(ip, c, x):
    """Generic membership: any(e is x or e == x for e in c)."""
    found = [False]
    from .interp import BreakEx

    def body(y):
        if y is x and not isinstance(x, T) or ip.truth(py_eq(ip, y, x)):
            raise BreakEx()
    return seqs.run_loop(ip, c, body, None, None, ordered=False)


# ================================================================ strings
def to_str(ip, v):
    v = ip.force(v)
    if isinstance(v, str):
        return v
    if isinstance(v, T):
        if v.sort == 'S':
            return v
        if v.sort == 'I':
            return t.i2s(v)
        if v.sort == 'B':
            return 'True' if ip.e.branch(v) else 'False'
    if isinstance(v, SObj):
        f = ip.class_lookup(v.cls, '__str__')
        if isinstance(f, (types.FunctionType, SFunc)):
            r = ip.res(ip.call(f, [v], {}))
            if not isinstance(r, str) and not (isinstance(r, T) and r.sort == 'S'):
                ip.throw(TypeError, '__str__ returned non-string')
            return r
        if f is object.__str__:
            return to_repr(ip, v)
        if issubclass(v.cls, BaseException):
            a = v.attrs.get('args')
            if isinstance(a, SSeq) and len(a.entries) == 1 and not isinstance(a.entries[0], Seg):
                return to_str(ip, a.entries[0])
            return mk('call', 'S', 'excstr', t.fresh('x', 'I'))
        raise Unsupported('str of %r' % (v,))
    if isinstance(v, STypeOf):
        v = ip.force_type(v)
    if isinstance(v, SOpaque):
        return mk('strof', 'S', v.term)
    if isinstance(v, (SSeq, SDict)):
        c = deep_concrete(v)
        if c is not MISSING:
            return str(c)
        if v.term is not None:
            return mk('strof', 'S', v.term)
        return mk('call', 'S', 'reprseq', t.fresh('x', 'I'))
    if isinstance(v, (SFunc, SBound, SGen, SMatch, SIter, SBuiltin)):
        return mk('call', 'S', 'repr', t.fresh('x', 'I'))
    return str(v)


def to_repr(ip, v):
    v = ip.force(v)
    if isinstance(v, SObj):
        f = ip.class_lookup(v.cls, '__repr__')
        if isinstance(f, types.FunctionType):
            return ip.res(ip.call(f, [v], {}))
        return mk('call', 'S', 'repr', t.fresh('x', 'I'))
    if isinstance(v, T):
        if v.sort == 'I':
            return t.i2s(v)
        if v.sort == 'S':
            return mk('call', 'S', 'reprstr', v)
        return to_str(ip, v)
    if is_symbolic(v):
        return to_str(ip, v)
    return repr(v)


def format_value(ip, v, spec=''):
    v = ip.force(v)
    if isinstance(spec, T):
        raise Unsupported('symbolic format spec')
    if isinstance(v, SObj):
        f = ip.class_lookup(v.cls, '__format__')
        if isinstance(f, types.FunctionType):
            return ip.call(f, [v, spec], {})
        if spec:
            ip.throw(TypeError, 'unsupported format string passed')
        return to_str(ip, v)
    if spec == '':
        return to_str(ip, v)
    if isinstance(v, T):
        if v.sort == 'B':
            v = ip.e.branch(v)
            return format(v, spec)
        if v.sort == 'I' and spec in ('d', ''):
            return t.i2s(v)
        if v.sort == 'I':
            return mk('fmt', 'S', spec, t.vint(v))
        if v.sort == 'S':
            if spec == 's':
                return v
            if spec and spec[-1] in 'dfeg':
                ip.throw(ValueError, 'bad format')
            raise Unsupported('string format spec %s' % spec)
    if isinstance(v, SOpaque):
        if v.cls in (float, decimal.Decimal):
            if spec == 'd':
                ip.throw(ValueError, 'bad format')
            return mk('fmt', 'S', spec, v.term)
        raise Unsupported('format spec %s' % spec)
    if is_symbolic(v):
        ip.throw(TypeError, 'unsupported format string')
    try:
        return format(v, spec)
    except (TypeError, ValueError) as ex:
        ip.throw(type(ex), str(ex))


def str_format(ip, fmt, args, kwargs):
    out = []
    auto = 0
    args = list(args)
    if any(isinstance(a, Seg) for a in args):
        raise Unsupported('format with unbounded arguments')
    for lit, field, spec, conv in string.Formatter().parse(fmt):
        out.append(lit)
        if field is None:
            continue
        m = re.match(r'([^.\[]*)(.*)$', field, re.S)
        head, rest = m.group(1), m.group(2)
        if head == '':
            head = auto
            auto += 1
        elif head.isdigit():
            head = int(head)
        if isinstance(head, int):
            if head >= len(args):
                ip.throw(IndexError, 'Replacement index out of range')
            v = args[head]
        else:
            kw = kwargs if isinstance(kwargs, dict) else dict(x for x in kwargs if not isinstance(x, Seg))
            if head not in kw:
                ip.throw(KeyError, head)
            v = kw[head]
        while rest:
            m = re.match(r'\.(\w+)|\[([^\]]+)\]', rest)
            if m.group(1):
                v = ip.getattr(v, m.group(1))
            else:
                k = m.group(2)
                v = getitem(ip, v, int(k) if k.isdigit() else k)
            rest = rest[m.end():]
        if conv == 's':
            v = to_str(ip, v)
        elif conv == 'r':
            v = to_repr(ip, v)
        if spec and '{' in spec:
            spec = str_format(ip, spec, args, kwargs)
        out.append(format_value(ip, v, spec))
    return t.cat(*out)


def percent_format(ip, fmt, arg):
    if isinstance(fmt, T):
        # literal pieces carry the directives; symbolic pieces must not contain any
        return percent_symbolic(ip, fmt, arg)
    arg = ip.res(arg)
    pos = None
    mapping = None
    if isinstance(arg, SSeq) and arg.kind == 'tuple':
        pos = list(arg.entries)
    elif isinstance(arg, tuple):
        pos = list(arg)
    elif isinstance(arg, (SDict, dict)):
        mapping = arg
        pos = [arg]
    else:
        if isinstance(arg, T) and arg.sort == 'V':
            arg = ip.force(arg)
            return percent_format(ip, fmt, arg)
        pos = [arg]
    out = []
    i = 0
    used = 0
    for m in re.finditer(r'%(?:\((\w+)\))?([#0\- +]*)(\d+|\*)?(?:\.(\d+))?([a-zA-Z%])', fmt):
        out.append(fmt[i:m.start()])
        i = m.end()
        key, flags, width, prec, c = m.groups()
        if c == '%':
            out.append('%')
            continue
        if key is not None:
            if mapping is None:
                ip.throw(TypeError, 'format requires a mapping')
            v = getitem(ip, mapping, key)
        else:
            if used >= len(pos):
                ip.throw(TypeError, 'not enough arguments for format string')
            v = pos[used]
            if isinstance(v, Seg):
                raise Unsupported('format with unbounded arguments')
            used += 1
        if flags or width:
            raise Unsupported('printf flags')
        if c == 's' and prec is None:
            out.append(to_str(ip, v))
        elif c == 'r':
            out.append(to_repr(ip, v))
        elif c in 'di' and prec is None:
            out.append(format_value(ip, v, 'd'))
        elif c == 'f':
            out.append(format_value(ip, v, '.%sf' % (prec or '6')))
        else:
            raise Unsupported('printf directive %s' % c)
    out.append(fmt[i:])
    if mapping is None and used < len(pos):
        ip.throw(TypeError, 'not all arguments converted')
    return t.cat(*out)


def percent_symbolic(ip, fmt, arg):
    raise Unsupported('symbolic printf format')


def char_entries(ip, s):
    raise Unsupported('iteration over characters of a symbolic string')


STR_PURE = {'upper', 'lower', 'strip', 'title', 'capitalize', 'lstrip', 'rstrip', 'casefold', 'swapcase'}


def str_method(ip, s, name, args, kwargs):
    e = ip.e
    args = [ip.force(a) if isinstance(a, T) and a.sort == 'V' else a for a in args]
    if name == 'format':
        if isinstance(s, str):
            return str_format(ip, s, args, kwargs)
        return format_symbolic(ip, s, args, kwargs)
    if name == 'join':
        ents = seqs.iter_entries(ip, args[0])

        def text(v):
            v = ip.res(v)
            if isinstance(v, str) or isinstance(v, T) and v.sort == 'S':
                return v
            if isinstance(v, T) and v.sort == 'V':
                raise Unsupported('join of undecided values')
            ip.throw(TypeError, 'sequence item: expected str instance')
        if isinstance(s, T):
            if any(isinstance(x, Seg) for x in ents):
                raise Unsupported('symbolic separator')
            out = []
            for i, x in enumerate(ents):
                if i:
                    out.append(s)
                out.append(text(x))
            return t.cat(*out)
        ents = [ip.force(x) if isinstance(x, T) else x for x in ents]
        if any(isinstance(x, Seg) and any(isinstance(v, T) and v.sort == 'V' for _, v in x.paths) for x in ents):
            ents = seqs.map_entries(ip, ents, lambda v: text(ip.force(v)))
        return seqs.join(ip, s, ents, text)
    if isinstance(s, str) and all(not is_symbolic(a) for a in args) and not any(is_symbolic(v) for v in (kwargs.values() if isinstance(kwargs, dict) else ())):
        try:
            return from_native(getattr(s, name)(*args, **kwargs))
        except (TypeError, ValueError, IndexError, KeyError, LookupError) as ex:
            ip.throw(type(ex), *ex.args)
    if name == 'replace':
        if len(args) == 2 and all(isinstance(a, str) or isinstance(a, T) and a.sort == 'S' for a in args):
            if isinstance(args[0], str) and len(args[0]) == 1 and isinstance(s, T) and seqs.lacks(ip, s, args[0]):
                return s
            return t.replace_all(s, args[0], args[1])
        if len(args) == 2:
            ip.throw(TypeError, 'replace() argument must be str')
        raise Unsupported('str.replace with count')
    if name == 'translate':
        tab = deep_concrete(args[0])
        if tab is MISSING or not isinstance(tab, dict):
            raise Unsupported('translate table')
        pairs = []
        for k, v in tab.items():
            k = chr(k) if isinstance(k, int) else k
            v = '' if v is None else chr(v) if isinstance(v, int) else v
            pairs.append((k, v))
        return t.hom(tuple(pairs), s)
    if name in ('strip', 'lstrip', 'rstrip') and not args and isinstance(s, T):
        return strip(ip, s, name)
    if name in STR_PURE and not args:
        if isinstance(s, T) and s.op == 'i2s' and name in ('upper', 'lower', 'casefold', 'swapcase', 'title', 'capitalize'):
            return s
        return mk(name, 'S', s)
    if name in ('startswith', 'endswith') and len(args) == 1:
        p = args[0]
        if isinstance(p, SSeq):
            return t.or_(*[str_affix(ip, s, x, name) for x in p.entries])
        return str_affix(ip, s, p, name)
    if name in ('strip', 'lstrip', 'rstrip'):
        return mk('call', 'S', name, s, args[0])
    if name == 'split' and len(args) == 1 and not kwargs and isinstance(args[0], str) and len(args[0]) == 1:
        root = seqs.split_at(ip, s, args[0])
        return SSeq('list', seqs.norm(ip, (seqs.base_seg(root, lambda i: seqs.component(root, i)),)))
    if name == 'split' or name == 'rsplit' or name == 'partition' or name == 'splitlines':
        raise Unsupported('str.%s on symbolic string' % name)
    if name == '__len__':
        return t.strlen(s)
    if name == '__eq__':
        return py_eq(ip, s, args[0])
    if name == '__str__':
        return s
    if name == '__contains__':
        return contains(ip, s, args[0])
    if name == '__add__':
        return t.cat(s, args[0])
    if name == 'find' or name == 'index' or name == 'count':
        return mk('call', 'I', name, s, *args)
    if name in ('isdigit', 'isalnum', 'isidentifier', 'isalpha', 'isspace', 'isupper', 'islower', 'isnumeric', 'isdecimal', 'isascii'):
        return mk('call', 'B', name, s)
    if name == 'encode':
        DOMAINS.setdefault('C:bytes', frozenset(('bytes',)))
        return SOpaque(bytes, mk('in', 'V', 'C:bytes', 'encode', s))
    raise Unsupported('str.%s' % name)


def str_affix(ip, s, p, name):
    if not (isinstance(p, str) or isinstance(p, T) and p.sort == 'S'):
        ip.throw(TypeError, 'startswith first arg must be str')
    ps = list(t.parts(s))
    if isinstance(p, str):
        if not ps:
            return p == ''
        end = ps[0] if name == 'startswith' else ps[-1]
        if isinstance(end, str) and (len(end) >= len(p)):
            return getattr(end, name)(p)
        if isinstance(end, str) and len(ps) > 1:
            if name == 'startswith' and not p.startswith(end) or name == 'endswith' and not p.endswith(end):
                return False
    return mk('prefix' if name == 'startswith' else 'suffix', 'B', s, p)


VAL_CLOSED = frozenset(('none', 'bool', 'int', 'float', 'decimal', 'str', 'bytes', 'date', 'datetime', 'select', 'union'))


def strip(ip, s, name):
    """strip() of a concatenation: only the outer parts matter."""
    e = ip.e
    ps = list(t.parts(t.cat(*[e.eqlit.get(x, x) if isinstance(x, T) else x for x in t.parts(s)])))
    if name in ('strip', 'lstrip'):
        while ps and isinstance(ps[0], str):
            x = ps[0].lstrip()
            if x:
                ps[0] = x
                break
            ps.pop(0)
    if name in ('strip', 'rstrip'):
        while ps and isinstance(ps[-1], str):
            x = ps[-1].rstrip()
            if x:
                ps[-1] = x
                break
            ps.pop()
    if not ps:
        return ''
    lopen = name in ('strip', 'lstrip') and not isinstance(ps[0], str)
    ropen = name in ('strip', 'rstrip') and not isinstance(ps[-1], str)
    if lopen and nospace(ip, ps[0], 0):
        lopen = False
    if ropen and nospace(ip, ps[-1], -1):
        ropen = False
    if not lopen and not ropen:
        return t.cat(*ps)
    if len(ps) == 1:
        return mk(name if lopen and ropen else 'lstrip' if lopen else 'rstrip', 'S', ps[0])
    if lopen:
        rest = t.cat(*ps[1:]) if len(ps) > 1 else ''
        if isinstance(ps[1], str):
            ps[0] = mk('lstrip', 'S', ps[0])     # the literal that follows is not blank-only at its start
            if ps[1][0] in string.whitespace:
                if not e.valid(t.not_(t.eq(ps[0], ''))):
                    return mk(name, 'S', s)
        else:
            return mk(name, 'S', s)
    if ropen:
        x = ps[-1] if noblank(ip, ps[-1], -1) else mk('rstrip', 'S', ps[-1])
        if isinstance(ps[-2], str) and ps[-2][-1] not in string.whitespace:
            ps[-1] = x
        else:
            # prefix literal ends with blank: result depends on the tail being blank-only
            if e.branch(t.eq(x, '')):
                return strip(ip, t.cat(*ps[:-1]), name)
            ps[-1] = x
    return t.cat(*ps)


def nospace(ip, p, end):
    """Atom known not to start/end with white space (and not to be empty)."""
    if p.op in ('i2s', 'fmt', 'hex', 'iso'):
        return True
    if p.op == 'VAL':
        v = p.args[1]
        return v.op in ('vstr', 'vint', 'vbool', 'vnone') or ip.e.dom(v) <= VAL_CLOSED
    if p.op in ('strip',):
        return ip.e.valid(t.not_(t.eq(p, '')))
    if p.op == 'lstrip' and end == 0 or p.op == 'rstrip' and end == -1:
        return ip.e.valid(t.not_(t.eq(p, '')))
    if p.op == 'join' and isinstance(p.args[0], str):
        # non-empty join of elements that do not touch white space
        root, tm = p.args[1], p.args[2]
        if ip.e.lookup(t.eq(mk('len', 'I', root), 0)) is False or root.op == 'kept' or True:
            i = t.fresh('i', 'I')
            ok = True
            for g, v in seqs.tmpl_pairs(tm, i):
                if isinstance(v, str) and v == '%SKIP':
                    return False
                ps = t.parts(v)
                if not ps:
                    return False
                x = ps[0] if end == 0 else ps[-1]
                if isinstance(x, str):
                    ok = ok and not x[end].isspace()
                else:
                    ok = ok and nospace(ip, x, end)
            return ok and known_nonempty(ip, root)
    if p.op == 'REF' and p.args[1].op == 'vstr' and isinstance(p.args[1].args[0], str):
        return bool(vlib_refname_parts(p.args[1].args[0]))
    return (('nospace', p) in ip.e.facts)


def vlib_refname_parts(name):
    import vlib
    return all(vlib.split_reference(name, q) for q in set(vlib.QUOTES.values()))


def noblank(ip, p, end):
    """Atom that is empty or does not start/end with white space."""
    if p.op == 'REF':
        return p.args[1].op in ('vstr', 'vint') or ip.e.dom(p.args[1]) <= frozenset(('str', 'int', 'select', 'union'))
    if p.op in ('join', 'jsuf') and isinstance(p.args[0], str):
        if p.op == 'jsuf' and end == 0 and not p.args[0]:
            return False
        if p.op == 'jsuf' and end == 0:
            return not p.args[0][0].isspace()
        i = t.fresh('i', 'I')
        for g, v in seqs.tmpl_pairs(p.args[2], i):
            ps = t.parts(v)
            if not ps or (isinstance(v, str) and v == '%SKIP'):
                return False
            x = ps[0] if end == 0 else ps[-1]
            if isinstance(x, str):
                if x[end].isspace():
                    return False
            elif not nospace(ip, x, end):
                return False
        return True
    return nospace(ip, p, end)


def known_nonempty(ip, root):
    if ip.e.quick(t.eq(mk('len', 'I', root), 0)) is False:
        return True
    return ip.e.valid(t.not_(t.eq(mk('len', 'I', root), 0)))


def format_symbolic(ip, s, args, kwargs):
    """Format string with symbolic pieces that cannot contain braces."""
    out = []
    n = 0
    args = list(args)
    for p in t.parts(s):
        if isinstance(p, str):
            raise Unsupported('symbolic format string')
    raise Unsupported('symbolic format string')


# ================================================================ containers
def dict_entries(ip, d):
    d = ip.force(d)
    d = ip.real_view(d)
    if isinstance(d, SDict):
        return seqs.norm(ip, d.entries)
    if isinstance(d, dict) or isinstance(d, types.MappingProxyType):
        return list(d.items())
    if isinstance(d, SObj) and ip.class_lookup(d.cls, 'keys') is not None:
        raise Unsupported('mapping object')
    ip.throw(TypeError, 'not a mapping')


def dict_view(ip, d):
    """The items of a dictionary in order, once each.

    Entries of a dictionary with segments are kept as they were inserted (the last one wins), so keys may repeat."""
    if not isinstance(d, SDict):
        return dict_entries(ip, d)
    raw = d.entries
    if not any(isinstance(x, Seg) for x in raw) or len(raw) == 1 and keys_once(raw[0]):
        return seqs.norm(ip, raw)
    out = []                               # (origin, entry)
    for i, x in enumerate(raw):
        once = isinstance(x, Seg) and keys_once(x)
        for y in seqs.norm(ip, (x,)) if isinstance(x, Seg) else [x]:
            if isinstance(y, Seg):
                if not once or any(o != i and (isinstance(z, Seg) or seg_lookup(ip, y, z[0]) is not MISSING) for o, z in out):
                    raise Unsupported('items of a dictionary whose keys may repeat')
                out.append((i, y))
                continue
            y = tuple(y) if isinstance(y, tuple) else tuple(y.entries)
            for n, (o, z) in enumerate(out):
                if once and o == i:
                    continue
                if isinstance(z, Seg):
                    if seg_lookup(ip, z, y[0]) is not MISSING:
                        raise Unsupported('items of a dictionary whose keys may repeat')
                elif hashable_eq(ip, z[0], y[0]):
                    out[n] = (o, (z[0], y[1]))
                    break
            else:
                out.append((i, y))
    return [x for _, x in out]


def keys_once(seg):
    """Do the elements have different keys, namely those of one dictionary?"""
    vs = [v for _, v in seg.paths if v is not SKIP]
    return bool(vs) and all((isinstance(v, tuple) or isinstance(v, SSeq) and v.kind == 'tuple') and len(v if isinstance(v, tuple) else v.entries) == 2 and
                            isinstance(pair_key(v), T) and pair_key(v) is seqs.key_at(seg.root, seg.bv) for v in vs)


def dict_find(ip, d, key):
    """(index or entry) lookup; MISSING when absent.  Forks on symbolic keys."""
    key0 = ip.res(key)
    if isinstance(key0, STypeOf):
        key0 = ip.force_type(key0)
    key = key0
    if isinstance(d, dict):
        if not is_symbolic(key):
            try:
                return (key, d[key]) if key in d else MISSING
            except TypeError:
                ip.throw(TypeError, 'unhashable type')
        ents = list(d.items())
    else:
        ents = seqs.norm(ip, d.entries)
    if isinstance(key, (SSeq, SDict)) and (isinstance(key, SDict) or key.kind in ('list', 'set')):
        ip.throw(TypeError, 'unhashable type')
    unique = True
    for i in range(len(ents) - 1, -1, -1):
        ent = ents[i]
        if isinstance(ent, Seg):
            r = seg_lookup(ip, ent, key)
            if r is not MISSING:
                return r
            continue
        k, v = ent
        if k is key:
            return ent
        if hashable_eq(ip, k, key):
            return ent
    return MISSING


def seg_lookup(ip, seg, key):
    """Last element of a segment of pairs whose key equals `key` (canonical witness), else MISSING."""
    e = ip.e
    i = seqs.index_of_key(seg, key)
    if i is not None:
        x = seqs.at(ip, seg, i)
        return x if isinstance(x, tuple) else tuple(x.entries)
    if seg.root.op == 'sorted':
        k = seqs.key_at(seg.root, seg.bv)
        if k is not None and all(v is not SKIP and pair_key(v) is k for _, v in seg.paths):
            seg = unsorted(ip, seg)      # the keys are pairwise different: the order does not matter

    def thunk():
        x = seqs.at(ip, seg, j)
        if x is SKIP:
            return False
        k = pair_key(x)
        r = py_eq(ip, k, key)
        return r if isinstance(r, (bool, T)) else ip.truth(r)
    j = t.fresh('j', 'I')
    outs = e.explore(thunk)
    c = mk('ex', 'B', seg.root, seqs.tmpl(j, [(g, v) for g, v in outs]))
    if all(v is False for _, v in outs):
        return MISSING
    if not e.branch(c):
        return MISSING
    w = mk('last', 'I', c.args[0], c.args[1])
    if w not in e.witnesses.get(seg.root, ()):
        e.set_item(e.witnesses, seg.root, e.witnesses.get(seg.root, ()) + (w,))
        e.add_fact_soft(seqs.ex_formula(c.args[1], w))
    x = seqs.at(ip, seg, w)
    if x is SKIP:
        raise PathAbort()
    return x if isinstance(x, tuple) else tuple(x.entries)


def pair_key(x):
    return x[0] if isinstance(x, tuple) else x.entries[0]


def dict_set(ip, d, k, v):
    e = ip.e
    d = ip.mutable(d)
    ip.note_write(d)
    k = ip.res(k)
    if isinstance(k, STypeOf):
        k = ip.force_type(k)
    if isinstance(k, SSeq) and k.kind == 'list' or isinstance(k, SDict):
        ip.throw(TypeError, 'unhashable type')
    if any(isinstance(x, Seg) for x in d.entries):
        e.set_attr(d, 'entries', tuple(d.entries) + ((k, v),))
        return
    ents = list(seqs.norm(ip, d.entries))
    for i, ent in enumerate(ents):
        if hashable_eq(ip, ent[0], k):
            ents[i] = (ent[0], v)
            e.set_attr(d, 'entries', tuple(ents))
            return
    e.set_attr(d, 'entries', tuple(ents) + ((k, v),))


def hashable_eq(ip, a, b):
    """Equality of keys: same object, or same hash and equal."""
    a, b = ip.res(a), ip.res(b)
    if a is b:
        return True
    if not is_symbolic(a) and not is_symbolic(b):
        try:
            return hash(a) == hash(b) and bool(a == b)
        except TypeError:
            ip.throw(TypeError, 'unhashable type')
    if (isinstance(a, SObj) or isinstance(b, SObj)) and (by_identity(ip, a) or by_identity(ip, b)):
        return ip.truth(py_is(ip, a, b)) if isinstance(a, SObj) and isinstance(b, SObj) else False
    return ip.truth(py_eq(ip, a, b))


def by_identity(ip, o):
    """Does the object hash by its identity?"""
    if not isinstance(o, SObj):
        return False
    f = ip.class_lookup(o.cls, '__hash__')
    if f is None:
        ip.throw(TypeError, 'unhashable type')
    if not isinstance(f, types.FunctionType):
        return True
    h = ip.call(f, [o], {})
    if isinstance(h, T) and h.op == 'call' and h.args[0] == 'id':
        return True
    if isinstance(h, T) and h.op == 'call' and h.args[0] == 'hash':
        return False                       # equal objects are assumed to have equal hashes
    raise Unsupported('user defined hash')


def dict_add_entry(ip, d, ent):
    """Entry from a comprehension or pair iterable; segments are appended (later entries win on lookup)."""
    if isinstance(ent, Seg):
        ip.e.set_attr(d, 'entries', d.entries + (ent,))
        return
    if isinstance(ent, SSeq):
        ents = seqs.exact(ip, ent.entries, 2)
        if ents is None:
            ip.throw(ValueError, 'dictionary update sequence element has wrong length')
        ent = tuple(ents)
    if isinstance(ent, T):
        ent = tuple(seqs.exact(ip, seqs.iter_entries(ip, ent), 2) or ip.throw(ValueError, 'pair'))
    if any(isinstance(x, Seg) for x in d.entries):
        ip.e.set_attr(d, 'entries', d.entries + (tuple(ent),))
        return
    dict_set(ip, d, ent[0], ent[1])


def dict_update(ip, d, other):
    other = ip.force(other)
    other = ip.real_view(other)
    if isinstance(other, (SDict, dict)):
        for ent in dict_entries(ip, other):
            dict_add_entry(ip, d, ent)
    else:
        for ent in seqs.iter_entries(ip, other):
            dict_add_entry(ip, d, ent)


def set_add(ip, s, x):
    """Set insertion; symbolic elements are kept as given, equality decided by forking."""
    e = ip.e
    if isinstance(x, (SSeq, SDict)) and (isinstance(x, SDict) or x.kind in ('list', 'set')):
        ip.throw(TypeError, 'unhashable type')
    if isinstance(x, Seg):
        e.set_attr(s, 'entries', s.entries + (x,))
        return
    if any(isinstance(y, Seg) for y in s.entries):
        e.set_attr(s, 'entries', s.entries + (x,))
        return
    for y in s.entries:
        if y is x or hashable_eq(ip, y, x):
            return
    e.set_attr(s, 'entries', s.entries + (x,))


def index_int(ip, k):
    k = ip.force(k)
    if isinstance(k, bool):
        return int(k)
    return k


def getitem(ip, o, k):
    o = ip.force(o)
    o = ip.real_view(o)
    if isinstance(o, SObj):
        f = ip.class_lookup(o.cls, '__getitem__')
        if isinstance(f, types.FunctionType):
            return ip.call(f, [o, k], {})
        if o.entries is None:
            ip.throw(TypeError, 'not subscriptable')
    if isinstance(o, (SDict, dict)):
        ent = dict_find(ip, o, k)
        if ent is MISSING:
            ip.throw(KeyError, k)
        return ent[1]
    if isinstance(o, (SSeq, SObj)):
        if isinstance(o, SSeq) and o.kind in ('set', 'frozenset', 'gen', 'view'):
            ip.throw(TypeError, 'not subscriptable')
        k = index_int(ip, k)
        if isinstance(k, T) and k.sort == 'I':
            return item_at(ip, o.entries, k)
        if isinstance(k, T):
            raise Unsupported('symbolic index')
        if not isinstance(k, int):
            ip.throw(TypeError, 'indices must be integers')
        ents = list(o.entries)
        if k >= 0:
            ents2 = seqs.expose(ip, ents, k + 1, 0)
        else:
            ents2 = seqs.expose(ip, ents, 0, -k)
        if isinstance(o, (SSeq, SObj)) and (len(ents2) != len(ents) or any(a is not b for a, b in zip(ents2, ents))):
            ip.e.set_attr(o, 'entries', tuple(ents2))      # same sequence, refined view: elements get identity
        if k >= 0 and k < len(ents2) and not any(isinstance(x, Seg) for x in ents2[:k + 1]):
            return ents2[k]
        if k < 0 and -k <= len(ents2) and not any(isinstance(x, Seg) for x in ents2[k:]):
            return ents2[k]
        ip.throw(IndexError, 'index out of range')
    if isinstance(o, T):
        if o.sort == 'S':
            k = index_int(ip, k)
            return str_index(ip, o, k)
        ip.throw(TypeError, 'not subscriptable')
    k = ip.force(k)
    if isinstance(o, str) and isinstance(k, T):
        raise Unsupported('symbolic index')
    if is_symbolic(o) or isinstance(o, SOpaque):
        ip.throw(TypeError, 'not subscriptable')
    if is_symbolic(k):
        if isinstance(o, (tuple, list)):
            raise Unsupported('symbolic index')
        ip.throw(TypeError, 'not subscriptable')
    try:
        return o[k]
    except (KeyError, IndexError, TypeError) as ex:
        ip.throw(type(ex), *ex.args)


def str_index(ip, s, k):
    raise Unsupported('index into symbolic string')


def getslice(ip, o, lo, hi, st):
    o = ip.force(o)
    o = ip.real_view(o)
    lo, hi, st = [None if x is None else index_int(ip, x) for x in (lo, hi, st)]
    if any(isinstance(x, T) for x in (lo, hi, st)):
        raise Unsupported('symbolic slice')
    if isinstance(o, T):
        return str_slice(ip, o, lo, hi, st)
    if isinstance(o, (SSeq, SObj)) and (isinstance(o, SObj) and o.entries is not None or isinstance(o, SSeq)):
        kind = o.kind if isinstance(o, SSeq) else 'list'
        ents = seqs.norm(ip, o.entries)
        if not any(isinstance(x, Seg) for x in ents):
            return SSeq(kind, ents[lo:hi:st])
        if st not in (None, 1):
            if st == -1 and lo is None and hi is None:
                return SSeq(kind, reverse_entries(ip, ents))
            raise Unsupported('slice step')
        first = max(lo or 0, hi or 0) if (lo or 0) >= 0 and (hi or 0) >= 0 else max([x for x in (lo, hi) if x is not None and x > 0] or [0])
        last = max([-x for x in (lo, hi) if x is not None and x < 0] or [0])
        ents = seqs.expose(ip, ents, first, last)
        return SSeq(kind, ents[lo:hi])
    if isinstance(o, SDict) or o is None:
        ip.throw(TypeError, 'not subscriptable')
    try:
        return from_native(o[lo:hi:st])
    except TypeError as ex:
        ip.throw(TypeError, str(ex))


def str_slice(ip, s, lo, hi, st):
    ps = list(t.parts(s))
    if st not in (None, 1):
        raise Unsupported('string slice step')
    # cut literal prefixes/suffixes
    if lo is not None and lo > 0:
        if isinstance(ps[0], str) and len(ps[0]) >= lo:
            ps[0] = ps[0][lo:]
            lo = None
    elif lo == 0:
        lo = None
    if hi is not None and hi < 0:
        if isinstance(ps[-1], str) and len(ps[-1]) >= -hi:
            ps[-1] = ps[-1][:hi]
            hi = None
    if lo is None and hi is None:
        return t.cat(*ps)
    return mk('call', 'S', 'slice', t.cat(*ps), str(lo), str(hi))


def setitem(ip, o, k, v):
    o = ip.force(o)
    if isinstance(o, SObj):
        f = ip.class_lookup(o.cls, '__setitem__')
        if isinstance(f, types.FunctionType):
            ip.call(f, [o, k, v], {})
            return
    o = ip.mutable(o)
    if isinstance(o, SDict):
        dict_set(ip, o, k, v)
        return
    if isinstance(o, (SSeq, SObj)) and o.entries is not None:
        if isinstance(o, SSeq) and o.kind != 'list':
            ip.throw(TypeError, 'does not support item assignment')
        k = index_int(ip, k)
        if not isinstance(k, int):
            raise Unsupported('symbolic index')
        ip.note_write(o)
        ents = seqs.expose(ip, list(o.entries), k + 1 if k >= 0 else 0, -k if k < 0 else 0)
        if not -len(ents) <= k < len(ents) or isinstance(ents[k], Seg):
            ip.throw(IndexError, 'assignment index out of range')
        ents[k] = v
        ip.e.set_attr(o, 'entries', tuple(ents))
        return
    ip.throw(TypeError, 'does not support item assignment')


def delitem(ip, o, k):
    o = ip.mutable(ip.force(o))
    ip.note_write(o)
    if isinstance(o, SDict):
        ents = list(dict_view(ip, o))
        for i, ent in enumerate(ents):
            if isinstance(ent, Seg):
                raise Unsupported('del from symbolic dict')
            if ip.truth(py_eq(ip, ent[0], k)):
                del ents[i]
                ip.e.set_attr(o, 'entries', tuple(ents))
                return
        ip.throw(KeyError, k)
    if isinstance(o, (SSeq, SObj)) and o.entries is not None:
        k = index_int(ip, k)
        if not isinstance(k, int):
            raise Unsupported('symbolic index')
        ents = seqs.expose(ip, list(o.entries), k + 1 if k >= 0 else 0, -k if k < 0 else 0)
        if not -len(ents) <= k < len(ents):
            ip.throw(IndexError, 'index')
        del ents[k]
        ip.e.set_attr(o, 'entries', tuple(ents))
        return
    raise Unsupported('del item')


def reverse_entries(ip, ents):
    out = []
    for x in reversed(ents):
        if isinstance(x, Seg):
            root = mk('rev', 'Q', x.root)
            out.append(seqs.sub_root(ip, x, root, lambda k: mk('src', 'I', root, k)))
        else:
            out.append(x)
    return out


def binop(ip, op, a, b):
    e = ip.e
    a, b = ip.force(a), ip.force(b)
    if isinstance(op, ast.Mod) and (isinstance(a, str) or isinstance(a, T) and a.sort == 'S'):
        return percent_format(ip, a, b)
    name = {ast.Add: 'add', ast.Sub: 'sub', ast.Mult: 'mul', ast.Div: 'truediv', ast.Mod: 'mod', ast.BitAnd: 'and',
            ast.BitOr: 'or', ast.FloorDiv: 'floordiv', ast.BitXor: 'xor', ast.Pow: 'pow', ast.LShift: 'lshift',
            ast.RShift: 'rshift'}[type(op)]
    if isinstance(a, SObj) or isinstance(b, SObj):
        if isinstance(a, SObj):
            f = ip.class_lookup(a.cls, '__%s__' % name)
            if isinstance(f, types.FunctionType):
                r = ip.call(f, [a, b], {})
                if r is not NotImplemented:
                    return r
        if isinstance(b, SObj):
            f = ip.class_lookup(b.cls, '__r%s__' % name)
            if isinstance(f, types.FunctionType):
                return ip.call(f, [b, a], {})
        if isinstance(a, SObj) and a.entries is not None and name == 'add':
            return SSeq('list', tuple(a.entries) + tuple(entries_of(b)))
        ip.throw(TypeError, 'unsupported operand')
    a, b = ip.real_view(a), ip.real_view(b)
    sa, sb = scalar_sort(a), scalar_sort(b)
    if name == 'add':
        if sa == 'S' and sb == 'S':
            return t.cat(a, b)
        if sa == 'S' or sb == 'S':
            ip.throw(TypeError, 'can only concatenate str')
        if sa in ('I', 'B') and sb in ('I', 'B') and (isinstance(a, T) or isinstance(b, T)):
            return t.add(to_int(ip, a), to_int(ip, b))
        if isinstance(a, (SSeq, list, tuple)) and isinstance(b, (SSeq, list, tuple)):
            if kind_of(a) != kind_of(b) or kind_of(a) not in ('list', 'tuple'):
                ip.throw(TypeError, 'can only concatenate same kind')
            return SSeq(kind_of(a), tuple(entries_of(a)) + tuple(entries_of(b)))
    if name == 'sub' and sa in ('I', 'B') and sb in ('I', 'B') and (isinstance(a, T) or isinstance(b, T)):
        return t.add(to_int(ip, a), t.neg(to_int(ip, b)))
    if name == 'mul':
        for x, y in ((a, b), (b, a)):
            if isinstance(x, SSeq) and x.kind not in ('list', 'tuple'):
                ip.throw(TypeError, 'unsupported operand')
            if isinstance(x, int) and not isinstance(x, bool) and abs(x) < 10 and isinstance(y, T) and y.sort == 'I':
                return t.times(x, y)
            if isinstance(x, (SSeq, list, tuple)) and isinstance(y, int):
                return SSeq(kind_of(x), tuple(entries_of(x)) * y)
            if isinstance(x, (SSeq, list, tuple)) and isinstance(y, T):
                y2 = seqs.cmp_len(ip, y, 4)
                if isinstance(y2, int):
                    return SSeq(kind_of(x), tuple(entries_of(x)) * y2)
                raise Unsupported('symbolic repetition')
            if scalar_sort(x) == 'S' and isinstance(y, int) and isinstance(x, T):
                return t.cat(*([x] * y))
    if name == 'or' and isinstance(a, (SSeq, set, frozenset)) and isinstance(b, (SSeq, set, frozenset)):
        if not {kind_of(a), kind_of(b)} <= {'set', 'frozenset'}:
            raise Unsupported('| of %s and %s' % (kind_of(a), kind_of(b)))
        s = SSeq(kind_of(a), ())
        for x in list(entries_of(a)) + list(entries_of(b)):
            set_add(ip, s, x)
        return s
    if name == 'or' and isinstance(a, (SDict, dict)) and isinstance(b, (SDict, dict)):
        d = SDict('dict', dict_entries(ip, a))
        dict_update(ip, d, b)
        return d
    if name in ('and', 'or') and sa == 'B' and sb == 'B':
        return (t.and_ if name == 'and' else t.or_)(a, b)
    if not is_symbolic(a) and not is_symbolic(b) and not isinstance(a, SOpaque) and not isinstance(b, SOpaque):
        try:
            return from_native(getattr(operator, {'and': 'and_', 'or': 'or_'}.get(name, name))(a, b))
        except (TypeError, ZeroDivisionError, ValueError) as ex:
            ip.throw(type(ex), str(ex))
    ca, cb = deep_concrete(a), deep_concrete(b)
    if ca is not MISSING and cb is not MISSING and not isinstance(a, SOpaque) and not isinstance(b, SOpaque):
        try:
            return from_native(getattr(operator, {'and': 'and_', 'or': 'or_'}.get(name, name))(ca, cb))
        except (TypeError, ZeroDivisionError) as ex:
            ip.throw(type(ex), str(ex))
    if name == 'mod' and isinstance(a, T) and a.sort == 'I' and isinstance(b, int) and not isinstance(b, bool) and b > 0:
        terms = a.args if a.op == 'add' else (a,)
        if all(isinstance(x, int) or sum(1 for y in terms if y is x) % b == 0 for x in terms):
            return sum(x for x in terms if isinstance(x, int)) % b
    if sa in ('I', 'B') and sb in ('I', 'B'):
        return mk('call', 'I', name, to_int(ip, a), to_int(ip, b))
    if name in ('and', 'or', 'add', 'sub') and (sa is None or sb is None) and not isinstance(a, SOpaque) and not isinstance(b, SOpaque):
        ip.throw(TypeError, 'unsupported operand')
    raise Unsupported('operator %s' % name)


def to_int(ip, x):
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, T) and x.sort == 'B':
        return 1 if ip.e.branch(x) else 0
    return x


def new_object(ip, cls):
    o = SObj(cls)
    if issubclass(cls, list):
        o.entries = ()
    elif issubclass(cls, (dict, set, tuple, str, int)):
        raise Unsupported('subclass of built-in %s' % cls.__name__)
    return o


# ================================================================ method calls on built-ins
def call_method(ip, b, args, kwargs):
    e = ip.e
    o, name = b.self, b.name
    o = ip.res(o)
    o = ip.real_view(o)
    if isinstance(o, (SSuper,)):
        o = o.obj
    if isinstance(o, SObj):
        return obj_slot(ip, o, name, args, kwargs, b.owner)
    if isinstance(o, str) or isinstance(o, T) and o.sort == 'S':
        return str_method(ip, o, name, args, kwargs)
    if isinstance(o, (SSeq,)):
        return seq_method(ip, o, name, args, kwargs)
    if isinstance(o, SDict):
        return dict_method(ip, o, name, args, kwargs)
    if isinstance(o, T) and o.sort in ('I', 'B'):
        if name == '__str__' or name == '__repr__':
            return to_str(ip, o)
        if name == '__eq__':
            return py_eq(ip, o, args[0])
        raise Unsupported('int.%s' % name)
    if isinstance(o, SOpaque):
        return opaque_method(ip, o, name, args, kwargs)
    if isinstance(o, (dict, list, set)) and name in MUTATORS:
        return call_method(ip, SBuiltin(name, ip.mutable(o)), args, kwargs)
    if isinstance(o, dict):
        return dict_method_real(ip, o, name, args, kwargs)
    if isinstance(o, (SIter,)) and name == '__next__':
        return py_next(ip, [o], {})
    if isinstance(o, type) and name == '__new__':
        return new_object(ip, args[0])
    if isinstance(o, (SGen,)):
        raise Unsupported('generator method %s' % name)
    if name == '__init__' and (o is None or is_symbolic(o)):
        return None
    return call_native(ip, getattr(o, name), args, kwargs)


MUTATORS = {'append', 'extend', 'insert', 'pop', 'remove', 'clear', 'sort', 'reverse', 'update', 'setdefault', 'popitem',
            'add', 'discard', '__setitem__', '__delitem__', '__iadd__'}


def obj_slot(ip, o, name, args, kwargs, owner):
    """Slots inherited from object / list / exceptions."""
    if name == '__init__':
        if o.entries is not None and args:
            ip.note_write(o)
            ip.e.set_attr(o, 'entries', tuple(seqs.iter_entries(ip, args[0])))
        if issubclass(o.cls, BaseException):
            ip.e.set_item(o.attrs, 'args', SSeq('tuple', args))
        return None
    if name == '__eq__':
        if o.entries is not None and owner is list:
            return list_eq_slot(ip, o, args[0])
        return True if o is args[0] else NotImplemented
    if name == '__ne__':
        r = obj_eq(ip, o, args[0])
        if r is NotImplemented:
            return r
        return (not r) if isinstance(r, bool) else t.not_(r)
    if name == '__hash__':
        return mk('call', 'I', 'id', t.fresh('h', 'I'))
    if name in ('__str__', '__repr__'):
        if owner is object or owner is None:
            if name == '__str__' and isinstance(ip.class_lookup(o.cls, '__repr__'), types.FunctionType):
                return to_repr(ip, o)
            return mk('call', 'S', 'repr', t.fresh('x', 'I'))
        if owner is BaseException or issubclass(o.cls, BaseException):
            return to_str(ip, SSeq('tuple', ()))
        return mk('call', 'S', 'repr', t.fresh('x', 'I'))
    if name == '__format__':
        return to_str(ip, o)
    if name in ('__lt__', '__gt__', '__le__', '__ge__'):
        return NotImplemented
    if name == '__setattr__':
        ip.note_write(o)
        ip.e.set_item(o.attrs, args[0], args[1])
        return None
    if name == '__getattribute__':
        return ip.getattr(o, args[0])
    if name == '__new__':
        return new_object(ip, args[0])
    if name == '__init_subclass__':
        return None
    if name == '__bool__':
        return True
    if o.entries is not None:
        return seq_method(ip, o, name, args, kwargs)
    if name == '__reduce_ex__' or name == '__reduce__':
        raise Unsupported('pickling')
    if name == 'with_traceback':
        return o
    raise Unsupported('slot %s of %s' % (name, o.cls.__name__))


def seq_method(ip, o, name, args, kwargs):
    e = ip.e
    if name in MUTATORS:
        ip.note_write(o)
        if isinstance(o, SSeq) and o.kind in ('tuple', 'frozenset', 'range', 'gen'):
            ip.throw(AttributeError, name)
    if name == 'append':
        e.set_attr(o, 'entries', tuple(o.entries) + (args[0],))
        return None
    if name == 'extend':
        e.set_attr(o, 'entries', tuple(o.entries) + tuple(seqs.iter_entries(ip, args[0])))
        return None
    if name == '__iadd__':
        e.set_attr(o, 'entries', tuple(o.entries) + tuple(seqs.iter_entries(ip, args[0])))
        return o
    if name == '__add__':
        return binop(ip, ast.Add(), SSeq('list', o.entries), args[0])
    if name == 'add':
        set_add(ip, o, args[0])
        return None
    if name == 'update':
        for a in args:
            for x in seqs.iter_entries(ip, a, False):
                set_add(ip, o, x)
        return None
    if name == 'union':
        s = SSeq('set', o.entries)
        for a in args:
            for x in seqs.iter_entries(ip, a, False):
                set_add(ip, s, x)
        return s
    if name in ('__contains__',):
        return search(ip, o, args[0])
    if name == '__len__':
        return set_size(ip, o)
    if name == '__iter__':
        return SSeq('iter', seqs.iter_entries(ip, o))
    if name == '__getitem__':
        return getitem(ip, o, args[0])
    if name == '__setitem__':
        return setitem(ip, o, args[0], args[1])
    if name == '__eq__':
        return py_eq(ip, o, args[0])
    if name == '__ne__':
        r = py_eq(ip, o, args[0])
        return (not r) if isinstance(r, bool) else t.not_(r)
    if name == 'copy':
        return SSeq(o.kind if isinstance(o, SSeq) else 'list', o.entries)
    if name == 'clear':
        e.set_attr(o, 'entries', ())
        return None
    if name == 'insert':
        i = index_int(ip, args[0])
        ents = list(seqs.norm(ip, o.entries))
        if i == 0:
            e.set_attr(o, 'entries', (args[1],) + tuple(ents))
            return None
        if isinstance(i, int) and not any(isinstance(x, Seg) for x in ents):
            ents.insert(i, args[1])
            e.set_attr(o, 'entries', tuple(ents))
            return None
        raise Unsupported('insert into symbolic list')
    if name == 'pop':
        i = index_int(ip, args[0]) if args else -1
        if isinstance(o, SSeq) and o.kind == 'set':
            raise Unsupported('set.pop')
        ents = seqs.expose(ip, list(o.entries), i + 1 if i >= 0 else 0, -i if i < 0 else 0)
        if not -len(ents) <= i < len(ents) or isinstance(ents[i], Seg):
            ip.throw(IndexError, 'pop from empty list')
        x = ents.pop(i)
        e.set_attr(o, 'entries', tuple(ents))
        return x
    if name == 'reverse':
        e.set_attr(o, 'entries', tuple(reverse_entries(ip, seqs.norm(ip, o.entries))))
        return None
    if name == 'sort':
        r = py_sorted(ip, [SSeq('list', o.entries)], kwargs)
        e.set_attr(o, 'entries', r.entries)
        return None
    if name == 'index':
        ents = seqs.norm(ip, o.entries)
        if any(isinstance(x, Seg) for x in ents):
            raise Unsupported('index in symbolic list')
        for i, x in enumerate(ents):
            if x is args[0] or ip.truth(py_eq(ip, x, args[0])):
                return i
        ip.throw(ValueError, 'not in list')
    if name == 'count':
        ents = seqs.norm(ip, o.entries)
        if any(isinstance(x, Seg) for x in ents):
            raise Unsupported('count in symbolic list')
        return sum(1 for x in ents if ip.truth(py_eq(ip, x, args[0])))
    if name in ('remove', 'discard'):
        ents = list(seqs.norm(ip, o.entries))
        for i, x in enumerate(ents):
            if isinstance(x, Seg):
                raise Unsupported('remove from symbolic list')
            if x is args[0] or ip.truth(py_eq(ip, x, args[0])):
                del ents[i]
                e.set_attr(o, 'entries', tuple(ents))
                return None
        if name == 'discard':
            return None
        ip.throw(ValueError if name == 'remove' else KeyError, 'not in list')
    if name in ('__str__', '__repr__', '__format__'):
        return to_str(ip, o)
    if name == '__next__':
        return py_next(ip, [o], {})
    if name == '__hash__':
        if isinstance(o, SSeq) and o.kind in ('list', 'set'):
            ip.throw(TypeError, 'unhashable')
        return mk('call', 'I', 'id', t.fresh('h', 'I'))
    if name == '__bool__':
        return ip.truth(o)
    if name in ('close', 'send', 'throw'):
        raise Unsupported('generator method')
    if name == 'isdisjoint' or name == 'difference' or name == 'intersection' or name == 'issubset':
        raise Unsupported('set.%s' % name)
    if name == '__reversed__':
        return SSeq('iter', reverse_entries(ip, seqs.norm(ip, o.entries)))
    raise Unsupported('%s.%s' % (o.kind if isinstance(o, SSeq) else 'list', name))


def items_view(ip, ents):
    out = []
    for x in ents:
        if isinstance(x, Seg):
            out.append(seqs.map_paths(x, lambda v: SSeq('tuple', v) if isinstance(v, tuple) else v))
        else:
            out.append(SSeq('tuple', x))
    return SSeq('view', out)


def dict_method(ip, o, name, args, kwargs):
    e = ip.e
    if name == 'items':
        return items_view(ip, dict_view(ip, o))
    if name == 'keys':
        return SSeq('view', seqs.keys_of(ip, dict_view(ip, o)))
    if name == 'values':
        out = []
        for x in dict_view(ip, o):
            if isinstance(x, Seg):
                out.append(seqs.map_paths(x, lambda v: v[1] if isinstance(v, tuple) else v.entries[1]))
            else:
                out.append(x[1])
        return SSeq('view', out)
    if name == 'get':
        ent = dict_find(ip, o, args[0])
        if ent is MISSING:
            return args[1] if len(args) > 1 else kwargs.get('default') if isinstance(kwargs, dict) else None
        return ent[1]
    if name == '__getitem__':
        return getitem(ip, o, args[0])
    if name == '__contains__':
        return dict_find(ip, o, args[0]) is not MISSING
    if name == '__len__':
        return seqs.length(ip, dict_view(ip, o))
    if name == '__iter__':
        return SSeq('iter', seqs.keys_of(ip, dict_view(ip, o)))
    if name == '__setitem__':
        return dict_set(ip, o, args[0], args[1])
    if name == '__delitem__':
        return delitem(ip, o, args[0])
    if name == 'update':
        ip.note_write(o)
        for a in args:
            dict_update(ip, o, a)
        for ent in (kwargs.items() if isinstance(kwargs, dict) else kwargs):
            dict_add_entry(ip, o, ent)
        return None
    if name == 'copy':
        return SDict(o.kind, o.entries)
    if name == 'setdefault':
        ent = dict_find(ip, o, args[0])
        if ent is not MISSING:
            return ent[1]
        d = args[1] if len(args) > 1 else None
        dict_set(ip, o, args[0], d)
        return d
    if name == 'pop':
        ent = dict_find(ip, o, args[0])
        if ent is MISSING:
            if len(args) > 1:
                return args[1]
            ip.throw(KeyError, args[0])
        delitem(ip, o, args[0])
        return ent[1]
    if name == 'popitem':
        ip.note_write(o)
        ents = seqs.expose(ip, list(dict_view(ip, o)), 0, 1)
        if not ents:
            ip.throw(KeyError, 'dictionary is empty')
        x = ents.pop()
        e.set_attr(o, 'entries', tuple(ents))
        return SSeq('tuple', x)
    if name == 'clear':
        ip.note_write(o)
        e.set_attr(o, 'entries', ())
        return None
    if name in ('__eq__',):
        return py_eq(ip, o, args[0])
    if name in ('__str__', '__repr__', '__format__'):
        return to_str(ip, o)
    if name == '__ne__':
        r = py_eq(ip, o, args[0])
        return (not r) if isinstance(r, bool) else t.not_(r)
    raise Unsupported('dict.%s' % name)


def dict_method_real(ip, o, name, args, kwargs):
    """Read-only method on a real dict with possibly symbolic arguments."""
    if name in ('get', '__getitem__', '__contains__'):
        return dict_method(ip, SDict('dict', list(o.items())), name, args, kwargs) if any(is_symbolic(ip.res(a)) for a in args[:1]) \
            else (getattr(o, name)(*[ip.res(a) for a in args]) if name != '__getitem__' else getitem(ip, o, args[0]))
    if name == 'items':
        return SSeq('view', [SSeq('tuple', kv) for kv in o.items()])
    if name in ('keys', 'values'):
        return SSeq('view', list(getattr(o, name)()))
    if name == 'copy':
        return SDict('OrderedDict' if isinstance(o, OrderedDict) else 'dict', list(o.items()))
    if name == '__iter__':
        return SSeq('iter', list(o))
    if name == '__len__':
        return len(o)
    if name in ('__eq__', '__ne__'):
        r = py_eq(ip, o, args[0])
        if name == '__eq__':
            return r
        return (not r) if isinstance(r, bool) else t.not_(r)
    raise Unsupported('dict.%s' % name)


def opaque_method(ip, o, name, args, kwargs):
    if name == 'isoformat' and not args:
        return mk('iso', 'S', o.term)
    if name in ('__str__', '__format__'):
        if name == '__format__' and args and args[0]:
            return format_value(ip, o, args[0])
        return to_str(ip, o)
    if name == '__eq__':
        return py_eq(ip, o, args[0])
    if name == 'hex' and o.cls is bytes:
        return mk('hex', 'S', o.term)
    if name == 'decode' and o.term.op == 'in' and 'hexlify' in o.term.args:
        return mk('hex', 'S', o.term.args[2])
    if o.cls in (datetime.date, datetime.datetime) and name in ('strftime', 'date', 'time'):
        return mk('call', 'S', name, o.term, *[a for a in args if isinstance(a, str)])
    raise Unsupported('%s.%s' % (o.cls.__name__, name))


# ================================================================ functions
def mutable_inside(x):
    """Does a container hold mutable containers?  (lifting would lose their identity)"""
    if type(x) in (list, tuple, set, frozenset):
        return any(isinstance(y, (list, dict, set)) or mutable_inside(y) for y in x)
    if type(x) is dict:
        return any(isinstance(y, (list, dict, set)) or mutable_inside(y) for y in x.values())
    return False


def call_native(ip, f, args, kwargs):
    """Native call, only with concrete arguments."""
    args = [ip.res(a) for a in args]
    cargs = []
    for a in args:
        if isinstance(a, Seg):
            raise Unsupported('native call %s with unbounded arguments' % getattr(f, '__name__', f))
        c = deep_concrete(a)
        if c is MISSING:
            raise Unsupported('native call %s with symbolic argument' % getattr(f, '__qualname__', f))
        cargs.append(c)
    ck = {}
    for k, v in (kwargs.items() if isinstance(kwargs, dict) else kwargs):
        c = deep_concrete(ip.res(v))
        if c is MISSING:
            raise Unsupported('native call %s with symbolic argument' % getattr(f, '__qualname__', f))
        ck[k] = c
    before = repr((cargs, ck)) if any(isinstance(x, (list, dict, set)) for x in list(cargs) + list(ck.values())) else None
    try:
        r = f(*cargs, **ck)
        if before is not None and (repr((cargs, ck)) != before or mutable_inside(r)):
            raise Unsupported('native call %s shares or changes its arguments' % getattr(f, '__qualname__', f))
        return from_native(r)
    except (TypeError, ValueError, KeyError, IndexError, AttributeError, LookupError, ArithmeticError) as ex:
        ip.throw(type(ex), *ex.args)


FUNCS = {}
CLASSES = {}


def model(*fs):
    def deco(h):
        for f in fs:
            (CLASSES if isinstance(f, type) else FUNCS)[f] = h
        return h
    return deco


def set_size(ip, o):
    """Number of elements of a list, tuple, set."""
    if isinstance(o, SSeq) and o.kind in ('set', 'frozenset') and not seqs.pristine(o) and \
            not seqs.distinct_entries(ip, seqs.norm(ip, o.entries)):
        raise Unsupported('size of a symbolic set')
    return seqs.length(ip, o.entries)


@model(len)
def py_len(ip, args, kwargs):
    o = ip.real_view(ip.force(args[0]))
    if isinstance(o, T):
        if o.sort == 'S':
            return t.strlen(o)
        ip.throw(TypeError, 'object has no len()')
    if isinstance(o, SObj):
        f = ip.class_lookup(o.cls, '__len__')
        if isinstance(f, types.FunctionType):
            return ip.call(f, [o], {})
        if o.entries is None:
            ip.throw(TypeError, 'object has no len()')
        return seqs.length(ip, o.entries)
    if isinstance(o, SSeq):
        if o.kind in ('gen', 'iter'):
            ip.throw(TypeError, 'object has no len()')
        return set_size(ip, o)
    if isinstance(o, SDict):
        return seqs.length(ip, dict_view(ip, o))
    if isinstance(o, SOpaque):
        if o.cls is bytes:
            return mk('call', 'I', 'len', o.term)
        ip.throw(TypeError, 'object has no len()')
    if is_symbolic(o):
        ip.throw(TypeError, 'object has no len()')
    try:
        return len(o)
    except TypeError as ex:
        ip.throw(TypeError, str(ex))


def flatten_types(ip, ts):
    ts = ip.real_view(ts)
    if isinstance(ts, SSeq):
        out = ()
        for x in ts.entries:
            out += flatten_types(ip, x)
        return out
    if isinstance(ts, tuple):
        out = ()
        for x in ts:
            out += flatten_types(ip, x)
        return out
    if isinstance(ts, types.UnionType):
        return tuple(ts.__args__)
    if isinstance(ts, type):
        return (ts,)
    if ts is None or not isinstance(ts, type):
        ip.throw(TypeError, 'isinstance() arg 2 must be a type or tuple of types')
    return (ts,)


@model(isinstance)
def py_isinstance(ip, args, kwargs):
    o, ts = args
    ts = flatten_types(ip, ts)
    o = ip.res(o)
    if isinstance(o, T) and o.sort == 'V':
        tags = frozenset(x for x in ip.e.dom(o) if issubclass(tag_class(x), ts))
        return ip.e.test_tag(o, tags) if tags else False
    c = ip.type_of(o)
    if is_symbolic(o) or isinstance(o, SOpaque):
        return issubclass(c, ts)
    return isinstance(o, ts)


@model(issubclass)
def py_issubclass(ip, args, kwargs):
    c = ip.force_type(args[0])
    if not isinstance(c, type):
        ip.throw(TypeError, 'issubclass() arg 1 must be a class')
    return issubclass(c, flatten_types(ip, args[1]))


@model(hasattr)
def py_hasattr(ip, args, kwargs):
    return ip.hasattr(args[0], args[1])


@model(getattr)
def py_getattr(ip, args, kwargs):
    name = ip.force(args[1])
    if not isinstance(name, str):
        raise Unsupported('getattr with symbolic name')
    if len(args) > 2:
        try:
            return ip.getattr(args[0], name)
        except PyRaise as ex:
            if issubclass(ex.exc.cls, AttributeError):
                return args[2]
            raise
    return ip.getattr(args[0], name)


@model(setattr)
def py_setattr(ip, args, kwargs):
    name = ip.force(args[1])
    if not isinstance(name, str):
        raise Unsupported('setattr with symbolic name')
    ip.setattr(args[0], name, args[2])


@model(delattr)
def py_delattr(ip, args, kwargs):
    ip.delattr(args[0], args[1])


@model(vars)
def py_vars(ip, args, kwargs):
    return ip.getattr(args[0], '__dict__')


@model(callable)
def py_callable(ip, args, kwargs):
    o = ip.force(args[0])
    if isinstance(o, (SFunc, SBound, SBuiltin)):
        return True
    if isinstance(o, SObj):
        return ip.class_lookup(o.cls, '__call__') is not None
    if is_symbolic(o) or isinstance(o, SOpaque):
        return False
    return callable(o)


@model(type)
def py_type(ip, args, kwargs):
    if len(args) != 1:
        raise Unsupported('dynamic class creation')
    return ip.type_of(args[0])


@model(str)
def py_str(ip, args, kwargs):
    if not args:
        return ''
    if len(args) > 1:
        return call_native(ip, str, args, kwargs)
    return to_str(ip, args[0])


@model(repr)
def py_repr(ip, args, kwargs):
    return to_repr(ip, args[0])


@model(format)
def py_format(ip, args, kwargs):
    return format_value(ip, args[0], args[1] if len(args) > 1 else '')


@model(bool)
def py_bool(ip, args, kwargs):
    if not args:
        return False
    v = ip.res(args[0])
    if isinstance(v, T) and v.sort == 'B':
        return v
    if isinstance(v, SMatch):
        return v.cond
    return ip.truth(v)


@model(int)
def py_int(ip, args, kwargs):
    if not args:
        return 0
    v = ip.force(args[0])
    if isinstance(v, T):
        if v.sort == 'I':
            return v
        if v.sort == 'B':
            return 1 if ip.e.branch(v) else 0
        if v.sort == 'S':
            if ip.e.branch(mk('call', 'B', 'isint', v)):
                return mk('call', 'I', 'int', v)
            ip.throw(ValueError, 'invalid literal for int()')
    if isinstance(v, SOpaque):
        if v.cls in (float, decimal.Decimal):
            return mk('call', 'I', 'int', v.term)
        ip.throw(TypeError, 'int() argument')
    if isinstance(v, SObj):
        f = ip.class_lookup(v.cls, '__int__')
        if f is None:
            ip.throw(TypeError, 'int() argument must be a string or a number')
        return ip.call(ip.bind(f, v, v.cls), [], {})
    if is_symbolic(v):
        ip.throw(TypeError, 'int() argument must be a string or a number')
    try:
        return int(v, *args[1:])
    except (TypeError, ValueError) as ex:
        ip.throw(type(ex), str(ex))


@model(float)
def py_float(ip, args, kwargs):
    v = ip.force(args[0]) if args else 0.0
    if isinstance(v, SOpaque) and v.cls is float:
        return v
    if not is_symbolic(v) and not isinstance(v, SOpaque):
        return call_native(ip, float, [v], {})
    DOMAINS.setdefault('C:float', frozenset(('float',)))
    if isinstance(v, (SOpaque, T)):
        return SOpaque(float, mk('in', 'V', 'C:float', 'float', encode(ip, v)))
    ip.throw(TypeError, 'float() argument')


@model(list)
def py_list(ip, args, kwargs):
    return SSeq('list', seqs.iter_entries(ip, args[0]) if args else ())


@model(tuple)
def py_tuple(ip, args, kwargs):
    return SSeq('tuple', seqs.iter_entries(ip, args[0]) if args else ())


@model(frozenset)
def py_frozenset(ip, args, kwargs):
    return py_set(ip, args, kwargs, 'frozenset')


@model(set)
def py_set(ip, args, kwargs, kind='set'):
    s = SSeq(kind, ())
    if args:
        for x in seqs.iter_entries(ip, args[0], False):
            set_add(ip, s, x)
    return s


@model(dict)
def py_dict(ip, args, kwargs, kind='dict'):
    d = SDict(kind, ())
    for a in args:
        dict_update(ip, d, a)
    for ent in (kwargs.items() if isinstance(kwargs, dict) else kwargs):
        dict_add_entry(ip, d, ent)
    return d


@model(OrderedDict)
def py_odict(ip, args, kwargs):
    return py_dict(ip, args, kwargs, 'OrderedDict')


@model(any, all)
def py_any(ip, args, kwargs):
    raise Unsupported('any')


def _quant(isany):
    from .interp import BreakEx

    def h(ip, args, kwargs):
        it = args[0]

        def body(x):
            tv = ip.truth(x)
            if tv == isany:
                raise BreakEx()
        if isinstance(it, SGen):
            hit = lazy_quant(ip, it, isany)
        else:
            hit = seqs.run_loop(ip, it, body, None, None, ordered=False)
        return hit if isany else not hit
    return h


def lazy_quant(ip, g, isany):
    """any/all over a generator expression, evaluated lazily."""
    from .interp import BreakEx, Frame
    n = g.node
    if g.done:
        return False
    ip.e.set_attr(g, 'done', True)

    class Hit(BaseException):
        pass

    def gen(k, fr2, it):
        c = n.generators[k]

        def body(x):
            f3 = Frame(fr2.globs, parent=fr2, klass=fr2.klass)
            f3.first = fr2.first
            ip.assign(c.target, x, f3)
            for cond in c.ifs:
                if not ip.truth(ip.eval(cond, f3)):
                    return
            if k + 1 < len(n.generators):
                if gen(k + 1, f3, ip.eval(n.generators[k + 1].iter, f3)):
                    raise BreakEx()
                return
            if ip.truth(ip.eval(n.elt, f3)) == isany:
                raise BreakEx()
        return seqs.run_loop(ip, it, body, fr2, n)
    return gen(0, g.frame, g.first)


FUNCS[any] = lambda ip, a, k: _quant(True)(ip, a, k)
FUNCS[all] = lambda ip, a, k: _quant(False)(ip, a, k)


@model(sorted)
def py_sorted(ip, args, kwargs):
    kw = kwargs if isinstance(kwargs, dict) else dict(kwargs)
    key, rev = kw.get('key'), kw.get('reverse', False)
    ents = seqs.iter_entries(ip, args[0], ordered=key is not None)
    if key is None and not rev:
        if any(isinstance(x, Seg) for x in ents):
            if len(ents) == 1 and not any(isinstance(v, Seg) for _, v in ents[0].paths):
                seg = ents[0]
                isset = isinstance(ip.res(args[0]), SSeq) and ip.res(args[0]).kind in ('set', 'frozenset')
                r = sorted_by_key(ip, seg)
                if r is not None:
                    return SSeq('list', [r])
                tm = sort_template(ip, seg)
                root = mk('uniq' if isset else 'sorted', 'Q', seg.root, *([tm] if tm is not None else []))
                s = seqs.sub_root(ip, drop_skips(seg), root, lambda k: mk('src', 'I', root, k))
                return SSeq('list', [s])
            return SSeq('list', sorted_together(ip, ents, isinstance(ip.res(args[0]), SSeq) and ip.res(args[0]).kind in ('set', 'frozenset')))
        return SSeq('list', insertion_sort(ip, ents))
    rv = ip.truth(rev)
    if any(isinstance(x, Seg) for x in ents):
        if rv or len(ents) != 1 or len(ents[0].paths) != 1 or ents[0].paths[0][0] is not True:
            raise Unsupported('sorting symbolic sequences with a key')
        seg = ents[0]
        kent = seqs.map_entries(ip, ents, lambda x: ip.call(key, [x], {}))
        if len(kent) != 1 or not isinstance(kent[0], Seg) or kent[0].root is not seg.root or len(kent[0].paths) != 1 or kent[0].paths[0][0] is not True:
            raise Unsupported('sorting symbolic sequences with a key')
        kv = kent[0].paths[0][1]
        if isinstance(kv, T) and kv is seqs.key_at(seg.root, kent[0].bv):
            args_ = BY_KEY
            if seg.root.op == 'sorted' and seg.root.args[1:] == BY_KEY:
                return SSeq('list', [seg])
        else:
            args_ = (sort_template(ip, kent[0]),)
        root = mk('sorted', 'Q', seg.root, *args_)
        return SSeq('list', [seqs.sub_root(ip, seg, root, lambda i: mk('src', 'I', root, i))])
    keyed = [(ip.call(key, [x], {}) if key is not None else x, x) for x in ents]
    out = []
    for k, x in (reversed(keyed) if rv else keyed):
        i = len(out)
        while i > 0 and ip.truth(compare(ip, ast.Lt(), k, out[i - 1][0])):
            i -= 1
        out.insert(i, (k, x))
    if rv:
        out.reverse()
    return SSeq('list', [x for _, x in out])


def unsorted(ip, seg):
    """The same elements in the order they had before sorting (for uses where the order does not matter)."""
    while isinstance(seg.root, T) and seg.root.op == 'sorted' and seg.root.args[1:] == BY_KEY and seg.root not in ip.e.unfolded:
        root, bv = seg.root, t.fresh('i', 'I')
        m = {mk('src', 'I', root, seg.bv): bv}
        mark = seqs.seg_mark(seg)
        paths = [(t.subst(g, m) if isinstance(g, T) else g, v if v is SKIP else seqs.instantiate(ip, v, m, mark)) for g, v in seg.paths]
        if any(mentions(x, seg.bv, mark) for p in paths for x in p):
            return seg
        seqs._seg_marks[bv] = mark
        seg = Seg(root.args[0], bv, paths)
    return seg


def mentions(v, var, mark, seen=None):
    """Does a value depend on a variable?  (True if in doubt.)"""
    seen = set() if seen is None else seen
    if isinstance(v, T):
        return var in t.free_vars(v)
    if v is None or isinstance(v, (str, int, float, bytes, type)) or v is SKIP or callable(v):
        return False
    if id(v) in seen:
        return False
    if isinstance(v, tuple):
        return any(mentions(x, var, mark, seen) for x in v)
    if isinstance(v, (SSeq, SDict, SObj)):
        seen.add(id(v))
        if v.term is not None:
            return var in t.free_vars(v.term)
        if v.stamp <= mark:
            return False
        return any(mentions(x, var, mark, seen) for x in (v.entries or ())) or \
            isinstance(v, SObj) and any(mentions(x, var, mark, seen) for x in v.attrs.values())
    if isinstance(v, Seg):
        return mentions(v.root, var, mark, seen) or any(mentions(x, var, mark, seen) for p in v.paths for x in p)
    return True


def sorted_together(ip, ents, isset):
    """Strings of several segments sorted: a sequence that is a function of them, as long as all of them together
    (of a set: not longer, and empty only if they are)."""
    pieces = []
    nested = []
    for x in ents:
        if isinstance(x, Seg):
            x = unsorted(ip, x)
            if any(isinstance(v, Seg) for _, v in x.paths):
                nested.append(x)
            pieces += [x.root, string_template(ip, x)]
        elif isinstance(x, str) or isinstance(x, T) and x.sort == 'S':
            pieces.append(x)
        else:
            raise Unsupported('sorting mixed symbolic sequences')
    root = mk('uniqcat' if isset else 'sortcat', 'Q', *pieces)
    n = mk('len', 'I', root)
    if nested:
        if any(something(ip, x) for x in ents):
            ip.e.add_fact(t.le(1, n))
        else:
            return []
    else:
        total = seqs.length(ip, ents)
        if isset:
            ip.e.add_fact_soft(t.le(n, total))
            ip.e.add_fact_soft(t.or_(t.not_(t.eq(n, 0)), t.eq(total, 0)))
        else:
            ip.e.add_fact_soft(t.eq(n, total))
    return [seqs.base_seg(root, lambda i: t.sval(mk('it', 'V', 'STR', root, i)))]


def string_template(ip, seg):
    """The strings of a segment, or of segments in it, as a closed term."""
    prs = []
    for g, v in seg.paths:
        if v is SKIP:
            prs.append((g, None))
        elif isinstance(v, Seg):
            v = unsorted(ip, v)
            prs.append((g, mk('nest', 'V', v.root, string_template(ip, v))))
        elif isinstance(v, str) or isinstance(v, T) and v.sort == 'S':
            prs.append((g, encode(ip, v)))
        else:
            raise Unsupported('sorting mixed symbolic sequences')
    return seqs.tmpl(seg.bv, prs)


def something(ip, x):
    """Branch: does an entry stand for at least one element?"""
    e = ip.e
    if not isinstance(x, Seg):
        return True
    if not any(isinstance(v, Seg) for _, v in x.paths):
        return not seqs.seg_empty(ip, x)
    prs = []
    for g, v in x.paths:
        if isinstance(v, Seg):
            if not v.one_to_one or any(isinstance(w, Seg) for _, w in v.paths):
                raise Unsupported('sorting nested sequences')
            prs += [(t.and_(g, t.eq(seqs.rlen(ip, v.root), 0)), False), (t.and_(g, t.not_(t.eq(seqs.rlen(ip, v.root), 0))), True)]
        else:
            prs.append((g, v is not SKIP))
    return e.branch(mk('ex', 'B', x.root, seqs.tmpl(x.bv, prs)))


def drop_skips(seg):
    ps = [(g, v) for g, v in seg.paths if v is not SKIP]
    s = Seg(seg.root, seg.bv, ps)
    return s


def sorted_by_key(ip, seg):
    """Elements of a dictionary (pairwise different keys) sorted by key."""
    seg = drop_skips(seg)
    if len(seg.paths) != 1 or seg.paths[0][0] is not True or not seg.one_to_one:
        return None
    v = seg.paths[0][1]
    k = seqs.key_at(seg.root, seg.bv)
    if k is None:
        return None
    if isinstance(v, (SSeq, tuple)):
        ents = v.entries if isinstance(v, SSeq) else v
        if not ents or isinstance(v, SSeq) and v.kind != 'tuple':
            return None
        v = ents[0]
    if v is not k:
        return None
    if seg.root.op == 'sorted' and len(seg.root.args) == 1 + len(BY_KEY) and seg.root.args[1:] == BY_KEY:
        return seg
    root = mk('sorted', 'Q', seg.root, *BY_KEY)
    return seqs.sub_root(ip, seg, root, lambda i: mk('src', 'I', root, i))


BY_KEY = ('by key',)


def sort_template(ip, seg):
    """Identity of what is sorted: None for the plain elements, else a template of the values."""
    prs = []
    for g, v in seg.paths:
        if v is SKIP:
            prs.append((g, None))
            continue
        try:
            prs.append((g, sort_key_term(ip, v)))
        except Unsupported:
            raise
    tm = seqs.tmpl(seg.bv, prs)
    return tm


def sort_key_term(ip, v):
    if isinstance(v, SSeq):
        return mk('tup', 'V', *[sort_key_term(ip, x) for x in v.entries])
    if isinstance(v, SObj) and v.term is None:
        raise Unsupported('sorting objects')
    return encode(ip, v)


def insertion_sort(ip, ents):
    out = []
    for x in ents:
        i = len(out)
        while i > 0 and ip.truth(compare(ip, ast.Lt(), x, out[i - 1])):
            i -= 1
        out.insert(i, x)
    return out


@model(reversed)
def py_reversed(ip, args, kwargs):
    return SSeq('iter', reverse_entries(ip, seqs.iter_entries(ip, args[0])))


@model(enumerate)
def py_enumerate(ip, args, kwargs):
    ents = seqs.iter_entries(ip, args[0])
    start = args[1] if len(args) > 1 else (kwargs.get('start', 0) if isinstance(kwargs, dict) else 0)
    out = []
    pos = start
    for x in ents:
        if isinstance(x, Seg):
            if not x.one_to_one:
                raise Unsupported('enumerate of filtered sequence')
            base = pos
            out.append(Seg(x.root, x.bv, [(g, SSeq('tuple', (t.add(base, x.bv), v))) for g, v in x.paths]))
            pos = t.add(pos, seqs.rlen(ip, x.root))
        else:
            out.append(SSeq('tuple', (pos, x)))
            pos = t.add(pos, 1)
    return SSeq('iter', out)


def same_length(ip, a, b):
    """The roots are known to have the same length here."""
    x, y = seqs.rlen(ip, a), seqs.rlen(ip, b)
    c = t.eq(x, y)
    return c is True or c is not False and ip.e.valid(c)


@model(zip)
def py_zip(ip, args, kwargs):
    lists = [seqs.iter_entries(ip, a) for a in args]
    out = []
    if not lists:
        return SSeq('iter', ())
    while True:
        if any(not l for l in lists):
            break
        heads = [l[0] for l in lists]
        if all(not isinstance(h, Seg) for h in heads):
            out.append(SSeq('tuple', heads))
            lists = [l[1:] for l in lists]
            continue
        if all(isinstance(h, Seg) for h in heads):
            r0 = heads[0]
            same = all(h.one_to_one and len(h.paths) == 1 and
                       (h.root is r0.root or (pair_roots(h.root) is pair_roots(r0.root)) or same_length(ip, h.root, r0.root)) for h in heads)
            if same and all(len(l) == 1 for l in lists):
                bv = t.fresh('i', 'I')
                seqs._seg_marks[bv] = max(seqs.seg_mark(h) for h in heads)
                vals = [seqs.instantiate(ip, h.paths[0][1], {h.bv: bv}, seqs.seg_mark(h)) for h in heads]
                root = r0.root if all(h.root is r0.root for h in heads) else min((h.root for h in heads), key=repr)
                out.append(Seg(root, bv, [(True, SSeq('tuple', vals))]))
                break
        lists = [seqs.unfold(ip, l) if isinstance(l[0], Seg) else l for l in lists]
        if len(out) > 6:
            raise Unsupported('zip of unrelated symbolic sequences')
    return SSeq('iter', out)


def pair_roots(r):
    return r


LAZY = {}


def lazy(ip, text, **names):
    """Generator expression over the given names: the iterator of map() and filter()."""
    from .interp import Frame
    node = LAZY.get(text)
    if node is None:
        node = LAZY[text] = ast.parse(text, mode='eval').body
    fr = Frame({})
    for k, v in names.items():
        ip.e.set_item(fr.env, k, v)
    return SGen(node, fr, names['it'])


@model(map)
def py_map(ip, args, kwargs):
    if len(args) != 2:
        raise Unsupported('map with several iterables')
    return lazy(ip, '(f(x) for x in it)', f=args[0], it=args[1])


@model(filter)
def py_filter(ip, args, kwargs):
    if args[0] is None:
        return lazy(ip, '(x for x in it if x)', it=args[1])
    return lazy(ip, '(x for x in it if f(x))', f=args[0], it=args[1])


@model(iter)
def py_iter(ip, args, kwargs):
    o = ip.force(args[0])
    if isinstance(o, SSeq) and o.kind in ('gen', 'iter'):
        return o
    return SSeq('iter', seqs.iter_entries(ip, o))


@model(next)
def py_next(ip, args, kwargs):
    it = ip.force(args[0])
    if isinstance(it, SGen):
        return next_gen(ip, it, args)
    if not (isinstance(it, SSeq) and it.kind in ('gen', 'iter')):
        ip.throw(TypeError, 'not an iterator')
    ents = seqs.unfold(ip, list(it.entries))
    if not ents:
        if len(args) > 1:
            return args[1]
        ip.throw(StopIteration)
    ip.note_write(it)
    ip.e.set_attr(it, 'entries', tuple(ents[1:]))
    return ents[0]


def next_gen(ip, g, args):
    """next(genexp[, default]): first produced element."""
    from .interp import BreakEx, Frame
    n = g.node
    res = []
    if len(n.generators) != 1:
        raise Unsupported('next() of nested generator')
    c = n.generators[0]
    fr2 = g.frame

    def body(x):
        f3 = Frame(fr2.globs, parent=fr2, klass=fr2.klass)
        f3.first = fr2.first
        ip.assign(c.target, x, f3)
        for cond in c.ifs:
            if not ip.truth(ip.eval(cond, f3)):
                return
        res[:] = [ip.eval(n.elt, f3)]
        raise BreakEx()
    if seqs.run_loop(ip, g.first, body, fr2, n):
        return res[0]
    if len(args) > 1:
        return args[1]
    ip.throw(StopIteration)


def range_of_len(ip, args):
    """range([start,] n) with n the length of sequences of unknown length: one index per element."""
    if len(args) not in (1, 2) or not isinstance(args[-1], T) or len(args) == 2 and not (isinstance(args[0], int) and args[0] >= 0):
        return None
    n = seqs.norm_len(ip, args[-1])
    if not isinstance(n, T):
        return None
    parts = n.args if n.op == 'add' else (n,)
    lens = [a for a in parts if isinstance(a, T)]
    pos = sum(a for a in parts if isinstance(a, int))
    first = args[0] if len(args) == 2 else 0
    if any(a.op != 'len' or len(a.args) != 1 for a in lens) or not first <= pos <= 50:
        return None
    out = list(range(first, pos))
    for a in lens:
        base = pos
        out.append(seqs.base_seg(a.args[0], lambda i, base=base: t.add(base, i)))
        pos = t.add(pos, a)
    return SSeq('iter', out)


def item_at(ip, ents, k):
    """Element at a symbolic index known to lie within one segment (or to be one concrete position)."""
    pos = 0
    for x in seqs.norm(ip, ents):
        if isinstance(x, Seg):
            if not x.one_to_one:
                break
            n = seqs.rlen(ip, x.root)
            i = t.add(k, t.neg(pos))
            known = list(ip.loops) + ([(i.args[0], i)] if isinstance(i, T) and i.op == 'first' else [])
            if any(i is j and (r is x.root or same_length(ip, r, x.root)) for r, j in known):
                return seqs.at(ip, x, i)
            pos = t.add(pos, n)
        else:
            if ip.e.valid(t.eq(k, pos)):
                return x
            pos = t.add(pos, 1)
    raise Unsupported('symbolic index')


@model(range)
def py_range(ip, args, kwargs):
    args = [ip.force(a) for a in args]
    r = range_of_len(ip, args)
    if r is not None:
        return r
    args = [seqs.cmp_len(ip, a, 4) if isinstance(a, T) else a for a in args]
    if any(isinstance(a, T) for a in args):
        raise Unsupported('symbolic range')
    return call_native(ip, range, args, kwargs)


@model(sum)
def py_sum(ip, args, kwargs):
    ents = seqs.iter_entries(ip, args[0])
    r = args[1] if len(args) > 1 else 0
    for x in ents:
        if isinstance(x, Seg):
            raise Unsupported('sum of symbolic sequence')
        r = binop(ip, ast.Add(), r, x)
    return r


@model(min, max)
def py_minmax(ip, args, kwargs):
    raise Unsupported('min/max')


def _minmax(op):
    def h(ip, args, kwargs):
        ents = list(args) if len(args) > 1 else seqs.iter_entries(ip, args[0])
        if kwargs or any(isinstance(x, Seg) for x in ents):
            raise Unsupported('min/max of symbolic sequence')
        if not ents:
            ip.throw(ValueError, 'empty sequence')
        best = ents[0]
        for x in ents[1:]:
            if ip.truth(compare(ip, op, x, best)):
                best = x
        return best
    return h


FUNCS[min] = _minmax(ast.Lt())
FUNCS[max] = _minmax(ast.Gt())


@model(id)
def py_id(ip, args, kwargs):
    o = ip.res(args[0])
    if isinstance(o, SObj):
        return mk('call', 'I', 'id', o.stamp)
    return mk('call', 'I', 'id', t.fresh('h', 'I'))


@model(hash)
def py_hash(ip, args, kwargs):
    o = ip.res(args[0])
    if isinstance(o, SObj):
        f = ip.class_lookup(o.cls, '__hash__')
        if f is None:
            ip.throw(TypeError, 'unhashable type')
        if isinstance(f, types.FunctionType):
            return ip.call(f, [o], {})
        return py_id(ip, [o], {})
    if isinstance(o, SDict) or isinstance(o, SSeq) and o.kind in ('list', 'set'):
        ip.throw(TypeError, 'unhashable type')
    return mk('call', 'I', 'hash', t.fresh('h', 'I'))


@model(print)
def py_print(ip, args, kwargs):
    return None


@model(abs)
def py_abs(ip, args, kwargs):
    v = ip.force(args[0])
    if isinstance(v, T) and v.sort == 'I':
        return v if ip.e.branch(t.le(0, v)) else t.neg(v)
    return call_native(ip, abs, [v], {})


@model(object)
def py_object(ip, args, kwargs):
    return SObj(object)


@model(property, staticmethod, classmethod)
def py_descr(ip, args, kwargs):
    raise Unsupported('descriptor creation')


# ---------------------------------------------------------------- library
@model(functools.wraps)
def py_wraps(ip, args, kwargs):
    return SBuiltin('%identity', None)


_cm = call_method


def call_method(ip, b, args, kwargs):      # noqa
    if b.name == '%identity':
        return args[0]
    return _cm(ip, b, args, kwargs)


@model(copy.deepcopy)
def py_deepcopy(ip, args, kwargs):
    return deepcopy(ip, args[0], {})


def deepcopy(ip, v, memo):
    v = ip.real_view(v)
    if id(v) in memo:
        return memo[id(v)]
    if isinstance(v, SObj):
        f = ip.class_lookup(v.cls, '__deepcopy__')
        if f is not None:
            return ip.call(ip.bind(f, v, v.cls), [SDict('dict', ())], {})
        for nm in ('__reduce_ex__', '__reduce__', '__getstate__', '__setstate__', '__copy__'):
            g = ip.class_lookup(v.cls, nm)
            if isinstance(g, types.FunctionType) and nm != '__copy__':
                raise Unsupported('custom pickling')
        r = SObj(v.cls, term=None)
        memo[id(v)] = r
        for k, x in v.attrs.items():
            r.attrs[k] = deepcopy(ip, x, memo)
        if v.entries is not None:
            r.entries = tuple(x if isinstance(x, Seg) else deepcopy(ip, x, memo) for x in seqs.norm(ip, v.entries))
        return r
    if isinstance(v, SSeq):
        if v.kind in ('gen', 'iter'):
            ip.throw(TypeError, "cannot pickle 'generator' object")
        r = SSeq(v.kind, (), term=v.term if v.kind in ('tuple', 'frozenset', 'range') else None)
        memo[id(v)] = r
        r.entries = tuple(x if isinstance(x, Seg) else deepcopy(ip, x, memo) for x in seqs.norm(ip, v.entries))
        return r
    if isinstance(v, SDict):
        r = SDict(v.kind, ())
        memo[id(v)] = r
        r.entries = tuple(x if isinstance(x, Seg) else (deepcopy(ip, x[0], memo), deepcopy(ip, x[1], memo))
                          for x in seqs.norm(ip, v.entries))
        return r
    if isinstance(v, SBound):
        return SBound(v.func, deepcopy(ip, v.self, memo))
    if isinstance(v, dict) and not isinstance(v, types.MappingProxyType):
        return SDict('OrderedDict' if isinstance(v, OrderedDict) else 'dict',
                     [(k, deepcopy(ip, x, memo)) for k, x in v.items()])
    if isinstance(v, list):
        return SSeq('list', [deepcopy(ip, x, memo) for x in v])
    if isinstance(v, T) and v.sort == 'V':
        dom = ip.e.dom(v)
        if dom <= {'none', 'bool', 'int', 'str', 'float', 'decimal', 'bytes', 'date', 'datetime', 'tuple', 'range', 'frozenset'}:
            return v
        return deepcopy(ip, ip.force(v), memo)
    return v


@model(copy.copy)
def py_copy(ip, args, kwargs):
    v = ip.real_view(ip.force(args[0]))
    if isinstance(v, SObj):
        f = ip.class_lookup(v.cls, '__copy__')
        if f is not None:
            return ip.call(ip.bind(f, v, v.cls), [], {})
        r = SObj(v.cls)
        r.attrs.update(v.attrs)
        r.entries = v.entries
        return r
    if isinstance(v, SSeq):
        return SSeq(v.kind, v.entries, term=v.term if v.kind == 'tuple' else None)
    if isinstance(v, SDict):
        return SDict(v.kind, v.entries)
    if isinstance(v, dict):
        return SDict('dict', list(v.items()))
    if isinstance(v, list):
        return SSeq('list', v)
    return v


@model(binascii.hexlify, binascii.b2a_hex)
def py_hexlify(ip, args, kwargs):
    v = ip.force(args[0])
    if isinstance(v, SOpaque) and v.cls is bytes and len(args) == 1:
        DOMAINS.setdefault('C:bytes', frozenset(('bytes',)))
        return SOpaque(bytes, mk('in', 'V', 'C:bytes', 'hexlify', v.term))
    return call_native(ip, binascii.hexlify, [v] + list(args[1:]), kwargs)


@model(itertools.chain)
def py_chain(ip, args, kwargs):
    out = []
    for a in args:
        if isinstance(a, Seg):
            raise Unsupported('chain of unboundedly many iterables')
        out.extend(seqs.iter_entries(ip, a))
    return SSeq('iter', out)


def _by_definition(*pairs):
    for f, g in pairs:
        FUNCS[f] = lambda ip, args, kwargs, g=g: ip.call(g, args, kwargs)


_by_definition((functools.reduce, prelude.reduce), (functools.partial, prelude.partial), (operator.attrgetter, prelude.attrgetter),
               (operator.itemgetter, prelude.itemgetter), (operator.methodcaller, prelude.methodcaller), (itertools.starmap, prelude.starmap),
               (itertools.chain.from_iterable, prelude.from_iterable), (itertools.filterfalse, prelude.filterfalse), (itertools.compress, prelude.compress))


def _re_model(fname):
    f = getattr(re, fname)

    def run(ip, args, kwargs):
        args = [ip.force(a) if not isinstance(a, Seg) else a for a in args]
        pat = args[0] if args else None
        if isinstance(pat, T):
            c = deep_concrete(pat)
            if c is MISSING:
                raise Unsupported('symbolic regular expression')
            pat = c
        if fname in ('match', 'search', 'fullmatch') and len(args) >= 2 and not kwargs and isinstance(args[1], T) and args[1].sort == 'S' \
                and deep_concrete(args[1]) is MISSING:
            flags = args[2] if len(args) > 2 else 0
            if isinstance(pat, re.Pattern):
                pat, flags = pat.pattern, pat.flags & ~re.U
            if isinstance(pat, str) and isinstance(flags, int):
                from . import regex
                try:
                    return SMatch(mk('inre', 'B', args[1], regex.register(pat, int(flags), fname)))
                except regex.NoTranslation as ex:
                    raise Unsupported('regular expression: %s' % ex)
        if fname == 'split' and len(args) == 2 and not kwargs and isinstance(args[1], T) and args[1].sort == 'S' and deep_concrete(args[1]) is MISSING:
            # assumed: a list of strings and None (unmatched groups), a function of the pattern and the string
            if isinstance(pat, re.Pattern):
                pat = '%d:%s' % (pat.flags & ~re.U, pat.pattern)
            else:
                pat = '0:' + pat
            ip.by_contract.add('re:split')
            root = mk('resplit', 'Q', pat, args[1])
            return SSeq('list', (seqs.base_seg(root, lambda i: mk('it', 'V', 'STRNONE', root, i)),))
        return call_native(ip, f, [pat] + list(args[1:]), kwargs)
    return run


for _n in ('match', 'search', 'fullmatch', 'split', 'sub', 'findall', 'compile', 'escape', 'subn'):
    FUNCS[getattr(re, _n)] = _re_model(_n)
for _n in ('match', 'search', 'fullmatch', 'split', 'sub', 'findall'):
    FUNCS[getattr(re.Pattern, _n)] = _re_model(_n)
