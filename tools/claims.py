"""Statements about Python itself: `false` ones the engine must never prove, `true` ones it should.

Not about the package; used by tools/selftest.py to test the verifier.
"""
import re
from collections import OrderedDict

import vlib
import re

from vlib import *  # noqa: F401,F403


def true(fn):
    return prop('TRUE')(fn)


def false(fn):
    return prop('FALSE')(fn)


# ---------------------------------------------------------------- sets and dictionaries
@false
def set_size(xs: Seq(STR)):
    check(len(set(xs)) == len(xs), 'x')


@false
def setcomp_size(xs: Seq(STR)):
    check(len({x for x in xs}) == len(xs), 'x')


@false
def set_order(xs: Seq(STR)):
    check_eq(', '.join(set(xs)), ', '.join(xs), 'x')


@false
def set_two(a: STR, b: STR):
    check_eq(', '.join({a, b}), a + ', ' + b, 'x')


@false
def set_two_distinct(a: STR, b: STR):
    assume(a != b)
    check_eq(', '.join({a, b}), a + ', ' + b, 'x')


@true
def set_sorted(a: STR, b: STR):
    assume(a < b)
    check_eq(', '.join(sorted({b, a})), a + ', ' + b, 'x')


@false
def set_sorted_dup(a: STR, b: STR):
    check_eq(', '.join(sorted({b, a})), ', '.join(sorted([a, b])), 'x')


@true
def set_member(a: STR, xs: Seq(STR)):
    check((a in set(xs)) == (a in xs), 'x')


@false
def sorted_set(xs: Seq(STR)):
    check_eq(', '.join(sorted({x for x in xs})), ', '.join(sorted(xs)), 'x')


@false
def set_add_twice(xs: Seq(STR), y: STR):
    check_eq(len(set(xs + [y, y])), len(xs) + 1, 'x')


@true
def dict_two(a: STR, b: STR):
    d = {a: 1, b: 2}
    check((len(d) == 2) == (a != b), 'size')
    check(d[b] == 2, 'last')
    check(d[a] == (1 if a != b else 2), 'first')


@false
def dict_first_wins(a: STR, b: STR):
    check({a: 1, b: 2}[a] == 1, 'x')


@false
def dict_update_order(a: STR, b: STR):
    d = {a: 1}
    d.update({b: 2})
    d[a] = 3
    check_eq(list(d), [b, a], 'x')


@true
def dict_reinsert(a: STR, b: STR):
    assume(a != b)
    d = {a: 1, b: 2}
    d[a] = 3
    check_eq(list(d), [a, b], 'x')


@true
def dict_pop_reinsert(a: STR, b: STR):
    assume(a != b)
    d = {a: 1, b: 2}
    d.pop(a)
    d[a] = 3
    check_eq(list(d), [b, a], 'x')


@false
def dict_from_pairs(xs: Seq(STR)):
    d = {}
    for x in xs:
        d[x] = 1
    check(len(d) == len(xs), 'x')


@false
def dict_get_default(m: Map(INT), k: STR):
    check(m.get(k, 0) == 0, 'x')


@false
def dict_items_sorted(m: Map(STR)):
    check_eq(', '.join(m), ', '.join(sorted(m)), 'x')


@true
def dict_join(m: Map(STR)):
    check_eq(', '.join(k + v for k, v in m.items()), ', '.join([k + m[k] for k in m]), 'x')


@false
def dict_true_one(b: BOOL):
    d = {1: 'a'}
    d[True] = 'b'
    check(d[1] == 'a', 'x')


@true
def dict_true_key(b: BOOL):
    d = {1: 'a'}
    d[True] = 'b'
    check(d[1] == 'b' and len(d) == 1, 'x')


@false
def ordered_dict_eq(a: STR, b: STR):
    check(OrderedDict([(a, 1), (b, 2)]) == OrderedDict([(b, 2), (a, 1)]), 'x')


@true
def dict_eq_unordered(a: STR, b: STR):
    assume(a != b)
    check(dict([(a, 1), (b, 2)]) == dict([(b, 2), (a, 1)]), 'x')


# ---------------------------------------------------------------- loops
@true
def loop_grow(xs: Seq(STR)):
    n = 0
    s = 'a'
    for x in xs:
        n += 2
        s += 'q' + x
    check(n == 2 * len(xs), 'n')
    check_eq(s, 'a' + ''.join('q' + x for x in xs), 's')


@false
def loop_break(xs: Seq(STR)):
    s = ''
    for x in xs:
        if x == 'b':
            break
        s += x
    check_eq(s, ''.join(xs), 's')


@false
def loop_break_list(xs: Seq(STR)):
    s = []
    for x in xs:
        if x == 'b':
            break
        s.append(x)
    check_eq(s, xs, 's')


@false
def loop_continue(xs: Seq(STR)):
    n = 0
    for x in xs:
        if x == 'a':
            continue
        n += 1
    check(n == len(xs), 'n')


@false
def loop_state(xs: Seq(STR)):
    s = ''
    for x in xs:
        if s == 'b':
            s = 'c'
        s += x
    check_eq(s, ''.join(xs), 's')


@false
def loop_last(xs: Seq(STR)):
    r = ''
    for x in xs:
        r = x
    check_eq(r, '', 'r')


@false
def loop_var_after(xs: Seq(STR), x: STR):
    y = x
    for x in xs:
        pass
    check_eq(x, y, 'r')


@false
def loop_else(xs: Seq(STR)):
    r = 0
    for x in xs:
        if x == 'b':
            break
    else:
        r = 1
    check(r == 1, 'r')


@false
def loop_return(xs: Seq(STR)):
    def f():
        for x in xs:
            if x:
                return 1
        return 0
    check(f() == 1, 'r')


@false
def loop_return_some(xs: Seq(STR)):
    def f():
        for x in xs:
            if x:
                return 1
        return 0
    check(f() == 0, 'r')


@false
def loop_seen(xs: Seq(STR)):
    seen = []
    for x in xs:
        if x not in seen:
            seen.append(x)
    check_eq(seen, xs, 'r')


@true
def loop_seen_member(xs: Seq(STR), y: STR):
    seen = []
    for x in xs:
        if x not in seen:
            seen.append(x)
    check((y in seen) == (y in xs), 'r')


@false
def loop_seen_size(xs: Seq(STR)):
    seen = []
    for x in xs:
        if x not in seen:
            seen.append(x)
    check(len(seen) == len(xs), 'r')


@false
def loop_alternate(xs: Seq(STR)):
    flag = True
    out = []
    for x in xs:
        if flag:
            out.append(x)
        flag = not flag
    check_eq(out, xs, 'r')


@false
def loop_flag(xs: Seq(STR)):
    flag = False
    for x in xs:
        if x == 'a':
            flag = True
    check(not flag, 'r')


@false
def loop_flag_true(xs: Seq(STR)):
    flag = False
    for x in xs:
        if x == 'a':
            flag = True
    check(flag == (len(xs) > 0), 'r')


@true
def loop_flag_any(xs: Seq(STR)):
    flag = False
    for x in xs:
        if x == 'a':
            flag = True
    check(flag == ('a' in xs), 'r')


@false
def loop_mutated_while(xs: Seq(STR)):
    ys = list(xs)
    for y in ys:
        if y == 'a':
            ys.remove(y)
    check('a' not in ys, 'r')


@false
def loop_shared(xs: Seq(STR)):
    out = []
    box = []
    for x in xs:
        box.append(x)
        out.append(box)
    check_eq([len(b) for b in out], [1 for _ in xs], 'r')


@false
def loop_closure(xs: Seq(STR)):
    fs = [lambda: x for x in xs]
    check_eq([f() for f in fs], xs, 'r')


@false
def loop_zip(xs: Seq(STR), ys: Seq(STR)):
    check(len(list(zip(xs, ys))) == len(xs), 'r')


@false
def loop_enumerate(xs: Seq(STR)):
    check_eq([i for i, x in enumerate(xs)], [i for i, x in enumerate(xs, 1)], 'r')


@true
def loop_reversed(a: STR, b: STR, c: STR):
    check_eq([x for x in reversed([a, b, c])], [c, b, a], 'r')


@false
def loop_reversed_same(xs: Seq(STR)):
    check_eq(list(reversed(xs)), xs, 'r')


@false
def nested_loops(xs: Seq(STR), ys: Seq(STR)):
    check_eq([x + y for x in xs for y in ys], [x + y for y in ys for x in xs], 'r')


@false
def loop_slice(xs: Seq(STR)):
    check_eq(xs[1:], xs, 'r')


@true
def loop_slice_join(xs: Seq(STR), a: STR):
    check_eq(([a] + xs)[1:], xs, 'r')


@false
def first_of(xs: Seq(STR)):
    assume(xs)
    check_eq(xs[0], xs[-1], 'r')


@false
def generator_twice(xs: Seq(STR)):
    g = (x for x in xs)
    a = ''.join(g)
    b = ''.join(g)
    check_eq(a, b, 'r')


@true
def generator_exhausted(xs: Seq(STR)):
    g = (x for x in xs)
    a = ''.join(g)
    b = ''.join(g)
    check_eq(a + b, ''.join(xs), 'r')
    check_eq(b, '', 'b')


@false
def generator_truth(xs: Seq(STR)):
    check(bool(x for x in xs) == bool(xs), 'r')


@false
def map_lazy(xs: Seq(STR)):
    out = []
    map(out.append, xs)
    check_eq(out, xs, 'r')


@true
def map_eager(xs: Seq(STR)):
    check_eq(list(map(lambda x: x + 'a', xs)), [x + 'a' for x in xs], 'r')


@true
def filter_some(xs: Seq(STR)):
    check_eq(list(filter(None, xs)), [x for x in xs if x], 'r')


@false
def filter_all(xs: Seq(STR)):
    check_eq(list(filter(None, xs)), xs, 'r')


@false
def yields(xs: Seq(STR)):
    def f():
        for x in xs:
            if x:
                yield x
    check_eq(list(f()), xs, 'r')


# ---------------------------------------------------------------- order
@false
def sorted_same(xs: Seq(STR)):
    check_eq(sorted(xs), xs, 'r')


@true
def sorted_perm(xs: Seq(STR)):
    check(len(sorted(xs)) == len(xs), 'r')


@false
def sorted_key(xs: Seq(STR)):
    check_eq(sorted(xs, key=len), sorted(xs), 'r')


@false
def sorted_reverse(a: STR, b: STR):
    check_eq(sorted([a, b], reverse=True), sorted([a, b]), 'r')


@false
def sort_in_place(xs: Seq(STR)):
    ys = xs
    before = list(xs)
    ys.sort()
    check_eq(xs, before, 'r')


@false
def less(a: STR, b: STR):
    check(a < b or b < a, 'r')


@true
def less_total(a: STR, b: STR):
    check(a < b or b < a or a == b, 'r')


# ---------------------------------------------------------------- strings
@false
def strip_same(s: STR):
    check_eq(s.strip(), s, 'r')


@false
def lower_same(s: STR):
    check_eq(s.lower(), s, 'r')


@true
def lower_twice(a: STR):
    check_eq('AbC'.lower() + a, 'abc' + a, 'r')


@false
def replace_back(s: STR):
    check_eq(s.replace('a', 'b').replace('b', 'a'), s, 'r')


@true
def replace_escape_order(s: STR):
    check_eq(s.replace('\\', '\\\\').replace("'", "\\'").count('x') >= 0, True, 'r')


@false
def replace_order(s: STR):
    check_eq(s.replace("'", "\\'").replace('\\', '\\\\'), s.replace('\\', '\\\\').replace("'", "\\'"), 'r')


@false
def replace_two(s: STR):
    check_eq(s.replace('aa', 'b'), s.replace('a', 'b'), 'r')


@false
def replace_count(s: STR):
    check_eq(s.replace('a', 'b', 1), s.replace('a', 'b'), 'r')


@false
def contains(s: STR, u: STR):
    check(s in u, 'r')


@true
def contains_own(s: STR, u: STR):
    check(s in u + s, 'r')


@false
def startswith(s: STR):
    check((s + 'a').startswith('a'), 'r')


@false
def startswith_not(s: STR):
    check(not (s + 'a').startswith('a'), 'r')


@false
def cat_comm(a: STR, b: STR):
    check_eq(a + b, b + a, 'r')


@false
def cat_cancel(a: STR, b: STR, c: STR, d: STR):
    assume(a + b == c + d)
    check_eq(a, c, 'r')


@true
def cat_cancel_same(a: STR, b: STR, d: STR):
    assume(a + b == a + d)
    check_eq(b, d, 'r')


@false
def fmt_percent(s: STR):
    check_eq('%s' % s, '%r' % s, 'r')


@true
def fmt_kinds(s: STR, n: INT):
    check_eq('%s-%d' % (s, n), '{}-{}'.format(s, n), 'a')
    check_eq(f'{s}-{n}', s + '-' + str(n), 'b')


@false
def fmt_template(s: STR):
    check_eq(('a%s' + s) % 'x', 'ax' + s, 'r')


@false
def fmt_brace(s: STR):
    check_eq(('{}' + s).format('x'), 'x' + s, 'r')


@false
def int_text(n: INT):
    check(len(str(n)) == 1, 'r')


@false
def int_text_sign(n: INT):
    check(not str(n).startswith('-'), 'r')


@true
def int_text_round(n: INT, m: INT):
    check((str(n) == str(m)) == (n == m), 'r')


@false
def int_of_text(s: STR):
    int(s)
    check(True, 'r')


@false
def split_one(s: STR):
    check(len(s.split('.')) == 1, 'r')


@false
def split_join(s: STR):
    check_eq(' '.join(s.split()), s, 'r')


@true
def split_dot_join(s: STR):
    check_eq('.'.join(s.split('.')), s, 'r')


@false
def index_char(s: STR):
    assume(s)
    check_eq(s[0], s[-1], 'r')


@false
def isdigit_int(s: STR):
    assume(s.isdigit())
    check_eq(str(int(s)), s, 'r')


@false
def regex_all(s: STR):
    check(bool(re.match('a', s)) == bool(re.search('a', s)), 'r')


@false
def regex_end(s: STR):
    assume(re.match('a*$', s))
    check(set(s) <= {'a'}, 'r')


@false
def join_sep(xs: Seq(STR)):
    check_eq(', '.join(xs), ''.join(xs), 'r')


@false
def join_empty(xs: Seq(STR)):
    check((', '.join(xs) == '') == (not xs), 'r')


@true
def join_first(xs: Seq(STR), a: STR):
    check_eq(', '.join([a] + xs), a + ''.join(', ' + x for x in xs), 'r')


@false
def join_inject(a: STR, b: STR, c: STR, d: STR):
    assume(', '.join([a, b]) == ', '.join([c, d]))
    check_eq(a, c, 'r')


@false
def title(s: STR):
    check_eq(s.title(), s.capitalize(), 'r')


@false
def upper_len(s: STR):
    check(len(s.upper()) == len(s), 'r')


@false
def lower_eq(a: STR, b: STR):
    assume(a.lower() == b.lower())
    check_eq(a, b, 'r')


# ---------------------------------------------------------------- numbers, booleans, types
@false
def bool_int(v: Dom('INTBOOL')):
    check(isinstance(v, int) and not isinstance(v, bool), 'r')


@true
def bool_is_int(v: Dom('INTBOOL')):
    check(isinstance(v, int), 'r')
    check((type(v) is bool) == isinstance(v, bool), 'b')


@false
def bool_in_list(v: BOOL):
    check(v in [2, 3] or v not in [0], 'r')


@true
def bool_eq(v: BOOL):
    check(v in [0, 1], 'r')
    check(v == int(v), 'i')


@false
def bool_text(v: BOOL):
    check_eq(str(v), str(int(v)), 'r')


@false
def or_default(n: INT):
    check((n or 5) == n, 'r')


@true
def or_default_zero(n: INT):
    check((n or 5) == (5 if n == 0 else n), 'r')


@false
def is_none(v: ANY):
    check((v is None) == (not v), 'r')


@false
def eq_none(v: ANY):
    check((v is not None) == bool(v), 'r')


@false
def float_text(v: Dom('PLAIN')):
    assume(isinstance(v, float))
    check_eq('%d' % v, '%.0f' % v, 'r')


@false
def any_str(v: ANY):
    check(isinstance(v, (str, int)) or v is None, 'r')


@false
def hashable(v: ANY):
    try:
        {v: 1}
    except TypeError:
        unreachable('r')


@false
def iterable(v: ANY):
    try:
        list(v)
    except TypeError:
        unreachable('r')


@false
def indexable(v: ANY):
    assume(isinstance(v, (list, tuple)))
    try:
        v[0]
    except IndexError:
        unreachable('r')


@false
def unpack_two(v: Dom('STRTUP')):
    try:
        a, b = v
    except ValueError:
        unreachable('r')


@false
def int_sub(a: INT, b: INT):
    check(a - b == b - a, 'r')


@true
def int_sub_zero(a: INT, b: INT):
    check((a - b == 0) == (a == b), 'r')
    check(3 * a == a + a + a, 'm')


@false
def int_neg(a: INT):
    check(-a <= 0, 'r')


@false
def int_mod(a: INT):
    check(a % 2 == 0, 'r')


@false
def int_div(a: INT):
    check(a // 2 * 2 == a, 'r')


@false
def max_of(a: INT, b: INT):
    check(max(a, b) == a, 'r')


@true
def max_of_both(a: INT, b: INT):
    check(max(a, b) >= a and max(a, b) >= b, 'r')


@false
def date_order(v: Dom('PLAIN')):
    check(isinstance(v, datetime.date) == (type(v) is datetime.date), 'r')


# ---------------------------------------------------------------- objects, aliasing, exceptions
class Box:
    items = []
    count = 0

    def __init__(self, v):
        self.v = v

    def __eq__(self, other):
        return isinstance(other, Box) and self.v == other.v

    def __hash__(self):
        return hash(self.v)

    def copy(self):
        return Box(self.v)


class Sub(Box):
    def __init__(self, v):
        super().__init__(v)
        self.w = v

    @property
    def double(self):
        return self.v + self.w

    @staticmethod
    def make(v):
        return Sub(v)

    @classmethod
    def build(cls, v):
        return cls(v)


@false
def alias_list(a: STR):
    x = [a]
    y = x
    y.append('b')
    check_eq(x, [a], 'r')


@true
def copied_list(a: STR):
    x = [a]
    y = list(x)
    y.append('b')
    check_eq(x, [a], 'r')


@false
def default_shared(a: STR):
    def f(x, acc=[]):  # pylint: disable=dangerous-default-value
        acc.append(x)
        return len(acc)
    f(a)
    check(f(a) == 1, 'r')


@false
def class_attribute(a: STR):
    x, y = Box(a), Box(a)
    x.items.append(a)
    n = len(y.items)
    Box.items = []
    check(n == 0, 'r')


@true
def instance_attribute(a: STR):
    x, y = Box(a), Box(a)
    x.count = 1
    check(y.count == 0, 'r')


@false
def augmented_attribute(a: STR):
    x = Box([a])
    y = Box(x.v)
    y.v += [a]
    check(len(x.v) == 1, 'r')


@true
def augmented_string(a: STR):
    x = Box(a)
    y = Box(x.v)
    y.v += a
    check_eq(x.v, a, 'r')


@false
def eq_identity(a: STR):
    check(Box(a) is Box(a), 'r')


@true
def eq_objects(a: STR, b: STR):
    check((Box(a) == Box(b)) == (a == b), 'r')
    check((Box(a) != Box(b)) == (a != b), 'n')


@false
def objects_in_list(a: STR, b: STR):
    check(Box(a) in [Box(b)], 'r')


@true
def subclass(a: STR):
    x = Sub.make(a)
    check_eq(x.double, a + a, 'r')
    check(isinstance(x, Box) and type(x) is not Box, 't')
    check(type(Sub.build(a)) is Sub, 'c')


@false
def exception_order(a: STR):
    log = []
    try:
        log.append('a')
        if a:
            raise ValueError(a)
        log.append('b')
    except ValueError:
        log.append('c')
    finally:
        log.append('d')
    check_eq(''.join(log), 'abd', 'r')


@true
def exception_flow(a: STR):
    log = []
    try:
        log.append('a')
        if a:
            raise ValueError(a)
        log.append('b')
    except (TypeError, ValueError) as ex:
        log.append(str(ex))
    else:
        log.append('e')
    finally:
        log.append('d')
    check_eq(''.join(log), 'a' + a + 'd' if a else 'abed', 'r')


@false
def exception_partial(xs: Seq(STR)):
    out = []
    try:
        for x in xs:
            if x == 'a':
                raise ValueError()
            out.append(x)
    except ValueError:
        pass
    check_eq(out, xs, 'r')


@false
def finally_return(a: STR):
    def f():
        try:
            return a
        finally:
            return 'b'  # pylint: disable=lost-exception
    check_eq(f(), a, 'r')


@false
def short_circuit(a: STR):
    log = []

    def f():
        log.append(1)
        return True
    if a or f():
        pass
    check(len(log) == 1, 'r')


@false
def argument_mutation(xs: Seq(STR)):
    def f(ys):
        ys.append('a')
    n = len(xs)
    f(xs)
    check(len(xs) == n, 'r')


@true
def argument_rebinding(xs: Seq(STR)):
    def f(ys):
        ys = ys + ['a']
        return ys
    n = len(xs)
    check(len(f(xs)) == n + 1, 'a')
    check(len(xs) == n, 'r')


@true
def star_copy(xs: Seq(STR)):
    def f(*ys, **kw):
        return list(ys) + list(kw)
    check_eq(f(*xs), xs, 'r')


@false
def keyword_order(a: STR, b: STR):
    def f(**kw):
        return list(kw)
    check_eq(f(b=b, a=a), ['a', 'b'], 'r')


@false
def late_global(n: INT):
    def f():
        return g()

    def g():
        return n
    check(f() == 0, 'r')


@false
def chained(a: INT, b: INT, c: INT):
    check((a < b < c) == (a < c), 'r')


@true
def chained_and(a: INT, b: INT, c: INT):
    check((a < b < c) == (a < b and b < c), 'r')


@false
def ternary(a: STR):
    x = 'x' if a else 'y'
    check_eq(x, 'x', 'r')


@false
def tuple_compare(a: STR, b: STR):
    check((a, b) == (b, a), 'r')


@true
def tuple_compare_both(a: STR, b: STR):
    check(((a, b) == (b, a)) == (a == b), 'r')


@false
def list_tuple(a: STR):
    check([a] == (a,), 'r')


@false
def list_eq_len(xs: Seq(STR), ys: Seq(STR)):
    assume(len(xs) == len(ys))
    check(xs == ys, 'r')


@false
def list_in(xs: Seq(STR), a: STR):
    check(a in xs, 'r')


@false
def list_not_in(xs: Seq(STR), a: STR):
    check(a not in xs, 'r')


@false
def list_remove(xs: Seq(STR), a: STR):
    assume(a in xs)
    xs.remove(a)
    check(a not in xs, 'r')


@false
def list_truth(xs: Seq(STR)):
    check(bool(xs) == any(xs), 'r')


@true
def list_any(xs: Seq(STR)):
    assume(any(xs))
    check(bool(xs), 'r')


@false
def all_empty(xs: Seq(STR)):
    check(all(xs) == any(xs), 'r')


@true
def all_any(xs: Seq(STR)):
    check(all(x != 'a' for x in xs) == ('a' not in xs), 'r')


@false
def none_first(xs: Seq(STR)):
    check_eq(next((x for x in xs if x), None), xs[0] if xs else None, 'r')


@false
def del_item(m: Map(INT), k: STR):
    m[k] = 1
    n = len(m)
    del m[k]
    check(len(m) == n, 'r')


@true
def set_item(m: Map(INT), k: STR):
    m[k] = 1
    check(m[k] == 1 and k in m, 'r')


@false
def set_item_other(m: Map(INT), k: STR, j: STR):
    assume(j in m)
    before = m[j]
    m[k] = 1
    check(m[j] == before, 'r')


@true
def set_item_frame(m: Map(INT), k: STR, j: STR):
    assume(j in m and j != k)
    before = m[j]
    m[k] = 1
    check(m[j] == before, 'r')


@false
def shared_default_dict(a: STR):
    d = dict.fromkeys(['x', 'y'], [])
    d['x'].append(a)
    check(len(d['y']) == 0, 'r')


@false
def multiplied_list(a: STR):
    d = [[]] * 2
    d[0].append(a)
    check(len(d[1]) == 0, 'r')


@false
def walrus(a: STR):
    if (n := len(a)) > 1:
        check(n > 2, 'r')


@false
def conditional_import_name(a: STR):
    def f():
        if a:
            r = 1
        return r  # pylint: disable=possibly-used-before-assignment
    try:
        f()
    except UnboundLocalError:
        unreachable('r')


@false
def string_iter(s: STR):
    check(len(list(s)) < 3, 'r')


@true
def string_iter_join(s: STR):
    check_eq(''.join(c for c in s), s, 'r')


@true
def string_map(s: STR):
    check_eq(''.join("''" if c == "'" else c for c in s), s.replace("'", "''"), 'r')


@false
def string_map_wrong(s: STR):
    check_eq(''.join("''" if c == "'" else c for c in s), s.replace("''", "'"), 'r')


@false
def slice_string(s: STR):
    check_eq(s[1:-1], s, 'r')


@true
def slice_quotes(s: STR):
    check_eq(("'" + s + "'")[1:-1], s, 'r')


@false
def lstrip_quotes(s: STR):
    check_eq(("'" + s + "'").strip("'"), s, 'r')


@false
def setattr_name(a: STR):
    b = Box(a)
    setattr(b, 'v', 'x')
    check_eq(b.v, a, 'r')


@false
def hasattr_any(v: ANY):
    check(not hasattr(v, 'tosql'), 'r')


@false
def getattr_default(v: ANY):
    check(getattr(v, 'tosql', None) is None, 'r')


@false
def type_name(v: ANY):
    check(type(v).__name__ != 'str', 'r')


@false
def bytes_hex(v: Dom('BYTES')):
    check_eq(v.hex(), v.hex().upper(), 'r')


@false
def native_mutation(n: BOOL):
    import bisect
    x = ['a', 'c']
    bisect.insort(x, 'b')
    check_eq(x, ['a', 'c'], 'r')


@false
def objects_in_set(a: STR, b: STR):
    check(len({Box(a), Box(b)}) == 2, 'r')


@true
def objects_as_keys(a: STR, b: STR):
    d = {Box(a): 1}
    d[Box(b)] = 2
    check((len(d) == 2) == (a != b), 'r')


@false
def frozen(a: STR):
    check(not isinstance(frozenset([a]), frozenset), 'r')


@false
def set_of_lists(v: ANY):
    try:
        {v}
    except TypeError:
        unreachable('r')


@false
def is_string(a: STR, b: STR):
    assume(a == b)
    check(a is not b, 'r')


@false
def two_flags(xs: Seq(INT)):
    lo = hi = 0
    for x in xs:
        if x < 0:
            lo += 1
        elif x > 10:
            hi += 1
    check(lo + hi == len(xs), 'r')


@false
def running(xs: Seq(INT)):
    total = 0
    for x in xs:
        total += x
    check(total >= 0, 'r')


@false
def previous(xs: Seq(STR)):
    out = []
    last = None
    for x in xs:
        if x != last:
            out.append(x)
        last = x
    check_eq(out, xs, 'r')


@false
def first_flag(xs: Seq(STR)):
    s = ''
    first = True
    for x in xs:
        if not first:
            s += ', '
        s += x
        first = False
    check_eq(s, ''.join(xs), 'r')


@true
def first_flag_ok(xs: Seq(STR)):
    s = ''
    first = True
    for x in xs:
        if not first:
            s += ', '
        s += x
        first = False
    check_eq(s, ', '.join(xs), 'r')


@false
def if_text(xs: Seq(STR)):
    s = ''
    for x in xs:
        if s:
            s += ', '
        s += x
    check_eq(s, ', '.join(xs), 'r')


@true
def if_text_ok(xs: Seq(STR)):
    s = ''
    for x in xs:
        if s:
            s += ', '
        s += 'a' + x
    check_eq(s, ', '.join('a' + x for x in xs), 'r')


@true
def enumerate_sep(xs: Seq(STR)):
    s = ''
    for i, x in enumerate(xs):
        if i:
            s += ', '
        s += x
    check_eq(s, ', '.join(xs), 'r')


@false
def while_index(xs: Seq(STR)):
    i = 0
    out = []
    while i < len(xs):
        if xs[i] == 'a':
            break
        out.append(xs[i])
        i += 1
    check_eq(out, xs, 'r')


@true
def while_index_ok(xs: Seq(STR)):
    i = 0
    out = []
    while i < len(xs):
        out.append(xs[i])
        i += 1
    check_eq(out, xs, 'r')


@true
def while_pop(xs: Seq(STR)):
    ys = list(xs)
    out = []
    while ys:
        out.append(ys.pop(0))
    check_eq(out, xs, 'r')


@true
def range_index(xs: Seq(STR)):
    check_eq([xs[i] for i in range(len(xs))], xs, 'r')


@false
def range_index_bad(xs: Seq(STR)):
    check_eq([xs[i] for i in range(1, len(xs))], xs, 'r')


@true
def reduce_join(xs: Seq(STR)):
    import functools
    check_eq(functools.reduce(lambda a, b: a + b, xs, ''), ''.join(xs), 'r')


@true
def dict_comp(m: Map(STR)):
    check_eq({k: v + 'a' for k, v in m.items()}, dict((k, m[k] + 'a') for k in m), 'r')


@true
def try_index(xs: Seq(STR)):
    try:
        x = xs[0]
    except IndexError:
        x = ''
    check_eq(x, next(iter(xs), ''), 'r')


@true
def unpack_star(xs: Seq(STR), a: STR):
    x, *rest = [a] + xs
    check(x == a and rest == xs, 'r')


@true
def extend_loop(xs: Seq(STR)):
    out = []
    for x in xs:
        out += [x]
    check_eq(out, xs, 'r')


@true
def insert_front(xs: Seq(STR)):
    out = []
    for x in xs:
        out.insert(0, x)
    check_eq(out, list(reversed(xs)), 'r')


@true
def setdefault(m: Map(STR), k: STR):
    v = m.setdefault(k, 'a')
    check_eq(m[k], v, 'r')


@true
def dedupe_dict(xs: Seq(STR), y: STR):
    d = dict.fromkeys(xs)
    check((y in d) == (y in xs), 'r')


@true
def partial_call(a: STR, b: STR):
    import functools
    f = functools.partial(lambda x, y: x + y, a)
    check_eq(f(b), a + b, 'r')


@true
def format_map(a: STR):
    check_eq('{x}-{y}'.format(x=a, y='b'), a + '-b', 'a')
    check_eq('%(x)s-%(y)s' % {'x': a, 'y': 'b'}, a + '-b', 'b')
    check_eq('{0}{1}{0}'.format(a, 'b'), a + 'b' + a, 'c')
    check_eq('%5d' % 3 + a, '    3' + a, 'd')


@true
def chain_lists(xs: Seq(STR), ys: Seq(STR)):
    import itertools
    check_eq(list(itertools.chain(xs, ys)), xs + ys, 'r')


@true
def lambda_default(a: STR):
    fs = [lambda v=v: v + a for v in ('x', 'y')]
    check_eq([f() for f in fs], ['x' + a, 'y' + a], 'r')


@true
def context_manager(a: STR):
    import contextlib
    log = []

    @contextlib.contextmanager
    def cm():
        log.append('i')
        yield a
        log.append('o')
    with cm() as x:
        log.append(x)
    check_eq(''.join(log), 'i' + a + 'o', 'r')


@true
def suppressed(a: STR):
    import contextlib
    with contextlib.suppress(ValueError):
        if a:
            raise ValueError()
    check(True, 'r')


@true
def nonlocal_count(xs: Seq(STR)):
    n = 0

    def f():
        nonlocal n
        n += 1
    f()
    f()
    check(n == 2, 'r')


@true
def class_in_function(a: STR):
    class P:
        def __init__(self):
            self.t = a

        def __str__(self):
            return self.t
    check_eq(str(P()) + '%s' % P() + '{}'.format(P()), a + a + a, 'r')


@true
def match_type(v: Dom('STRINT')):
    match v:
        case str():
            r = 's'
        case int():
            r = 'i'
        case _:
            r = '?'
    check_eq(r, 's' if isinstance(v, str) else 'i', 'r')


@true
def dict_dispatch(v: Dom('STRINT')):
    r = {str: lambda x: 's', int: lambda x: 'i'}[type(v)](v)
    check_eq(r, 's' if isinstance(v, str) else 'i', 'r')


# ---------------------------------------------------------------- zip of sequences of equal length
@true
def zip_map(xs: Seq(STR)):
    check(all(a == b for a, b in zip(xs, [x + '' for x in xs])), 'same')


@true
def zip_suffix(xs: Seq(STR)):
    check_eq(','.join(a + b for a, b in zip(xs, [x + '!' for x in xs])), ','.join(x + x + '!' for x in xs), 'same')


@false
def zip_filtered(xs: Seq(STR)):
    check(all(a == b for a, b in zip(xs, [x for x in xs if x])), 'x')


@false
def zip_reversed(xs: Seq(STR)):
    check(all(a == b for a, b in zip(xs, list(reversed(xs)))), 'x')


@false
def zip_sorted(xs: Seq(STR)):
    check(all(a == b for a, b in zip(xs, sorted(xs))), 'x')


@false
def zip_other(xs: Seq(STR), ys: Seq(STR)):
    if len(xs) == len(ys):
        check(all(a == b for a, b in zip(xs, ys)), 'x')


@false
def zip_set(xs: Seq(STR)):
    check(len(list(zip(xs, set(xs)))) == len(xs), 'x')


@true
def zip_same_length(xs: Seq(STR), ys: Seq(STR)):
    if len(xs) == len(ys):
        check(len(list(zip(xs, ys))) == len(xs), 'length')


@false
def zip_shift(xs: Seq(STR)):
    check_eq(','.join(a + b for a, b in zip(xs, xs + ['z'])), ','.join(x + x for x in xs) + 'z', 'x')


# ---------------------------------------------------------------- library functions by definition
@true
def reduce_init(xs: Seq(STR)):
    from functools import reduce
    check_eq(reduce(lambda s, x: s + x, xs, ''), ''.join(xs), 'r')


@false
def reduce_wrong(xs: Seq(STR)):
    from functools import reduce
    check_eq(reduce(lambda s, x: x + s, xs, ''), ''.join(xs), 'r')


@true
def getters(a: STR, b: STR, xs: Seq(Tup(STR, STR))):
    import operator
    check_eq(operator.itemgetter(1)((a, b)), b, 'item')
    check_eq(operator.itemgetter(1, 0)((a, b)), (b, a), 'items')
    check_eq(','.join(map(operator.itemgetter(0), xs)), ','.join(x for x, y in xs), 'map')
    check_eq(operator.methodcaller('replace', 'a', 'b')(a), a.replace('a', 'b'), 'method')


@true
def star_map(xs: Seq(Tup(STR, STR))):
    import itertools
    check_eq(','.join(itertools.starmap(lambda x, y: y + x, xs)), ','.join(y + x for x, y in xs), 'map')


@false
def enumerate_sep_wrong(xs: Seq(STR)):
    s = ''
    for i, x in enumerate(xs):
        if i > 1:
            s += ', '
        s += x
    check_eq(s, ', '.join(xs), 'r')


@true
def counter_obj(a: STR):
    import collections
    check_eq(collections.Counter([a])[a], 1, 'r')


# ---------------------------------------------------------------- loops by index
@true
def range_len(xs: Seq(STR)):
    out = []
    for i in range(len(xs)):
        out.append(xs[i] + '!')
    check_eq(','.join(out), ','.join(x + '!' for x in xs), 'r')


@true
def range_len_plus(a: STR, xs: Seq(STR)):
    ys = [a] + xs
    out = []
    for i in range(len(ys)):
        out.append(ys[i])
    check_eq(','.join(out), ','.join(ys), 'r')


@false
def range_len_two(xs: Seq(STR), ys: Seq(STR)):
    if len(xs) == len(ys):
        check_eq(','.join([xs[i] for i in range(len(ys))]), ','.join(ys), 'r')


@true
def range_len_pair(xs: Seq(STR), ys: Seq(STR)):
    if len(xs) == len(ys):
        check_eq(','.join([xs[i] for i in range(len(ys))]), ','.join(xs), 'r')


@false
def range_len_next(xs: Seq(STR)):
    if len(xs) > 1:
        check_eq(','.join(xs[i] for i in range(1, len(xs))), ','.join(xs), 'r')


@true
def while_count(xs: Seq(STR)):
    i = 0
    out = []
    while i < len(xs):
        out.append(xs[i])
        i += 1
    check_eq(','.join(out), ','.join(xs), 'r')
    check(i == len(xs), 'counter')


@false
def while_alias(xs: Seq(STR)):
    i = 0
    ys = xs
    while i < len(xs):
        if i < 3:
            ys.append(xs[i])
        i += 1
    check(len(xs) == i and i < 3, 'r')


@false
def while_break(xs: Seq(STR)):
    i = 0
    while i < len(xs):
        if xs[i] == 'a':
            break
        i += 1
    check(i == len(xs), 'r')


@true
def while_sep(xs: Seq(STR)):
    s, i = '', 0
    while i < len(xs):
        if i > 0:
            s += ', '
        s += xs[i]
        i += 1
    check_eq(s, ', '.join(xs), 'r')


@true
def first_empty(xs: Seq(STR)):
    s = ''
    for x in xs:
        s = s + ',' + x + '!' if s else x + '!'
    check_eq(s, ','.join(x + '!' for x in xs), 'r')


# ---------------------------------------------------------------- flags
@true
def flag_else(xs: Seq(STR)):
    s, first = '', True
    for x in xs:
        if first:
            first = False
        else:
            s += ', '
        s += x
    check_eq(s, ', '.join(xs), 'r')


@true
def sep_local(xs: Seq(STR)):
    s, sep = '', ''
    for x in xs:
        s += sep + x
        sep = ', '
    check_eq(s, ', '.join(xs), 'r')


@false
def sep_local_wrong(xs: Seq(STR)):
    s, sep = '', ''
    for x in xs:
        s += sep + x
        if x:
            sep = ', '
    check_eq(s, ', '.join(xs), 'r')


@true
def flag_after(xs: Seq(STR)):
    seen = False
    for x in xs:
        if seen and x == 'never':
            continue
        seen = True
    check(seen == (len(xs) > 0), 'r')


@false
def flag_some(xs: Seq(STR)):
    seen = False
    for x in xs:
        if not seen and x == 'a':
            seen = True
    check(seen == (len(xs) > 0), 'r')


@false
def const_growth(xs: Seq(STR)):
    s = ''
    for x in xs:
        s += 'x'
    check(s == '' or s == 'x', 'r')


@true
def const_growth_ok(xs: Seq(STR)):
    s = ''
    for x in xs:
        s += 'x'
    check_eq(s, ''.join('x' for x in xs), 'r')


@false
def flag_return(xs: Seq(STR)):
    def f():
        first = True
        for x in xs:
            if not first and x == 'b':
                return x
            first = False
        return 'none'
    check_eq(f(), 'b' if 'b' in xs else 'none', 'r')


@true
def flag_raised(xs: Seq(STR)):
    found = False
    for x in xs:
        if x == 'a':
            found = True
    check(found == any(x == 'a' for x in xs), 'r')
    check(found == ('a' in xs), 'in')


@false
def flag_lowered(xs: Seq(STR)):
    found = False
    for x in xs:
        found = x == 'a'
    check(found == any(x == 'a' for x in xs), 'r')


@false
def flag_both(xs: Seq(STR)):
    found = False
    for x in xs:
        if x == 'a':
            found = True
        else:
            found = False
    check(found == any(x == 'a' for x in xs), 'r')


@false
def flag_twice(xs: Seq(STR)):
    found = False
    for x in xs:
        if x == 'b':
            found = True
        if x == 'a':
            break
    check(found == any(x == 'b' for x in xs), 'r')


@true
def flag_twice_ok(xs: Seq(STR)):
    found = False
    for x in xs:
        if x == 'b':
            found = True
        if x == 'a':
            break
    check('b' in xs if found else True, 'r')


@true
def flag_all(xs: Seq(STR)):
    ok = True
    for x in xs:
        if not x:
            ok = False
    check(ok == all(xs), 'r')


# ---------------------------------------------------------------- splitting strings
def quoted_or_dot(s):
    return re.split(r'"((?:[^"]|"")+)"|\.', s)


@true
def split_join_filtered(s: STR):
    assume('"' not in s)
    check_eq('.'.join(p for p in quoted_or_dot(s) if p), '.'.join(p for p in s.split('.') if p), 'components')


@false
def split_join_not_filtered(s: STR):
    assume('"' not in s)
    check_eq('.'.join(p for p in quoted_or_dot(s) if p), '.'.join(p for p in s.split('.')), 'components')


@false
def split_join_with_quotes(s: STR):
    check_eq('.'.join(p for p in quoted_or_dot(s) if p), '.'.join(p for p in s.split('.') if p), 'components')


@true
def split_none_count(s: STR):
    assume('"' not in s)
    n = 0
    for p in quoted_or_dot(s):
        if p is None:
            n += 1
    m = 0
    for p in s.split('.'):
        m += 1
    check_eq(n, m - 1, 'separators')


@false
def split_none_count_wrong(s: STR):
    assume('"' not in s)
    n = 0
    for p in quoted_or_dot(s):
        if p is None:
            n += 1
    m = 0
    for p in s.split('.'):
        m += 1
    check_eq(n, m, 'separators')


@true
def split_positions(s: STR):
    assume('"' not in s)
    check(all(i % 2 == 0 for i, p in enumerate(quoted_or_dot(s)) if p is not None), 'components at even positions')


@false
def split_positions_wrong(s: STR):
    assume('"' not in s)
    check(all(i % 2 for i, p in enumerate(quoted_or_dot(s)) if p is None and i != 3), 'groups')
    check(not any(i % 2 for i, p in enumerate(quoted_or_dot(s))), 'all even')


@true
def split_plain(s: STR):
    check_eq(', '.join('<' + p + '>' for p in re.split(r'\.', s)), ', '.join('<' + p + '>' for p in s.split('.')), 'the same')


@false
def split_sorted(s: STR):
    check_eq(','.join(sorted(s.split('.'))), ','.join(s.split('.')), 'in order')


@true
def split_free_of_separator(s: STR):
    check(not any('.' in p for p in s.split('.')), 'no separator')


@false
def split_free_of_other(s: STR):
    check(not any('*' in p for p in s.split('.')), 'no asterisk')


@true
def split_at_least_one(s: STR):
    check(len(s.split('.')) > 0, 'one component')


@false
def split_several(s: STR):
    check(len(s.split('.')) > 1, 'several components')


@true
def replace_of_absent(s: STR):
    assume("'" not in s)
    check_eq(s.replace("'", "''"), str(s), 'nothing to replace')


@false
def replace_of_other(s: STR):
    assume('"' not in s)
    check_eq(s.replace("'", "''"), str(s), 'nothing to replace')


# ---------------------------------------------------------------- dictionaries with keys that may repeat
@false
def dictcomp_len(xs: Seq(STR)):
    check(len({x: 1 for x in xs}) == len(xs), 'r')


@false
def dictcomp_iter(xs: Seq(STR)):
    check_eq(','.join({x: 1 for x in xs}), ','.join(xs), 'r')


@false
def dictcomp_items(xs: Seq(STR)):
    check_eq(','.join(k + v for k, v in {x: x for x in xs}.items()), ','.join(x + x for x in xs), 'r')


@false
def dictcomp_values(xs: Seq(STR), c: STR):
    check_eq(','.join({x[:1]: x for x in xs}.values()), ','.join(xs), 'r')


@false
def dict_of_pairs_iter(xs: Seq(STR)):
    check_eq(','.join(dict((x, 1) for x in xs)), ','.join(xs), 'r')


@false
def dict_built_iter(xs: Seq(STR)):
    d = {}
    for x in xs:
        d[x] = x
    check_eq(','.join(d), ','.join(xs), 'r')


@false
def dict_built_len(xs: Seq(STR)):
    d = {}
    for x in xs:
        d[x] = 1
    check(len(d) == len(xs), 'r')


@true
def dict_update_then_set(m: Map(INT), v: INT):
    d = {'a': 0}
    d.update(m)
    d['a'] = v
    check(d['a'] == v, 'r')


@false
def dict_update_then_iter(m: Map(INT), v: INT):
    d = {'a': 0}
    d.update(m)
    check_eq(','.join(d), ','.join(['a'] + [k for k in m]), 'r')


@false
def dict_set_then_iter(m: Map(INT), v: STR):
    d = dict(m)
    d[v] = 1
    check_eq(','.join(d), ','.join([k for k in m] + [v]), 'r')


@true
def dict_set_then_iter_new(m: Map(INT), v: STR):
    d = dict(m)
    assume(v not in d)
    d[v] = 1
    check_eq(','.join(d), ','.join([k for k in m] + [v]), 'r')


@false
def dict_set_keeps(m: Map(INT), v: STR, n: INT):
    d = dict(m)
    assume(v in d)
    d[v] = n
    check(m[v] == n, 'r')


@true
def dict_set_other(m: Map(INT), v: STR, w: STR, n: INT):
    d = dict(m)
    assume(v in m and w != v)
    d[w] = n
    check(d[v] == m[v], 'r')


@true
def dict_built_lookup(xs: Seq(STR), c: STR):
    d = {}
    for x in xs:
        d[x] = x + '!'
    check_eq(d.get(c, c + '!'), c + '!', 'r')


@false
def dict_built_first(xs: Seq(Tup(STR, INT)), c: STR):
    d = {}
    for k, v in xs:
        d[k] = v
    first = next((v for k, v in xs if k == c), None)
    check(d.get(c) == first, 'r')


@true
def dict_built_as_comp(xs: Seq(Tup(STR, INT)), c: STR):
    d = {}
    for k, v in xs:
        d[k] = v
    check(d.get(c) == dict((k, v) for k, v in xs).get(c), 'r')


@false
def dict_built_contains(xs: Seq(STR), c: STR):
    d = {}
    for x in xs:
        if x not in d:
            d[x] = 1
    check(c in d, 'r')


@false
def count_matching(xs: Seq(INT)):
    n = 0
    for x in xs:
        if x == 3:
            n += 1
    check(n == len(xs), 'r')


@true
def count_some(xs: Seq(INT)):
    n = 0
    for x in xs:
        if x == 3:
            n += 1
    check((n > 0) == any(x == 3 for x in xs), 'r')


@true
def count_as_len(xs: Seq(INT)):
    n = 0
    for x in xs:
        if x == 3:
            n += 1
    check(n == len([x for x in xs if x == 3]), 'r')


@false
def count_read(xs: Seq(STR)):
    n = 0
    out = []
    for x in xs:
        if n < 1:
            out.append(x)
        if x == 'a':
            n += 1
    check_eq(','.join(out), ','.join(xs), 'r')


@false
def count_two_steps(xs: Seq(INT)):
    n = 0
    for x in xs:
        if x == 3:
            n += 1
        elif x == 4:
            n += 2
    check(n == len([x for x in xs if x == 3 or x == 4]), 'r')


@false
def count_down(xs: Seq(INT)):
    n = 0
    for x in xs:
        if x == 3:
            n += 1
        else:
            n -= 1
    check(n == len([x for x in xs if x == 3]), 'r')


# ---------------------------------------------------------------- match
@true
def match_kinds(v: Dom('STRINT')):
    match v:
        case str():
            r = 's'
        case int():
            r = 'i'
    check(r == ('s' if isinstance(v, str) else 'i'), 'r')


@true
def match_values(v: STR, w: STR):
    match v:
        case 'a' | 'b':
            r = 1
        case x if x == w:
            r = 2
        case _:
            r = 3
    check(r == (1 if v in ('a', 'b') else 2 if v == w else 3), 'r')


@true
def match_sequence(a: STR, b: STR):
    match (a, b):
        case ('x', y):
            r = y
        case (y, 'x'):
            r = y
        case _:
            r = None
    check(r == (b if a == 'x' else a if b == 'x' else None), 'r')


@true
def match_length(xs: Seq(STR)):
    match xs:
        case []:
            r = 0
        case [x]:
            r = x
        case [x, *rest]:
            r = len(rest)
    check(r == (0 if not xs else xs[0] if len(xs) == 1 else len(xs) - 1), 'r')


@true
def match_string_is_no_sequence(s: STR):
    match s:
        case [x]:
            r = 1
        case _:
            r = 2
    check(r == 2, 'r')


@false
def match_order(v: Dom('STRINT')):
    match v:
        case object():
            r = 1
        case str():
            r = 2
    check(r == (2 if isinstance(v, str) else 1), 'r')


@true
def match_none(v: Dom('STRNONE')):
    match v:
        case None:
            r = 1
        case _:
            r = 2
    check((r == 1) == (v is None), 'r')


@true
def match_mapping(m: Map(INT)):
    match m:
        case {'a': x}:
            r = x
        case {}:
            r = None
    check(r == m.get('a'), 'r')


# ---------------------------------------------------------------- with suppress
@true
def with_suppress(m: Map(INT)):
    import contextlib
    r = None
    with contextlib.suppress(KeyError):
        r = m['a']
    check(r == m.get('a'), 'r')


@false
def with_suppress_other(m: Map(INT)):
    import contextlib
    r = None
    try:
        with contextlib.suppress(ValueError):
            r = m['a']
    except KeyError:
        r = 7
    check(r == m.get('a'), 'r')


@false
def count_one(xs: Seq(INT)):
    n = 0
    for x in xs:
        if x == 3:
            n += 1
    check(n < 2, 'r')


@true
def count_truth(xs: Seq(INT)):
    n = 0
    for x in xs:
        if x == 3:
            n += 1
    check(bool(n) is any(x == 3 for x in xs), 'r')


@false
def kwargs_name(m: Map(INT)):
    def f(a, **k):
        return len(k)
    check(f(1, **m) == len(m), 'r')


@false
def kwargs_name_only(m: Map(INT)):
    def f(*, a=0, **k):
        return len(k)
    check(f(**m) == len(m), 'r')


@true
def kwargs_no_name(m: Map(INT)):
    def f(*a, **k):
        return len(k)
    check(f(1, **m) == len(m), 'r')


@false
def kwargs_given(m: Map(INT)):
    def f(**k):
        return len(k)
    check(f(a=1, **m) == len(m) + 1, 'r')


@true
def loop_first_returns(xs: Seq(STR)):
    def f():
        out = []
        for x in xs:
            out.append(x)
            return out
        return ['none']
    check_eq(f(), xs[:1] or ['none'], 'r')


@true
def loop_invariant_exit(xs: Seq(STR), n: INT):
    def f(flag):
        out = []
        for x in xs:
            if flag:
                return 'x' + ','.join(out)
            out.append(x)
        return ','.join(out)
    check_eq(f(n == 1), ','.join(xs) if n != 1 or not xs else 'x', 'r')


@true
def set_of_constants(xs: Seq(INT)):
    s = set()
    for x in xs:
        if x > 5:
            s.add('b')
        elif x > 3:
            s.add('a')
    check_eq(sorted(s), (['a'] if any(x in (4, 5) for x in xs) else []) + (['b'] if any(x > 5 for x in xs) else []), 'r')


@false
def set_of_constants_dependent(xs: Seq(INT)):
    s = set()
    for x in xs:
        if 'b' in s and x > 3:
            s.add('a')
        if x > 5:
            s.add('b')
    check_eq(sorted(s), (['a'] if any(x > 3 for x in xs) else []) + (['b'] if any(x > 5 for x in xs) else []), 'r')


@false
def set_of_constants_removed(xs: Seq(INT)):
    s = {'b'}
    for x in xs:
        if x > 5:
            s.discard('b')
        else:
            s.add('b')
            s.add('a')
    check_eq(sorted(s), (['a'] if any(x <= 5 for x in xs) else []) + ['b'], 'r')


@true
def set_of_constants_always(xs: Seq(INT)):
    s = {'c'}
    for x in xs:
        s.add('a')
        s.add('c')
    check_eq(sorted(s), ['a', 'c'] if xs else ['c'], 'r')


@false
def set_of_constants_stop(xs: Seq(INT)):
    s = set()
    for x in xs:
        if 'a' in s:
            break
        s.add('a' if x > 3 else 'b')
    check_eq(sorted(s), (['a'] if any(x > 3 for x in xs) else []) + (['b'] if any(x <= 3 for x in xs) else []), 'r')


@true
def set_of_nested_keys(rows: Seq(Map(STR))):
    s = set()
    for r in rows:
        for c in r:
            s.add(c)
    check_eq(','.join(sorted(s)), ','.join(sorted({c for r in rows for c in r})), 'r')


@false
def set_of_nested_keys_filtered(rows: Seq(Map(STR))):
    check_eq(','.join(sorted({c for r in rows for c in r if c != 'a'})), ','.join(sorted({c for r in rows for c in r})), 'r')


@false
def list_of_nested_keys(rows: Seq(Map(STR))):
    check_eq(','.join(sorted(c for r in rows for c in r)), ','.join(sorted({c for r in rows for c in r})), 'r')


@false
def set_of_nested_values(rows: Seq(Map(STR))):
    check_eq(','.join(sorted({r[c] for r in rows for c in r})), ','.join(sorted({c for r in rows for c in r})), 'r')


@false
def sorted_two_keys_len(d: Map(STR), e: Map(STR)):
    check(len(sorted({k for m in (d, e) for k in m})) == len(d) + len(e), 'r')


@true
def sorted_two_lists_len(d: Seq(STR), e: Seq(STR)):
    check(len(sorted([*d, *e])) == len(d) + len(e), 'r')


@true
def sorted_two_lists(d: Seq(STR), e: Seq(STR)):
    check_eq(sorted([*d, *e]), sorted(list(e) + list(d)), 'r')


@false
def sorted_two_lists_order(d: Seq(STR), e: Seq(STR)):
    check_eq(sorted([*d, *e]), sorted(d) + sorted(e), 'r')


@false
def sorted_set_empty(rows: Seq(Map(STR))):
    check(bool(sorted({c for r in rows for c in r})) is bool(rows), 'r')


@true
def sorted_set_some(rows: Seq(Map(STR))):
    check(bool(sorted({c for r in rows for c in r})) is any(r for r in rows), 'r')


@true
def lookup_sorted(d: Map(STR), k: STR):
    e = dict(sorted(d.items()))
    check_eq(e.get(k, 'none'), d.get(k, 'none'), 'r')


@false
def lookup_sorted_values(d: Map(STR), k: STR):
    e = dict((v, c) for c, v in sorted(d.items()))
    f = dict((v, c) for c, v in d.items())
    check_eq(e.get(k, 'none'), f.get(k, 'none'), 'r')


@false
def nested_filter(rows: Seq(Map(STR))):
    check(len([r for r in rows if r]) == len(rows), 'r')


@true
def nested_lookup(rows: Seq(Map(STR)), k: STR):
    check_eq([r[k] if k in r else '' for r in rows], [r.get(k, '') for r in rows], 'r')


@false
def nested_lookup_other(rows: Seq(Map(STR)), k: STR):
    check_eq([r[k] if k in r else '' for r in rows], [rows[0].get(k, '') for r in rows], 'r')
