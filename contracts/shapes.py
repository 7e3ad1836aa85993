"""C08: argument shapes."""
from vlib import *  # noqa
from sqlpuzzle.exceptions import InvalidArgumentException
from contracts.common import rejects, cond_text

C = sqlpuzzle.C


def find_parser():
    """The normalisation of arguments, if it is (still) called with a dictionary of options first."""
    try:
        from sqlpuzzle._common import parse_args as parser
        parser({'min_items': 1, 'max_items': 2, 'allow_dict': True, 'allow_list': True}, 'a', b='c')
    except (ImportError, TypeError):
        return None
    return parser


parse_args = find_parser()


def same(a, b):
    return type(a) is type(b) and a == b


def by_key(item):
    return item[0]


def is_item(x):
    return isinstance(x, (list, tuple))


def filled(item, lo, hi):
    """Entry of fixed width hi."""
    if len(item) < lo or len(item) > hi:
        raise Invalid()
    return tuple(item) + (None,) * (hi - len(item))


def meant(lo, hi, with_dict, with_list, args, kwds):
    """Entries meant by the arguments; Invalid if the call has to be refused."""
    one_dict = len(args) == 1 and isinstance(args[0], dict)
    if (one_dict or kwds) and not with_dict:
        raise Invalid()
    if lo > 1 and args and not is_item(args[0]) and lo <= len(args) <= hi:
        items = [args]
    elif with_list and len(args) == 1 and is_item(args[0]):
        items = args[0]
    elif one_dict:
        items = []
    else:
        items = [x if is_item(x) else (x,) for x in args]
    out = []
    for x in items:
        out.append(filled(x if is_item(x) else (x,), lo, hi))
    if one_dict:
        for item in sorted(args[0].items(), key=by_key):
            out.append(filled(item, lo, hi))
    for k in sorted(kwds):
        out.append(filled((k, kwds[k]), lo, hi))
    return out


def options(lo, hi, with_dict, with_list):
    return {'min_items': lo, 'max_items': hi, 'allow_dict': with_dict, 'allow_list': with_list}


def agrees(lo, hi, with_dict, with_list, args, kwds):
    try:
        expected = meant(lo, hi, with_dict, with_list, args, kwds)
    except Invalid:
        check(rejects(InvalidArgumentException, parse_args, options(lo, hi, with_dict, with_list), *args, **kwds), 'refused')
        return
    check_eq(list(parse_args(options(lo, hi, with_dict, with_list), *args, **kwds)), expected, 'entries')


SIZES = Choice((1, 1), (1, 2), (2, 2), (1, 3), (2, 3), (3, 3))


@prop('C08', skip=parse_args is None)
def arguments_none(sizes: SIZES, with_dict: BOOL, with_list: BOOL):
    lo, hi = sizes
    assume(not with_dict or hi > 1)
    agrees(lo, hi, with_dict, with_list, (), {})


@prop('C08', skip=parse_args is None)
def arguments_one(sizes: SIZES, with_dict: BOOL, with_list: BOOL, a: ITEM):
    lo, hi = sizes
    assume(not with_dict or hi > 1)
    assume(not (with_list and is_item(a)))
    agrees(lo, hi, with_dict, with_list, (a,), {})


@prop('C08', skip=parse_args is None)
def arguments_two(sizes: SIZES, with_dict: BOOL, with_list: BOOL, a: ITEM, b: ITEM):
    lo, hi = sizes
    assume(not with_dict or hi > 1)
    agrees(lo, hi, with_dict, with_list, (a, b), {})


THREE = {k: Dom('STRTUP') for k in 'abc'}


@prop('C08', sym=dict(THREE, sizes=Choice((1, 2), (2, 2), (2, 3))), budget=3, skip=parse_args is None)
def arguments_three(sizes: SIZES, with_dict: BOOL, with_list: BOOL, a: ITEM, b: ITEM, c: ITEM):
    lo, hi = sizes
    assume(not with_dict or hi > 1)
    agrees(lo, hi, with_dict, with_list, (a, b, c), {})


@prop('C08', sym={'sizes': Choice((1, 1), (1, 2), (1, 3)), 'with_list': Choice(False), 'args': Seq(Dom('STRTUP'))}, budget=3, skip=parse_args is None)
def arguments_many(sizes: SIZES, with_dict: BOOL, with_list: BOOL, args: Seq(ITEM)):
    """Any number of arguments."""
    lo, hi = sizes
    assume(not with_dict or hi > 1)
    agrees(lo, hi, with_dict, with_list, args, {})


@prop('C08', sym={'items': Seq(Dom('STRTUP'))}, budget=3, skip=parse_args is None)
def arguments_listed(sizes: SIZES, with_dict: BOOL, items: Seq(ITEM), kind: Choice('list', 'tuple')):
    """One list of items."""
    lo, hi = sizes
    assume(not with_dict or hi > 1)
    agrees(lo, hi, with_dict, True, (items if kind == 'list' else tuple(items),), {})


@prop('C08', skip=parse_args is None)
def arguments_dict(sizes: SIZES, with_dict: BOOL, with_list: BOOL, d: Map(ITEM)):
    lo, hi = sizes
    assume(not with_dict or hi > 1)
    agrees(lo, hi, with_dict, with_list, (d,), {})


@prop('C08', sym=dict(a=Dom('STRTUP'), b=Dom('STRTUP'), v=STR), budget=3, skip=parse_args is None)
def arguments_kwds(sizes: SIZES, with_dict: BOOL, with_list: BOOL, a: ITEM, b: ITEM, v: ITEM, n: Choice(0, 1, 2)):
    """Positional arguments first, then the keywords in sorted order."""
    lo, hi = sizes
    assume(not with_dict or hi > 1)
    agrees(lo, hi, with_dict, with_list, (a, b)[:n], {'y': v, 'x': b})


@prop('C08', sym=False, skip=parse_args is None)
def arguments_any(sizes: SIZES, with_dict: BOOL, with_list: BOOL, args: Seq(ANY), d: Map(ANY), kwds: Map(ANY), form: Choice('args', 'dict', 'list')):
    lo, hi = sizes
    assume(not with_dict or hi > 1)
    assume('self' not in kwds)
    if form == 'dict':
        args = [d]
    elif form == 'list':
        args = [args]
    agrees(lo, hi, with_dict, with_list, tuple(args), kwds)


# ------------------------------------------------------------------ the builders
def where(q, *args, **kwds):
    return q.where(*args, **kwds)


def query(kind):
    """(query, text before the entries)"""
    if kind == 'columns':
        return sqlpuzzle.select(), 'SELECT '
    if kind == 'from':
        return sqlpuzzle.select(C('x')), 'SELECT x FROM '
    if kind == 'where':
        return sqlpuzzle.select(C('x')), 'SELECT x WHERE '
    if kind == 'having':
        return sqlpuzzle.select(C('x')), 'SELECT x HAVING '
    if kind == 'on':
        return sqlpuzzle.select(C('x')).from_('t').join('u'), 'SELECT x FROM ' + REF('t') + ' JOIN ' + REF('u') + ' ON '
    if kind == 'delete':
        return sqlpuzzle.delete_from(C('t')).allow_delete_all(), 'DELETE FROM t WHERE '
    if kind == 'update':
        return sqlpuzzle.update(C('t')).set(C('y')).allow_update_all(), 'UPDATE t SET y WHERE '
    if kind == 'set':
        return sqlpuzzle.update(C('t')).allow_update_all(), 'UPDATE t SET '
    if kind == 'order':
        return sqlpuzzle.select(C('x')), 'SELECT x ORDER BY '
    return sqlpuzzle.select(C('x')), 'SELECT x GROUP BY '


def call(kind, q, *args, **kwds):
    if kind == 'columns':
        return q.columns(*args, **kwds)
    if kind == 'from':
        return q.from_(*args, **kwds)
    if kind == 'having':
        return q.having(*args, **kwds)
    if kind == 'on':
        return q.on(*args, **kwds)
    if kind == 'set':
        return q.set(*args, **kwds)
    if kind == 'order':
        return q.order_by(*args, **kwds)
    if kind == 'group':
        return q.group_by(*args, **kwds)
    return q.where(*args, **kwds)


def value_of(kind, x):
    """Second item of an entry, made of a string and usable in the position."""
    if kind in ('order', 'group'):
        return 'desc'
    return x


def entry_text(kind, a, x):
    if kind in ('columns', 'from'):
        return REF(a) + ' AS ' + REF(x)
    if kind in ('order', 'group'):
        return REF(a) + ' DESC'
    if kind == 'on':
        return REF(a) + ' = ' + REF(x)
    return REF(a) + ' = ' + VAL(x)


def sep(kind):
    return ' AND ' if kind in ('where', 'having', 'delete', 'update', 'on') else ', '


KIND = Choice('columns', 'from', 'where', 'having', 'on', 'delete', 'update', 'set', 'order', 'group')
PAIRS = Choice('where', 'having', 'on', 'delete', 'update', 'set')


@prop('C08')
def shapes_of_two(kind: KIND, a: STR, b: STR, x: STR, y: STR, form: Choice('tuples', 'lists', 'mixed', 'dict', 'turned', 'calls', 'chain')):
    """Two entries in every shape."""
    assume(a < b)
    assume(x != '' and y != '' and not (kind == 'on' and a == y and b == x))
    v, w = value_of(kind, x), value_of(kind, y)
    q, text = query(kind)
    if form == 'tuples':
        call(kind, q, (a, v), (b, w))
    elif form == 'lists':
        call(kind, q, [a, v], [b, w])
    elif form == 'mixed':
        call(kind, q, [a, v], (b, w))
    elif form == 'dict':
        call(kind, q, {a: v, b: w})
    elif form == 'turned':
        call(kind, q, {b: w, a: v})
    elif form == 'calls':
        call(kind, q, {a: v})
        call(kind, q, {b: w})
    else:
        call(kind, call(kind, q, {a: v}), {b: w})
    text += entry_text(kind, a, x) + sep(kind) + entry_text(kind, b, y)
    if kind == 'set' or kind == 'update' or kind == 'delete':
        check_eq(str(q), text, 'both entries')
    else:
        check_eq(str(q.limit(1)), text + ' LIMIT 1', 'both entries')


@prop('C08')
def shapes_of_pairs(kind: PAIRS, a: STR, b: STR, x: STR, y: STR, form: Choice('args', 'list', 'tuple', 'listlist', 'kwds')):
    """Shapes of the methods that take pairs."""
    assume(a != b)
    assume(kind != 'on' or REF(x) != '' and REF(y) != '' and not (a == y and b == x))
    q, text = query(kind)
    if form == 'args':
        call(kind, q, a, x)
        call(kind, q, b, y)
    elif form == 'list':
        call(kind, q, [(a, x), (b, y)])
    elif form == 'tuple':
        call(kind, q, ((a, x), (b, y)))
    elif form == 'listlist':
        call(kind, q, [[a, x], [b, y]])
    else:
        assume(b > 'k')
        call(kind, q, a, x, z=y, k=x)
        assume(a != 'k' and a != 'z' and x != 'k' and x != 'z')
        check_eq(str(q), text + entry_text(kind, a, x) + sep(kind) + entry_text(kind, 'k', x) + sep(kind) + entry_text(kind, 'z', y), 'keywords after the positional entry')
        return
    check_eq(str(q), text + entry_text(kind, a, x) + sep(kind) + entry_text(kind, b, y), 'both entries')


@prop('C08')
def shapes_of_names(kind: Choice('columns', 'from', 'order', 'group'), a: STR, b: STR, c: STR, form: Choice('args', 'tuples', 'both', 'calls', 'kwds')):
    """Shapes of the methods whose second item is optional."""
    assume(a != b and b != c and a != c)
    assume(kind != 'from' or a != '' and b != '' and c != '')
    q, text = query(kind)
    third = REF(c)
    if form == 'args':
        call(kind, q, a, b, c)
    elif form == 'tuples':
        call(kind, q, (a,), [b], (c, None))
    elif form == 'both':
        call(kind, q, a, [b], c)
    elif form == 'calls':
        call(kind, q, a)
        call(kind, q, b)
        call(kind, q, (c,))
    else:
        assume(a != 'k' and b != 'k')
        call(kind, q, a, b, k='desc' if kind in ('order', 'group') else 'l')
        third = REF('k') + (' DESC' if kind in ('order', 'group') else ' AS ' + REF('l'))
    q.limit(1)
    check_eq(str(q), text + REF(a) + ', ' + REF(b) + ', ' + third + ' LIMIT 1', 'all entries')


@prop('C08')
def keywords_as_dictionary(kind: Choice('columns', 'from', 'where', 'having', 'on', 'delete', 'update', 'set', 'order', 'group', 'values', 'select', 'delete_from', 'Q', 'not'), m: Map(STR)):
    """Keyword arguments of any names mean the same as the dictionary of them."""
    assume('self' not in m)
    if kind in ('order', 'group'):
        m = {k: 'desc' for k in m}
    q, _ = query(kind)
    p, _ = query(kind)
    if kind == 'columns':
        q.columns(**m), p.columns(m)
    elif kind == 'from':
        q.from_(**m), p.from_(m)
    elif kind == 'having':
        q.having(**m), p.having(m)
    elif kind == 'on':
        q.on(**m), p.on(m)
    elif kind == 'set':
        q.set(**m), p.set(m)
    elif kind == 'order':
        q.order_by(**m), p.order_by(m)
    elif kind == 'group':
        q.group_by(**m), p.group_by(m)
    elif kind == 'values':
        q, p = sqlpuzzle.insert_into(C('t')).values(**m), sqlpuzzle.insert_into(C('t')).values(m)
    elif kind == 'select':
        q, p = sqlpuzzle.select(**m), sqlpuzzle.select(m)
    elif kind == 'delete_from':
        q, p = sqlpuzzle.delete_from(**m).allow_delete_all(), sqlpuzzle.delete_from(m).allow_delete_all()
    elif kind == 'Q':
        q, p = sqlpuzzle.Q(**m), sqlpuzzle.Q(m)
    elif kind == 'not':
        q, p = sqlpuzzle.Not(**m), sqlpuzzle.Not(m)
    else:
        q.where(**m), p.where(m)
    check_eq(str(q), str(p), 'the same')


@prop('C08', 'C16')
def items_of_wrong_size(kind: KIND, item: Seq(STR), form: Choice('list', 'tuple'), place: Choice('only', 'first', 'last', 'listed')):
    """Too many or too few items are refused and change nothing."""
    lo = 1 if kind in ('columns', 'from', 'order', 'group') else 2
    assume(len(item) < lo or len(item) > 2)
    q, text = query(kind)
    q2, _ = query(kind)
    x = item if form == 'list' else tuple(item)
    good = ('a', value_of(kind, 'b'))
    if place == 'listed':
        assume(lo == 2)
        args = ([good, x],)
    elif place == 'only':
        assume(lo == 1)
        assume(kind != 'from' or len(item) > 0)
        args = (x,)
    elif place == 'first':
        assume(kind != 'from' or len(item) > 0)
        args = (x, good)
    else:
        assume(kind != 'from' or len(item) > 0)
        args = (good, x)
    check(rejects(InvalidArgumentException, call, kind, q, *args), 'refused')
    check_eq(str(q), str(q2), 'unchanged')


@prop('C08')
def loose_pairs(kind: PAIRS, args: Seq(STR)):
    """Loose positional arguments mean a pair only if there are two of them."""
    assume(len(args) != 2 and len(args) > 0)
    q, _ = query(kind)
    check(rejects(InvalidArgumentException, call, kind, q, *args), 'refused')


@prop('C08')
def empty_tables(t: STR, a: STR, none: Choice(None, '', (), [], 0), place: Choice('before', 'after', 'between', 'alone')):
    """Empty table arguments are ignored."""
    assume(t != '' and a != '' and t != a)
    q = sqlpuzzle.select(C('x'))
    if place == 'before':
        q.from_(none, t)
    elif place == 'after':
        q.from_(t, none)
    elif place == 'between':
        q.from_(t, none, a)
    else:
        q.from_(none)
        check_eq(str(q), 'SELECT x', 'ignored')
        q.from_(t)
    q.limit(1)
    check_eq(str(q), 'SELECT x FROM ' + REF(t) + (', ' + REF(a) if place == 'between' else '') + ' LIMIT 1', 'ignored')


@prop('C08', 'C09')
def many_columns(names: Seq(Dom('STRINT')), kind: Choice('columns', 'order', 'group')):
    """Any number of positional names."""
    assume(len(names) > 0)
    q, text = query(kind)
    call(kind, q, *names)
    q.limit(1)
    known = []
    for x in names:
        if not any(same(x, k) for k in known):
            known.append(x)
    check_eq(str(q), text + ', '.join(REF(k) for k in known) + ' LIMIT 1', 'all names')


@prop('C08', 'C09')
def dict_of_pairs(kind: PAIRS, d: Map(Dom('INT'))):
    """Dictionary of any size, sorted by key."""
    assume(any(True for k in d))
    q, text = query(kind)
    call(kind, q, d)
    check_eq(str(q), (text + sep(kind).join(REF(k) + ' = ' + VAL(v) for k, v in sorted(d.items(), key=by_key))).strip(), 'all entries')


@prop('C08')
def entry_points(kind: Choice('select', 'select_from', 'delete_from', 'Q'), a: STR, b: STR, x: STR, y: STR, form: Choice('tuples', 'dict', 'kwds', 'both')):
    """The functions of the package take the same shapes as the methods."""
    assume(a < b and x != '' and y != '')
    if form == 'kwds' or form == 'both':
        b = 'k'
        assume(a < b)
    f = {'select': sqlpuzzle.select, 'select_from': sqlpuzzle.select_from, 'delete_from': sqlpuzzle.delete_from, 'Q': sqlpuzzle.Q}[kind]
    if form == 'tuples':
        made = f((a, x), (b, y))
    elif form == 'dict':
        made = f({b: y, a: x})
    elif form == 'both':
        made = f({a: x}, k=y)
    else:
        a = 'j'
        made = f(k=y, j=x)
    if kind == 'Q':
        check_eq(str(made), REF(a) + ' = ' + VAL(x) + ' AND ' + REF(b) + ' = ' + VAL(y), 'conditions')
        return
    names = REF(a) + ' AS ' + REF(x) + ', ' + REF(b) + ' AS ' + REF(y)
    if kind == 'select':
        check_eq(str(made.limit(1)), 'SELECT ' + names + ' LIMIT 1', 'columns')
    elif kind == 'select_from':
        check_eq(str(made.limit(1)), 'SELECT * FROM ' + names + ' LIMIT 1', 'tables')
    else:
        check_eq(str(made.where('z', 1)), 'DELETE FROM ' + names + ' WHERE ' + REF('z') + ' = 1', 'tables')


@prop('C08')
def entry_points_names(kind: Choice('select', 'select_from', 'delete_from', 'delete', 'update', 'insert'), a: STR, b: STR):
    assume(a != b and a != '' and b != '')
    if kind == 'select':
        check_eq(str(sqlpuzzle.select(a, b).limit(1)), 'SELECT ' + REF(a) + ', ' + REF(b) + ' LIMIT 1', 'columns')
    elif kind == 'select_from':
        check_eq(str(sqlpuzzle.select_from(a, b).limit(1)), 'SELECT * FROM ' + REF(a) + ', ' + REF(b) + ' LIMIT 1', 'tables')
    elif kind == 'delete_from':
        check_eq(str(sqlpuzzle.delete_from(a, b).where('z', 1)), 'DELETE FROM ' + REF(a) + ', ' + REF(b) + ' WHERE ' + REF('z') + ' = 1', 'tables')
    elif kind == 'delete':
        check_eq(str(sqlpuzzle.delete(a, b).from_(C('u')).where('z', 1)), 'DELETE ' + REF(a) + ', ' + REF(b) + ' FROM u WHERE ' + REF('z') + ' = 1', 'tables')
    elif kind == 'update':
        check_eq(str(sqlpuzzle.update(a).set(b, 1).where('z', 1)), 'UPDATE ' + REF(a) + ' SET ' + REF(b) + ' = 1 WHERE ' + REF('z') + ' = 1', 'table')
    else:
        check_eq(str(sqlpuzzle.insert_into(a).values(b, 1)), 'INSERT INTO ' + REF(a) + ' (' + REF(b) + ') VALUES (1)', 'table')
        check_eq(str(sqlpuzzle.insert().into(a).values({b: 1})), 'INSERT INTO ' + REF(a) + ' (' + REF(b) + ') VALUES (1)', 'table')


@prop('C08')
def custom_with_keywords(kind: KIND, s: STR, x: STR):
    """Custom SQL together with keywords: refused or everything is rendered."""
    assume(x != '' and s != '')
    q, text = query(kind)
    try:
        call(kind, q, C(s), k=value_of(kind, x))
    except InvalidArgumentException:
        check(kind not in ('columns', 'from', 'order', 'group'), 'refused')
        return
    text += s + sep(kind) + entry_text(kind, 'k', x)
    if kind == 'set' or kind == 'update' or kind == 'delete':
        check_eq(str(q), text, 'both')
    else:
        check_eq(str(q.limit(1)), text + ' LIMIT 1', 'both')
