"""C17: comparison of queries and SQL objects."""
from vlib import *  # noqa
from contracts.joins import TYPES, TYPE

C = sqlpuzzle.C

STRSQL, VALSQL = Dom('STRSQL'), Dom('VALSQL')


def same(x, y):
    """The same content: of one type, SQL objects by their text and everything else by its value."""
    if type(x) is not type(y):
        return False
    if is_sql(x):
        return TEXT(x) == TEXT(y)
    return x == y


def agree(a, b, expected, label):
    """a and b compare as expected, whichever is on the left."""
    check((a == b) == expected, label)
    check((b == a) == expected, label + ', swapped')
    check((a != b) == (not expected), label + ', inequality')


@prop('C17')
def eq_columns(c1: Dom('COLSQL'), a1: Dom('ALIAS'), c2: Dom('COLSQL'), a2: Dom('ALIAS'), again: BOOL):
    if again:
        c2 = c1
    agree(sqlpuzzle.select((c1, a1)), sqlpuzzle.select((c2, a2)), same(c1, c2) and same(a1, a2), 'columns')


@prop('C17')
def eq_column_order(c1: STR, c2: STR, d1: STR, d2: STR, again: BOOL):
    if again:
        d1, d2 = c2, c1
    assume(c1 != c2 and d1 != d2)
    q = sqlpuzzle.select(c1).columns(c2)
    agree(q, sqlpuzzle.select(d1, d2), c1 == d1 and c2 == d2, 'two columns')
    agree(q, sqlpuzzle.select(c1), False, 'one column less')
    agree(sqlpuzzle.select(), sqlpuzzle.select(c1), False, 'no columns')


@prop('C17')
def eq_tables(t1: STRSQL, a1: Dom('ALIAS'), t2: STRSQL, a2: Dom('ALIAS'), again: BOOL, kind: Choice('select', 'delete', 'update')):
    if again:
        t2 = t1
    if kind == 'select':
        q, r = sqlpuzzle.select_from((t1, a1)), sqlpuzzle.select_from((t2, a2))
    elif kind == 'delete':
        q, r = sqlpuzzle.delete().from_((t1, a1)), sqlpuzzle.delete().from_((t2, a2))
    else:
        a1 = a2 = None
        q, r = sqlpuzzle.update(t1), sqlpuzzle.update(t2)
    agree(q, r, same(t1, t2) and same(a1, a2), 'tables')


@prop('C17', sym={'c1': STR})
def eq_conditions(kind: Choice('where', 'having'), c1: STRSQL, v1: Dom('CONDSQL'), c2: STRSQL, v2: Dom('CONDSQL'), again: Choice('', 'column', 'value', 'both')):
    if again in ('column', 'both'):
        c2 = c1
    if again in ('value', 'both'):
        v2 = v1
    if kind == 'where':
        q, r = sqlpuzzle.select().where(c1, v1), sqlpuzzle.select().where(c2, v2)
    else:
        q, r = sqlpuzzle.select().having(c1, v1), sqlpuzzle.select().having(c2, v2)
    agree(q, r, same(c1, c2) and same(v1, v2), 'conditions')
    agree(q, sqlpuzzle.select(), False, 'no condition')


@prop('C17')
def eq_relations(c: STR, v1: Dom('STRINT'), v2: Dom('STRINT'), a: Choice('EQ', 'NE', 'GT', 'GE', 'LT', 'LE', 'LIKE'), b: Choice('EQ', 'NE', 'GT', 'GE', 'LT', 'LE'), again: BOOL):
    if again:
        v2 = v1
    if a == 'LIKE':
        v1 = c
    q = sqlpuzzle.delete_from('t').where(c, getattr(sqlpuzzle.relations, a)(v1))
    r = sqlpuzzle.delete_from('t').where(c, getattr(sqlpuzzle.relations, b)(v2))
    agree(q, r, a == b and same(v1, v2), 'relations')
    agree(q, sqlpuzzle.delete_from('t').where(c, v1), a == 'EQ', 'bare value')


@prop('C17')
def eq_list_values(kind: Choice('where', 'having'), c: STR, a: Seq(Dom('INTBOOL')), b: Seq(Dom('INTBOOL'))):
    """Lists are the same when they have the same elements of the same types."""
    assume(len(a) > 0 and len(b) > 0)
    q, r = sqlpuzzle.select(), sqlpuzzle.select()
    if kind == 'where':
        q.where(c, a)
        r.where(c, b)
    else:
        q.having(c, a)
        r.having(c, b)
    agree(q, r, len(a) == len(b) and all(same(x, y) for x, y in zip(a, b)), 'lists')


@prop('C17')
def eq_list_elements(c: STR, x: VALSQL, y: VALSQL, z: VALSQL, again: BOOL):
    if again:
        y = x
    q = sqlpuzzle.select().where(c, [z, x])
    agree(q, sqlpuzzle.select().where(c, [z, y]), same(x, y), 'second element')
    agree(q, sqlpuzzle.select().where(c, (z, x)), True, 'list and tuple')
    agree(q, sqlpuzzle.select().where(c, [z]), False, 'one element less')


@prop('C17')
def eq_assignments(kind: Choice('set', 'values'), c1: STRSQL, v1: VALSQL, c2: STRSQL, v2: VALSQL, again: Choice('', 'column', 'value', 'both')):
    if again in ('column', 'both'):
        c2 = c1
    if again in ('value', 'both'):
        v2 = v1
    if kind == 'set':
        q, r = sqlpuzzle.update('t').set(c1, v1), sqlpuzzle.update('t').set(c2, v2)
    else:
        q, r = sqlpuzzle.insert_into('t').values(c1, v1), sqlpuzzle.insert_into('t').values(c2, v2)
    agree(q, r, same(c1, c2) and same(v1, v2), 'assigned')


@prop('C17')
def eq_rows(c: STR, d: STR, v: INT, w: INT):
    """Rows, not their values, are compared."""
    assume(c < d)
    q = sqlpuzzle.insert_into('t').values({c: v}).values({d: w})
    agree(q, sqlpuzzle.insert_into('t').values(c, v).values(d, w), True, 'two rows')
    agree(q, sqlpuzzle.insert_into('t').values({c: v, d: w}), False, 'one row')
    agree(q, sqlpuzzle.insert_into('t').values({d: w}).values({c: v}), False, 'other order')


@prop('C17')
def eq_conflict(backend: Choice('mysql', 'postgresql', 'sqlite'), c: STR, k1: STR, k2: STR, v1: VALSQL, v2: VALSQL, again: BOOL):
    configure(backend)
    if again:
        v2 = v1
    q, r = sqlpuzzle.insert_into('t').values('a', 1), sqlpuzzle.insert_into('t').values('a', 1)
    plain = sqlpuzzle.insert_into('t').values('a', 1)
    if backend == 'postgresql':
        q.on_duplicate_key_update(k1, {c: v1})
        r.on_duplicate_key_update(k2, {c: v2})
        agree(q, r, REF(k1) == REF(k2) and same(v1, v2), 'conflict')
    elif backend == 'mysql':
        q.on_duplicate_key_update({c: v1})
        r.on_duplicate_key_update({c: v2})
        agree(q, r, same(v1, v2), 'duplicate key')
    else:
        q.on_duplicate_key_update()
        r.on_duplicate_key_update()
        agree(q, r, True, 'replace')
    agree(q, plain, False, 'no conflict clause')


SORT = Choice('asc', 'desc', 'ASC', 'Desc', None)


@prop('C17')
def eq_orderings(kind: Choice('order', 'group'), c1: Dom('COLSQL'), s1: SORT, c2: Dom('COLSQL'), s2: SORT, again: BOOL):
    if again:
        c2 = c1
    q, r = sqlpuzzle.select(), sqlpuzzle.select()
    if kind == 'order':
        q.order_by((c1, s1))
        r.order_by((c2, s2))
    else:
        q.group_by((c1, s1))
        r.group_by((c2, s2))
    agree(q, r, same(c1, c2) and (s1 in ('desc', 'Desc')) == (s2 in ('desc', 'Desc')), 'orderings')


@prop('C17')
def eq_limits(l1: INTNONE, o1: INTNONE, l2: INTNONE, o2: INTNONE, again: Choice('', 'limit', 'offset', 'both')):
    if again in ('limit', 'both'):
        l2 = l1
    if again in ('offset', 'both'):
        o2 = o1
    q, r = sqlpuzzle.select().limit(l1).offset(o1), sqlpuzzle.select().limit(l2).offset(o2)
    agree(q, r, l1 == l2 and (o1 or None) == (o2 or None), 'limits')
    agree(q, sqlpuzzle.select(), l1 is None and not o1, 'no limit')
    agree(q.limit(None), sqlpuzzle.select(), True, 'limit cleared')


OPTIONS = ('sql_cache', 'sql_no_cache', 'all', 'distinct', 'distinctrow', 'sql_small_result', 'sql_big_result', 'sql_buffer_result',
           'sql_calc_found_rows', 'straight_join', 'high_priority', 'for_update')


@prop('C17', budget=2)
def eq_options(a: Choice(*OPTIONS), b: Choice(*OPTIONS), allow: BOOL, by_call: BOOL):
    q, r = sqlpuzzle.select(), sqlpuzzle.select()
    getattr(q, a)()
    getattr(r, b)(allow)
    agree(q, r, a == b and allow, 'options')
    agree(r, sqlpuzzle.select(), not allow, 'option and none')


@prop('C17')
def eq_insert_options(allow: BOOL, s: STR):
    q = sqlpuzzle.insert_into('t').values('a', s)
    r = sqlpuzzle.insert_into('t').values('a', s)
    agree(q, r, True, 'inserts')
    r.ignore(allow)
    agree(q, r, not allow, 'ignore')


OUTFILE = ('into_outfile', 'fields_terminated_by', 'lines_terminated_by', 'optionally_enclosed_by')


@prop('C17')
def eq_outfile(which: Choice(*OUTFILE), x: STRSQL, y: STRSQL, again: BOOL):
    if again:
        y = x
    q, r = sqlpuzzle.select(), sqlpuzzle.select()
    if which == 'into_outfile':
        q.into_outfile(x)
        r.into_outfile(y)
    else:
        getattr(q.into_outfile('f'), which)(x)
        getattr(r.into_outfile('f'), which)(y)
        agree(q, sqlpuzzle.select().into_outfile('f'), False, 'no setting')
    agree(q, r, same(x, y), 'outfile')
    agree(q, sqlpuzzle.select(), False, 'no outfile')


@prop('C17')
def eq_joins(k1: TYPE, k2: TYPE, t1: STRSQL, t2: STRSQL, a1: STRNONE, a2: STRNONE, again: BOOL):
    if again:
        t2 = t1
    q, r = sqlpuzzle.select_from('t'), sqlpuzzle.select_from('t')
    getattr(q, k1)((t1, a1))
    getattr(r, k2)((t2, a2))
    agree(q, r, TYPES[k1] == TYPES[k2] and same(t1, t2) and same(a1, a2), 'joins')
    agree(q, sqlpuzzle.select_from('t'), False, 'no join')


FLIPPED = {'EQ': 'EQ', 'NE': 'NE', 'GT': 'LT', 'LT': 'GT', 'GE': 'LE', 'LE': 'GE'}


@prop('C17', sym={'v2': STR})
def eq_join_conditions(c1: STR, v1: Dom('STRINT'), c2: STR, v2: Dom('STRINT'), a: Choice(*sorted(FLIPPED)), b: Choice(*sorted(FLIPPED)), again: Choice('', 'same', 'mirrored')):
    """ON conditions: a > b is the same as b < a."""
    if again == 'same':
        c2, v2 = c1, v1
    elif again == 'mirrored' and isinstance(v1, str):
        c2, v2 = v1, c1
    q, r = sqlpuzzle.select_from('t').join('u'), sqlpuzzle.select_from('t').join('u')
    q.on(c1, getattr(sqlpuzzle.relations, a)(v1))
    agree(q, r, False, 'no condition')
    r.on(c2, getattr(sqlpuzzle.relations, b)(v2))
    alike = a == b and c1 == c2 and same(v1, v2)
    mirrored = FLIPPED[a] == b and isinstance(v1, str) and same(v1, c2) and same(v2, c1)
    agree(q, r, alike or mirrored, 'conditions')


@prop('C17')
def eq_unions(s1: STR, s2: STR, u1: STR, u2: STR, k1: Choice('&', '|'), k2: Choice('&', '|'), again: BOOL):
    if again:
        u1, u2 = s1, s2
    a, b, c, d = sqlpuzzle.select(s1), sqlpuzzle.select(s2), sqlpuzzle.select(u1), sqlpuzzle.select(u2)
    q = a & b if k1 == '&' else a | b
    r = c & d if k2 == '&' else c | d
    agree(q, r, k1 == k2 and s1 == u1 and s2 == u2, 'unions')
    agree(q, a, False, 'union and select')


@prop('C17')
def eq_kinds(s: STR, k1: Choice('select', 'delete', 'update', 'insert'), k2: Choice('select', 'delete', 'update', 'insert')):
    """Statements of different kinds are never equal."""
    def make(kind):
        if kind == 'select':
            return sqlpuzzle.select_from(s).where('a', 1)
        if kind == 'delete':
            return sqlpuzzle.delete_from(s).where('a', 1)
        if kind == 'update':
            return sqlpuzzle.update(s).set('a', 1)
        return sqlpuzzle.insert_into(s).values('a', 1)
    agree(make(k1), make(k2), k1 == k2, 'kinds')
    agree(make(k1), None, False, 'none')
    agree(make(k1), 1, False, 'number')


def full(s, t, u):
    """A select with every clause."""
    q = sqlpuzzle.select(s).from_table(t).left_join('j').on('a', 'b').where('w', u).group_by('g').having('h', u)
    return q.order_by(s).limit(3, 2).into_outfile('f').distinct()


CHANGES = ('columns', 'from_', 'where', 'group_by', 'having', 'order_by', 'limit', 'offset', 'join', 'on', 'all', 'for_update', 'into_outfile')


@prop('C17', budget=2)
def eq_change(s: STR, t: STR, u: STR, change: Choice(*CHANGES)):
    """A query is equal to one built alike and to its copy until the content of any clause changes."""
    q, r = full(s, t, u), full(s, t, u)
    agree(q, r, True, 'built alike')
    r = q.copy()
    agree(q, r, True, 'copy')
    if change == 'columns':
        r.columns(s + 'x')
    elif change == 'from_':
        r.from_(t + 'x')
    elif change == 'where':
        r.where('x', 1)
    elif change == 'group_by':
        r.group_by('x')
    elif change == 'having':
        r.having('x', 1)
    elif change == 'order_by':
        r.order_by((s, 'desc'))
    elif change == 'limit':
        r.limit(4)
    elif change == 'offset':
        r.offset(4)
    elif change == 'join':
        r.join('x')
    elif change == 'on':
        r.on('x', 'y')
    elif change == 'all':
        r.all()
    elif change == 'for_update':
        r.for_update()
    else:
        r.into_outfile('g')
    agree(q, r, False, 'changed')


@prop('C17', sym={'cols': Seq(STR), 'conds': Seq(Tup(STR, INT))}, budget=2)
def eq_rebuilt(cols: Seq(Dom('COLSQL')), conds: Seq(Tup(STRSQL, Dom('CONDSQL'))), more: STR):
    """The same calls make equal queries, one column more a different one."""
    q, r = sqlpuzzle.select(), sqlpuzzle.select()
    for c in cols:
        q.columns(c)
    for c in cols:
        r.columns(c)
    for c, v in conds:
        q.where(c, v)
    for c, v in conds:
        r.where(c, v)
    agree(q, r, True, 'same calls')
    agree(q, q.copy(), True, 'copy')
    assume(not any(same(more, c) for c in cols))
    r.columns(more)
    agree(q, r, False, 'one more')


@prop('C17')
def eq_custom_part(s: STR, c: STR, kind: Choice('column', 'where', 'set', 'order')):
    """A part made of custom SQL is not the same as an ordinary part, whichever is on the left."""
    if kind == 'column':
        q, r = sqlpuzzle.select(C(s)), sqlpuzzle.select(c)
    elif kind == 'where':
        q, r = sqlpuzzle.select().where(C(s)), sqlpuzzle.select().where(c, 1)
    elif kind == 'set':
        q, r = sqlpuzzle.update('t').set(C(s)), sqlpuzzle.update('t').set(c, 1)
    else:
        q, r = sqlpuzzle.select().order_by(C(s)), sqlpuzzle.select().order_by(c)
    agree(q, r, False, 'custom and ordinary')


@prop('C17')
def eq_combined(s: STR, u: STR, v: INT, w: INT, op: Choice('and', 'or'), other: Choice('and', 'or')):
    """Combined conditions compare by their text."""
    def made(kind):
        a, b = sqlpuzzle.Q('x', v), sqlpuzzle.Q('y', w)
        return a & b if kind == 'and' else a | b
    agree(made(op), made(other), op == other, 'combined')
    agree(sqlpuzzle.select().where(made(op)), sqlpuzzle.select().where(made(other)), op == other, 'where')


@prop('C17')
def objects_by_text(s: STR, u: STR, again: BOOL):
    """SQL objects compare and sort by their text, also with strings."""
    if again:
        u = s
    a, b = C(s), C(u)
    agree(a, b, s == u, 'objects')
    agree(a, u, s == u, 'object and string')
    check((a < b) == (s < u), 'objects in order')
    check((a < u) == (s < u), 'object before string')
    check((s > b) == (s > u), 'string after object')
    agree(a, 1, False, 'object and number')
    agree(a, None, False, 'object and none')


@prop('C17', 'C08')
def keys_in_order(s: STR, k: STR, v: INT, w: INT, swap: BOOL, kind: Choice('where', 'set', 'columns')):
    """SQL objects and strings as keys of one dictionary are sorted together by text."""
    assume(s != k)
    items = {C(s): v, k: w} if swap else {k: w, C(s): v}
    parts = [s + ' = ' + str(v), REF(k) + ' = ' + str(w)] if s < k else [REF(k) + ' = ' + str(w), s + ' = ' + str(v)]
    if kind == 'where':
        check_eq(str(sqlpuzzle.select(C('x')).where(items).limit(1)), 'SELECT x WHERE ' + ' AND '.join(parts) + ' LIMIT 1', 'conditions')
    elif kind == 'set':
        check_eq(str(sqlpuzzle.update(C('t')).set(items).where('z', 1)), 'UPDATE t SET ' + ', '.join(parts) + ' WHERE ' + REF('z') + ' = 1', 'assignments')
    else:
        items = {C(s): 'p', k: 'r'} if swap else {k: 'r', C(s): 'p'}
        texts = [s + ' AS ' + REF('p'), REF(k) + ' AS ' + REF('r')]
        if k < s:
            texts = [texts[1], texts[0]]
        check_eq(str(sqlpuzzle.select(items).limit(1)), 'SELECT ' + ', '.join(texts) + ' LIMIT 1', 'columns')
