"""C13: LIMIT, OFFSET, sort direction, options."""
from vlib import *  # noqa
from sqlpuzzle.exceptions import InvalidArgumentException
from contracts.common import is_int, rejects


def text_of(n, m):
    t = limit_text(n, m)
    return 'SELECT a ' + t if t else 'SELECT a'


def limit_text(n, m):
    if n is None:
        return '' if m is None else 'OFFSET ' + str(m)
    return 'LIMIT ' + str(n) + ('' if m is None else ' OFFSET ' + str(m))


def new_limit(n, m):
    """Select in the state (limit n, offset m)."""
    q = sqlpuzzle.select(sqlpuzzle.C('a'))
    if n is not None:
        q.limit(n)
    if m is not None:
        q.offset(m)
    return q


def after_offset(m):
    return None if m is None or m == 0 else m


@prop('C13', 'C16')
def limit_vocabulary(n0: INTNONE, m0: INTNONE, x: ANY, y: ANY):
    """From any state, limit(x) / limit(x, y) / offset(y) accept only None and integers."""
    assume(not is_sql(x) and not is_sql(y))
    m0 = after_offset(m0)
    part = new_limit(n0, m0)
    check_eq(str(part), text_of(n0, m0), 'state')
    if not (x is None or is_int(x)):
        check(rejects(InvalidArgumentException, part.limit, x), 'limit refuses other types')
        check_eq(str(part), text_of(n0, m0), 'refused limit changes nothing')
    if not (y is None or is_int(y)):
        check(rejects(InvalidArgumentException, part.offset, y), 'offset refuses other types')
        check_eq(str(part), text_of(n0, m0), 'refused offset changes nothing')


@prop('C13', 'C09')
def limit_last_wins(n0: INTNONE, m0: INTNONE, x: INTNONE, y: INTNONE, form: Choice('limit', 'limit2', 'offset')):
    m0 = after_offset(m0)
    part = new_limit(n0, m0)
    if form == 'limit':
        r = part.limit(x)
        n1, m1 = (None, None) if x is None else (x, m0)
    elif form == 'limit2':
        r = part.limit(x, y)
        n1, m1 = (None, None) if x is None else (x, m0 if y is None else after_offset(y))
    else:
        r = part.offset(y)
        n1, m1 = n0, after_offset(y)
    check(r is part, 'returns itself')
    check_eq(str(part), text_of(n1, m1), 'text of the last values')
    check(part.has('limit') == (n1 is not None or m1 is not None), 'is_set')
    lemma_same(part, new_limit(n1, m1), 'state depends on the last values only')


@prop('C13', 'C16')
def limit_second_argument(x: INT, y: ANY):
    assume(not is_sql(y))
    part = new_limit(None, None)
    if y is None or is_int(y):
        part.limit(x, y)
        check_eq(str(part), text_of(x, after_offset(y)), 'text')
    else:
        check(rejects(InvalidArgumentException, part.limit, x, y), 'offset argument refuses other types')


@prop('C13')
def select_limit(x: INTNONE, y: INTNONE):
    q = sqlpuzzle.select(sqlpuzzle.C('a')).limit(x, y)
    text = limit_text(x, None if x is None else after_offset(y))
    check_eq(str(q), 'SELECT a' + (' ' + text if text else ''), 'limit of select')
    q.limit(1).offset(y)
    check_eq(str(q), 'SELECT a ' + limit_text(1, after_offset(y)), 'offset of select')


# ------------------------------------------------------------------ sort direction
@prop('C13', 'C16')
def order_direction_vocabulary(col: COLNAME, sort: ANY, by: Choice('order_by', 'group_by')):
    assume(not is_sql(sort))
    q = sqlpuzzle.select(sqlpuzzle.C('a'))
    head = 'SELECT a ORDER BY ' if by == 'order_by' else 'SELECT a GROUP BY '
    try:
        if by == 'order_by':
            q.order_by((col, sort))
        else:
            q.group_by((col, sort))
    except InvalidArgumentException:
        check(not (sort is None or isinstance(sort, str) and sort.upper() in ('ASC', 'DESC')), 'only wrong directions are refused')
        check_eq(str(q), 'SELECT a', 'refused call adds nothing')
        return
    if sort is None:
        check_eq(str(q), (head + REF(col)).strip(), 'ascending is the default')
        return
    check(isinstance(sort, str), 'direction is a string')
    up = sort.upper()
    check(up == 'ASC' or up == 'DESC', 'direction is asc or desc')
    check_eq(str(q), (head + (REF(col) if up == 'ASC' else REF(col) + ' DESC')).strip(), 'direction text')


DIRECTIONS = Choice(None, 'asc', 'ASC', 'Asc', 'aSC', 'asC', 'AsC', 'desc', 'DESC', 'Desc', 'dEsC', 'DEsc')


@prop('C13', 'C09')
def order_direction_accepts(col: COLNAME, sort: DIRECTIONS, again: DIRECTIONS, by: Choice('order_by', 'group_by')):
    q = sqlpuzzle.select(sqlpuzzle.C('a'))
    if by == 'order_by':
        order, head = q.order_by, 'SELECT a ORDER BY '
    else:
        order, head = q.group_by, 'SELECT a GROUP BY '
    order((col, sort))
    down = sort is not None and sort.upper() == 'DESC'
    check_eq(str(q), (head + (REF(col) + ' DESC' if down else REF(col))).strip(), 'direction')
    order((col, again))
    down = again is not None and again.upper() == 'DESC'
    check_eq(str(q), (head + (REF(col) + ' DESC' if down else REF(col))).strip(), 'changed direction')


@prop('C13', 'C16')
def order_direction_refused_update(col: COLNAME, sort: Choice(None, 'asc', 'desc'), bad: ANY):
    """A wrong direction for a column already ordered changes nothing."""
    assume(not is_sql(bad) and bad is not None and not (isinstance(bad, str) and bad.upper() in ('ASC', 'DESC')))
    q = sqlpuzzle.select(sqlpuzzle.C('a')).order_by((col, sort))
    before = str(q)
    check(rejects(InvalidArgumentException, q.order_by, (col, bad)), 'refused')
    check_eq(str(q), before, 'direction kept')


@prop('C13')
def order_direction_longer(col: STR, near: Choice('asc', 'desc', 'ASC', 'DESC', 'Desc'), more: STR, side: Choice('after', 'before'), by: Choice('order_by', 'group_by')):
    """A direction with anything before or after it is none."""
    sort = near + more if side == 'after' else more + near
    assume(sort.upper() not in ('ASC', 'DESC'))
    q = sqlpuzzle.select(sqlpuzzle.C('a'))
    check(rejects(InvalidArgumentException, q.order_by if by == 'order_by' else q.group_by, (col, sort)), 'refused')
    check_eq(str(q), 'SELECT a', 'refused call adds nothing')


# ------------------------------------------------------------------ options
SELECT_OPTIONS = {
    'sql_cache': ('cache', 'SQL_CACHE'), 'sql_no_cache': ('cache', 'SQL_NO_CACHE'),
    'all': ('dup', 'ALL'), 'distinct': ('dup', 'DISTINCT'), 'distinctrow': ('dup', 'DISTINCTROW'),
    'sql_small_result': ('small', 'SQL_SMALL_RESULT'), 'sql_big_result': ('big', 'SQL_BIG_RESULT'),
    'sql_buffer_result': ('buffer', 'SQL_BUFFER_RESULT'), 'sql_calc_found_rows': ('calc', 'SQL_CALC_FOUND_ROWS'),
    'straight_join': ('straight', 'STRAIGHT_JOIN'), 'high_priority': ('prio', 'HIGH_PRIORITY'),
}
OPTION_NAMES = tuple(sorted(SELECT_OPTIONS))


def options_text(state):
    return ' '.join(sorted(k for k in state.values() if k))


@prop('C13', 'C05')
def select_options_step(base: Choice(*OPTION_NAMES), op: Choice(*OPTION_NAMES), other: Choice(*OPTION_NAMES), allow: BOOL):
    """Two options in any state, then a third call: groups are independent, the last call of a group wins."""
    q = sqlpuzzle.select(sqlpuzzle.C('a'))
    state = {}
    getattr(q, base)()
    state[SELECT_OPTIONS[base][0]] = SELECT_OPTIONS[base][1]
    getattr(q, other)()
    state[SELECT_OPTIONS[other][0]] = SELECT_OPTIONS[other][1]
    r = getattr(q, op)(allow)
    check(r is q, 'returns itself')
    state[SELECT_OPTIONS[op][0]] = SELECT_OPTIONS[op][1] if allow else ''
    text = options_text(state)
    check_eq(str(q), 'SELECT ' + (text + ' ' if text else '') + 'a', 'options text')


@prop('C13')
def for_update_last(a: BOOL, b: BOOL):
    q = sqlpuzzle.select(sqlpuzzle.C('a')).for_update(a).for_update(b)
    check_eq(str(q), 'SELECT a FOR UPDATE' if b else 'SELECT a', 'for update')
    check_eq(str(sqlpuzzle.select(sqlpuzzle.C('a')).for_update()), 'SELECT a FOR UPDATE', 'default is on')


@prop('C13')
def ignore_last(a: BOOL, b: BOOL):
    d = sqlpuzzle.delete_from(sqlpuzzle.C('t')).allow_delete_all().ignore(a)
    d.ignore(b)
    check_eq(str(d), 'DELETE IGNORE FROM t' if b else 'DELETE FROM t', 'delete ignore')
    check_eq(str(d.ignore()), 'DELETE IGNORE FROM t', 'on by default')
    u = sqlpuzzle.update(sqlpuzzle.C('t')).set(sqlpuzzle.C('a=1')).allow_update_all().ignore(a)
    u.ignore(b)
    check_eq(str(u), 'UPDATE IGNORE t SET a=1' if b else 'UPDATE t SET a=1', 'update ignore')
    i = sqlpuzzle.insert_into(sqlpuzzle.C('t')).ignore(a) if hasattr(sqlpuzzle.insert(), 'ignore') else None
    if i is not None:
        i.values(a=1).ignore(b)
        check_eq(str(i), ('INSERT IGNORE INTO t' if b else 'INSERT INTO t') + ' (' + REF('a') + ') VALUES (1)', 'insert ignore')
