"""C05: each clause once, in SQL order, exactly when it was set."""
from vlib import *  # noqa
from contracts.common import rejects

ORDERS = Choice('forward', 'backward', 'mixed')


def in_order(order, calls):
    """The builder calls in some order."""
    if order == 'backward':
        calls = calls[::-1]
    elif order == 'mixed':
        calls = calls[1::2] + calls[0::2]
    for f in calls:
        f()


def clause(on, text):
    return ' ' + text if on else ''


@prop('C05', sym={'order': Choice('backward')}, budget=5, weight=5)
def select_clauses(order: ORDERS, dist: BOOL, cols: BOOL, tab: BOOL, wh: BOOL, grp: BOOL, hav: BOOL, srt: BOOL, lim: BOOL, out: BOOL, upd: BOOL,
                   t1: STR, t2: STR, t3: STR, t4: STR, t5: STR, t6: STR, n: INT, f: STR):
    """SELECT with any subset of clauses set in any order; clause texts are arbitrary."""
    C = sqlpuzzle.C
    q = sqlpuzzle.select()
    calls = []
    if dist:
        calls.append(q.distinct)
    if cols:
        calls.append(lambda: q.columns(C(t1)))
    if tab:
        calls.append(lambda: q.from_(C(t2)))
    if wh:
        calls.append(lambda: q.where(C(t3)))
    if grp:
        calls.append(lambda: q.group_by(C(t4)))
    if hav:
        calls.append(lambda: q.having(C(t5)))
    if srt:
        calls.append(lambda: q.order_by(C(t6)))
    if lim:
        calls.append(lambda: q.limit(n))
    if out:
        calls.append(lambda: q.into_outfile(f))
    if upd:
        calls.append(q.for_update)
    in_order(order, calls)
    text = 'SELECT' + clause(dist, 'DISTINCT') + clause(True, t1 if cols else '*') + clause(tab, 'FROM ' + t2) + clause(wh, 'WHERE ' + t3) + \
        clause(grp, 'GROUP BY ' + t4) + clause(hav, 'HAVING ' + t5) + clause(srt, 'ORDER BY ' + t6) + clause(lim, 'LIMIT ' + str(n)) + \
        clause(out, 'INTO OUTFILE ' + VAL(f)) + clause(upd, 'FOR UPDATE')
    check_eq(str(q), text.strip(), 'clauses of SELECT')
    check(q.has('select_options') is dist, 'has select_options')
    check(q.has('tables') is tab, 'has tables')
    check(q.has('where') is wh, 'has where')
    check(q.has('group_by') is grp, 'has group_by')
    check(q.has('having') is hav, 'has having')
    check(q.has('order_by') is srt, 'has order_by')
    check(q.has('limit') is lim, 'has limit')
    check(q.has('into_outfile') is out, 'has into_outfile')
    check(q.has('select_for_update') is upd, 'has select_for_update')
    check_eq(str(q), text.strip(), 'has changes nothing')


@prop('C05', 'C13')
def outfile_clauses(order: ORDERS, a: BOOL, b: BOOL, c: BOOL, f: STR, s1: STR, s2: STR, s3: STR):
    """INTO OUTFILE with any subset of its settings."""
    q = sqlpuzzle.select(sqlpuzzle.C('x'))
    calls = [lambda: q.into_outfile(f)]
    if a:
        calls.append(lambda: q.fields_terminated_by(s1))
    if b:
        calls.append(lambda: q.lines_terminated_by(s2))
    if c:
        calls.append(lambda: q.optionally_enclosed_by(s3))
    in_order(order, calls)
    check_eq(str(q), 'SELECT x INTO OUTFILE ' + VAL(f) + clause(a, 'FIELDS TERMINATED BY ' + VAL(s1)) + clause(b, 'LINES TERMINATED BY ' + VAL(s2)) +
             clause(c, 'OPTIONALLY ENCLOSED BY ' + VAL(s3)), 'outfile')
    check(q.has('into_outfile'), 'has')


@prop('C05')
def outfile_settings_alone(a: BOOL, b: BOOL, c: BOOL, s: STR):
    """Settings without a file leave no trace."""
    q = sqlpuzzle.select(sqlpuzzle.C('x'))
    if a:
        q.fields_terminated_by(s)
    if b:
        q.lines_terminated_by(s)
    if c:
        q.optionally_enclosed_by(s)
    check_eq(str(q), 'SELECT x', 'no outfile')
    check(q.has('into_outfile') is False, 'has')


@prop('C05')
def insert_clauses(order: ORDERS, ign: BOOL, tab: BOOL, vals: BOOL, x: STR, v: ASSIGN):
    q = sqlpuzzle.insert()
    calls = []
    if ign:
        calls.append(q.ignore)
    if tab:
        calls.append(lambda: q.into(sqlpuzzle.C(x)))
    if vals:
        calls.append(lambda: q.values('c', v))
    in_order(order, calls)
    text = 'INSERT' + clause(ign, 'IGNORE') + ' INTO' + clause(tab, x) + (' (' + REF('c') + ') VALUES (' + VAL(v) + ')' if vals else '')
    check_eq(str(q), text.strip(), 'clauses of INSERT')
    check(q.has('insert_options') is ign, 'has insert_options')
    check(q.has('tables') is tab, 'has tables')
    check(q.has('values') is vals, 'has values')
    check(q.has('on_duplicate_key_update') is False, 'has on_duplicate_key_update')
    check(q.has('on_conflict_do_update') is False, 'has on_conflict_do_update')
    check(q.has('nonsense') is False, 'has nonsense')


@prop('C05', 'C14')
def insert_conflict_clauses(order: ORDERS, ign: BOOL, v: ASSIGN, w: ASSIGN):
    """INSERT with a conflict clause, at the end of the statement."""
    b = current_backend()
    q = sqlpuzzle.insert()
    calls = [lambda: q.into(sqlpuzzle.C('t')), lambda: q.values('c', v)]
    if b == 'mysql' or b == 'sql':
        calls.append(lambda: q.on_duplicate_key_update('d', w))
    elif b == 'postgresql':
        calls.append(lambda: q.on_duplicate_key_update('k', 'd', w))
    else:
        calls.append(q.on_duplicate_key_update)
    if ign:
        calls.append(q.ignore)
    in_order(order, calls)
    end = ''
    if b == 'mysql':
        end = ' ON DUPLICATE KEY UPDATE ' + REF('d') + ' = ' + VAL(w)
    elif b == 'postgresql':
        end = ' ON CONFLICT (' + REF('k') + ') DO UPDATE ' + REF('d') + ' = ' + VAL(w)
    text = ('REPLACE' if b == 'sqlite' else 'INSERT') + clause(ign, 'IGNORE') + ' INTO t (' + REF('c') + ') VALUES (' + VAL(v) + ')' + end
    check_eq(str(q), text.strip(), 'conflict clause')
    check(q.has('on_duplicate_key_update') is (b == 'mysql'), 'has on_duplicate_key_update')
    check(q.has('on_conflict_do_update') is (b == 'postgresql'), 'has on_conflict_do_update')


@prop('C05')
def update_clauses(order: ORDERS, ign: BOOL, tab: BOOL, vals: BOOL, wh: BOOL, x: STR, y: STR, z: STR):
    q = sqlpuzzle.update(None).allow_update_all()
    calls = []
    if ign:
        calls.append(q.ignore)
    if tab:
        calls.append(lambda: q.table(sqlpuzzle.C(x)))
    if vals:
        calls.append(lambda: q.set(sqlpuzzle.C(y)))
    if wh:
        calls.append(lambda: q.where(sqlpuzzle.C(z)))
    in_order(order, calls)
    text = 'UPDATE' + clause(ign, 'IGNORE') + clause(tab, x) + ' SET' + clause(vals, y) + clause(wh, 'WHERE ' + z)
    check_eq(str(q), text.strip(), 'clauses of UPDATE')
    check(q.has('update_options') is ign, 'has update_options')
    check(q.has('tables') is tab, 'has tables')
    check(q.has('values') is vals, 'has values')
    check(q.has('where') is wh, 'has where')


@prop('C05')
def delete_clauses(order: ORDERS, ign: BOOL, tab: BOOL, ref: BOOL, wh: BOOL, x: STR, y: STR, z: STR):
    q = sqlpuzzle.delete().allow_delete_all()
    calls = []
    if ign:
        calls.append(q.ignore)
    if tab:
        calls.append(lambda: q.delete(sqlpuzzle.C(x)))
    if ref:
        calls.append(lambda: q.from_(sqlpuzzle.C(y)))
    if wh:
        calls.append(lambda: q.where(sqlpuzzle.C(z)))
    in_order(order, calls)
    text = 'DELETE' + clause(ign, 'IGNORE') + clause(tab, x) + ' FROM' + clause(ref, y) + clause(wh, 'WHERE ' + z)
    check_eq(str(q), text.strip(), 'clauses of DELETE')
    check(q.has('delete_options') is ign, 'has delete_options')
    check(q.has('tables') is tab, 'has tables')
    check(q.has('references') is ref, 'has references')
    check(q.has('where') is wh, 'has where')


@prop('C05')
def real_clauses(order: ORDERS, t: STR, a: STR, c: STR, v: COND, g: STR, h: STR, w: INT, o: STR, d: BOOL):
    """All clauses with ordinary arguments."""
    q = sqlpuzzle.select()
    assume(t != '')
    in_order(order, [
        lambda: q.columns((c, a)), lambda: q.from_table(t, a), lambda: q.where(c, v), lambda: q.group_by(g), lambda: q.having(h, w),
        lambda: q.order_by((o, 'desc' if d else 'asc')), lambda: q.limit(3, 4), q.for_update, q.sql_cache, q.high_priority,
    ])
    alias = ' AS ' + REF(a) if a != '' else ''
    text = 'SELECT HIGH_PRIORITY SQL_CACHE ' + REF(c) + alias + ' FROM ' + REF(t) + alias + ' WHERE ' + REF(c) + \
        (' IS ' if v is None else ' = ') + VAL(v) + ' GROUP BY ' + REF(g) + ' HAVING ' + REF(h) + ' = ' + VAL(w) + ' ORDER BY ' + REF(o) + \
        (' DESC' if d else '') + ' LIMIT 3 OFFSET 4 FOR UPDATE'
    check_eq(str(q), text, 'all clauses')


def is_word(c):
    return c == '_' or c.isalnum()


def contains(text, value):
    """The value occurs in the text and is not a part of a longer word."""
    i = text.find(value)
    while i >= 0:
        j = i + len(value)
        if (i == 0 or not is_word(text[i - 1])) and (j == len(text) or not is_word(text[j])):
            return True
        i = text.find(value, i + 1)
    return False


HAS = {'columns': '', 'tables': 'FROM ', 'where': 'WHERE ', 'group_by': 'GROUP BY ', 'having': 'HAVING ', 'order_by': 'ORDER BY '}


@prop('C05', sym=False)
def has_value(kind: Choice(*HAS), before: STR, value: STR, after: STR, there: BOOL):
    """has(clause, value): the value itself stands in the clause that was set."""
    assume(value != '')
    C = sqlpuzzle.C
    text = before + (value if there else '') + after
    q = sqlpuzzle.select(C('x'))
    if kind != 'columns':
        check(q.has(kind, value) is False, 'clause not set')
    else:
        q = sqlpuzzle.select()
    {'columns': q.columns, 'tables': q.from_, 'where': q.where, 'group_by': q.group_by, 'having': q.having, 'order_by': q.order_by}[kind](C(text))
    shown = str(q)
    assume(contains(HAS[kind] + text, value) == contains(text, value))
    check(q.has(kind, value) is contains(text, value), 'value in the clause')
    check(q.has(kind), 'clause set')
    check_eq(str(q), shown, 'has changes nothing')


@prop('C05', sym=False)
def has_name(kind: Choice('where', 'having', 'columns', 'order_by', 'tables'), name: STR, value: INT, other: STR):
    """A name which was used is found, other words are not."""
    assume(name.isidentifier() and other.isidentifier() and name.upper() not in ('AS', 'FROM', 'WHERE', 'HAVING', 'ORDER', 'BY', 'DESC'))
    assume(other.upper() not in ('AS', 'FROM', 'WHERE', 'HAVING', 'ORDER', 'BY', 'DESC', 'X'))
    q = sqlpuzzle.select('x') if kind != 'columns' else sqlpuzzle.select()
    q = {'where': lambda: q.where(name, value), 'having': lambda: q.having(name, value), 'columns': lambda: q.columns(name),
         'order_by': lambda: q.order_by(name), 'tables': lambda: q.from_(name)}[kind]()
    check(q.has(kind, name) is True, 'name used')
    check(q.has(kind, other) is (name == other), 'other name')


FLAGS = ('sql_cache', 'sql_no_cache', 'all', 'distinct', 'distinctrow', 'sql_small_result', 'sql_big_result', 'sql_buffer_result',
         'sql_calc_found_rows', 'straight_join', 'high_priority')


@prop('C05')
def has_option(a: Choice(*FLAGS), b: Choice(*FLAGS), allow: BOOL):
    """has(option) and has('select_options', option)."""
    q = sqlpuzzle.select()
    check(q.has(b) is False, 'not set')
    getattr(q, a)(allow)
    check(q.has(b) is (a == b and allow), 'option')
    check(q.has('select_options', b) is (a == b and allow), 'option as value')
