"""C16: what every position accepts."""
import sys

from vlib import *  # noqa
from sqlpuzzle.exceptions import InvalidArgumentException
from contracts.common import rejects, is_int, cond_text

V, R, C, Q = sqlpuzzle.V, sqlpuzzle.R, sqlpuzzle.C, sqlpuzzle.Q


def name_ok(n):
    return isinstance(n, str) or is_sql(n)


def alias_ok(a):
    return a is None or isinstance(a, str) or is_sql(a)


def colname_ok(n):
    return isinstance(n, str) or is_int(n) or is_sql(n)


def assign_ok(v):
    return v is None or isinstance(v, (str, int, float, decimal.Decimal, bytes, datetime.date)) or is_sql(v)


def cond_ok(v):
    return v is None or isinstance(v, (str, int, float, decimal.Decimal, datetime.date, list, tuple, range, type(_ for _ in ()))) or is_sql(v)


def as_alias(a):
    return '' if a is None or isinstance(a, str) and a == '' else ' AS ' + REF(a)


# ------------------------------------------------------------------ names and aliases
@prop('C16')
def column_types(n: ANY, a: ANY, how: Choice('select', 'columns')):
    q = sqlpuzzle.select('k') if how == 'columns' else sqlpuzzle.select()
    add = q.columns if how == 'columns' else sqlpuzzle.select
    if colname_ok(n) and alias_ok(a):
        assume(not isinstance(n, str) or n != 'k')
        check_eq(str(add((n, a)).limit(1)), 'SELECT ' + (REF('k') + ', ' if how == 'columns' else '') + REF(n) + as_alias(a) + ' LIMIT 1', 'column')
    else:
        check(rejects(InvalidArgumentException, add, (n, a)), 'refused')
        check_eq(str(q), 'SELECT ' + (REF('k') if how == 'columns' else '*'), 'unchanged')


@prop('C16')
def table_types(n: ANY, a: ANY, how: Choice('select', 'select_from', 'update', 'delete_from', 'insert_into')):
    if how == 'select':
        q, before = sqlpuzzle.select(C('x')).from_('k'), 'SELECT x FROM ' + REF('k')
        add = q.from_
    else:
        q, before = sqlpuzzle.select(C('x')), 'SELECT x'
        add = getattr(sqlpuzzle, how)
    if name_ok(n) and alias_ok(a):
        assume(not isinstance(n, str) or n != 'k')
        table = REF(n) + as_alias(a)
        r = add((n, a))
        if how == 'select':
            check_eq(str(r.limit(1)), before + ', ' + table + ' LIMIT 1', 'table')
        elif how == 'select_from':
            check_eq(str(r.limit(1)), 'SELECT * FROM ' + table + ' LIMIT 1', 'table')
        elif how == 'update':
            check_eq(str(r.set(C('x')).allow_update_all()), 'UPDATE ' + table + ' SET x', 'table')
        elif how == 'delete_from':
            check_eq(str(r.where(C('x'))), 'DELETE FROM ' + table + ' WHERE x', 'table')
        else:
            check_eq(str(r.values('c', 1)), 'INSERT INTO ' + table + ' (' + REF('c') + ') VALUES (1)', 'table')
    else:
        check(rejects(InvalidArgumentException, add, (n, a)), 'refused')
        check_eq(str(q), before, 'unchanged')


@prop('C16')
def order_types(n: ANY, how: Choice('order_by', 'group_by'), direction: Choice('asc', 'DESC', None)):
    q = getattr(sqlpuzzle.select(C('x')), how)('k')
    word = 'SELECT x ' + how.replace('_', ' ').upper() + ' ' + REF('k')
    if colname_ok(n):
        assume(not isinstance(n, str) or n != 'k')
        getattr(q, how)((n, direction))
        check_eq(str(q.limit(1)), word + ', ' + REF(n) + (' DESC' if direction == 'DESC' else '') + ' LIMIT 1', 'ordering')
    else:
        check(rejects(InvalidArgumentException, getattr(q, how), (n, direction)), 'refused')
        check_eq(str(q), word, 'unchanged')


# ------------------------------------------------------------------ assigned values
@prop('C16')
def assigned_types(n: ANY, v: ANY, how: Choice('set', 'values', 'duplicate')):
    """Columns and values of SET, VALUES and the conflict clause."""
    assume(not isinstance(n, (Select, Union)))
    if how == 'set':
        q = sqlpuzzle.update(C('t')).set(C('x')).allow_update_all()
        before = 'UPDATE t SET x'
        add = q.set
    elif how == 'values':
        q = sqlpuzzle.insert_into(C('t')).values(C('x'), 1)
        before = 'INSERT INTO t (x) VALUES (1)'
        add = q.values
    else:
        configure('mysql')
        q = sqlpuzzle.insert_into(C('t')).values(C('x'), 1)
        before = 'INSERT INTO t (x) VALUES (1)'
        add = q.on_duplicate_key_update
    if name_ok(n) and assign_ok(v):
        if how == 'values':
            assume(isinstance(n, str))
            q = sqlpuzzle.insert_into(C('t')).values([(n, v)])
            check_eq(str(q), 'INSERT INTO t (' + REF(n) + ') VALUES (' + VAL(v) + ')', 'row')
            return
        add([(n, v)])
        check_eq(str(q), (before + (', ' if how == 'set' else ' ON DUPLICATE KEY UPDATE ') + REF(n) + ' = ' + VAL(v)).strip(), 'assignment')
    else:
        check(rejects(InvalidArgumentException, add, [(n, v)]), 'refused')
        check_eq(str(q), before, 'unchanged')


@prop('C16')
def assigned_keyword_types(v: ANY, how: Choice('set', 'values', 'dict')):
    q = sqlpuzzle.update(C('t')).set(C('x')).allow_update_all()
    before = 'UPDATE t SET x'
    if how == 'values':
        q, before = sqlpuzzle.insert_into(C('t')).values(a=1), 'INSERT INTO t (' + REF('a') + ') VALUES (1)'
    if assign_ok(v):
        if how == 'values':
            check_eq(str(q.values(a=v)), before + ', (' + VAL(v) + ')', 'row')
        elif how == 'set':
            check_eq(str(q.set(a=v)), (before + ', ' + REF('a') + ' = ' + VAL(v)).strip(), 'assignment')
        else:
            check_eq(str(q.set({'a': v})), (before + ', ' + REF('a') + ' = ' + VAL(v)).strip(), 'assignment')
        return
    if how == 'values':
        check(rejects(InvalidArgumentException, q.values, a=v), 'refused')
    elif how == 'set':
        check(rejects(InvalidArgumentException, q.set, a=v), 'refused')
    else:
        check(rejects(InvalidArgumentException, q.set, {'a': v}), 'refused')
    check_eq(str(q), before, 'unchanged')


# ------------------------------------------------------------------ conditions
@prop('C16')
def condition_column_types(n: ANY, how: Choice('where', 'having', 'on', 'q')):
    q = sqlpuzzle.select(C('x')).from_(C('t')).join('u')
    before = 'SELECT x FROM t JOIN ' + REF('u')
    add = Q if how == 'q' else getattr(q, how)
    if name_ok(n):
        add([(n, 1)])
        if how == 'q':
            check_eq(str(Q([(n, 1)])), REF(n) + ' = 1', 'condition')
        else:
            check_eq(str(q), before + ' ' + how.upper() + ' ' + REF(n) + ' = 1', 'condition')
    else:
        check(rejects(InvalidArgumentException, add, [(n, 1)]), 'refused')
        check_eq(str(q), before, 'unchanged')


@prop('C16')
def condition_value_types(v: ANY, how: Choice('where', 'having', 'on', 'delete', 'q')):
    """Values of conditions; which relation they get is C07's."""
    if how == 'delete':
        q, before = sqlpuzzle.delete_from(C('t')).where(C('x')), 'DELETE FROM t WHERE x'
        add = q.where
    elif how == 'q':
        q, before = sqlpuzzle.select(C('x')), 'SELECT x'
        add = Q
    else:
        q, before = sqlpuzzle.select(C('x')).from_(C('t')).join('u'), 'SELECT x FROM t JOIN ' + REF('u')
        add = getattr(q, how)
    assume(not isinstance(v, (list, tuple, range, type(_ for _ in ()))))
    if cond_ok(v):
        add([('c', v)])
        if how == 'on' and isinstance(v, str):
            check_eq(str(q.limit(1)), before + ' ON ' + REF('c') + ' = ' + REF(v) + ' LIMIT 1', 'condition')
        elif how == 'q':
            check_eq(str(Q(c=v)), cond_text('c', v), 'condition')
        elif how == 'delete':
            check_eq(str(q), (before + ' AND ' + cond_text('c', v)).strip(), 'condition')
        else:
            check_eq(str(q.limit(1)), before + ' ' + how.upper() + ' ' + cond_text('c', v) + ' LIMIT 1', 'condition')
    else:
        check(rejects(InvalidArgumentException, add, [('c', v)]), 'refused')
        check_eq(str(q), before, 'unchanged')


# ------------------------------------------------------------------ outfile
@prop('C16')
def outfile_types(v: ANY, which: Choice('into_outfile', 'fields_terminated_by', 'lines_terminated_by', 'optionally_enclosed_by')):
    q = sqlpuzzle.select(C('x')).into_outfile('f').fields_terminated_by('a').lines_terminated_by('b').optionally_enclosed_by('c')
    texts = {'into_outfile': VAL('f'), 'fields_terminated_by': VAL('a'), 'lines_terminated_by': VAL('b'), 'optionally_enclosed_by': VAL('c')}
    if isinstance(v, str) or is_sql(v):
        getattr(q, which)(v)
        texts[which] = VAL(v)
    else:
        check(rejects(InvalidArgumentException, getattr(q, which), v), 'refused')
    check_eq(str(q), ('SELECT x INTO OUTFILE ' + texts['into_outfile'] + ' FIELDS TERMINATED BY ' + texts['fields_terminated_by'] + ' LINES TERMINATED BY ' + texts['lines_terminated_by'] +
                      ' OPTIONALLY ENCLOSED BY ' + texts['optionally_enclosed_by']).strip(), 'settings')


# ------------------------------------------------------------------ stored names, aliases and values
def find_class(name, *attrs):
    """A class of the query parts, wherever it is defined, with settable attributes."""
    for m in [m for n, m in sorted(sys.modules.items()) if n.startswith('sqlpuzzle._queryparts')]:
        c = getattr(m, name, None)
        if isinstance(c, type) and all(isinstance(getattr(c, a, None), property) for a in attrs):
            return c
    return None


Column, Table, Value = find_class('Column', 'column_name', 'alias'), find_class('Table', 'table_name', 'alias'), find_class('Value', 'column_name', 'value')
Condition, Order = find_class('Condition', 'column_name', 'value'), find_class('Order', 'column_name', 'sort')


@prop('C16', 'C12', skip=Column is None)
def stored_column(n: ANY, a: ANY, m: Dom('COLNAME'), b: Dom('ALIAS')):
    """Assigning a wrong name or alias to a part raises and keeps what it holds."""
    part = Column(m, b)
    name, alias = m, b
    if colname_ok(n):
        part.column_name = n
        name = n
    else:
        check(rejects(InvalidArgumentException, setattr, part, 'column_name', n), 'name refused')
    if alias_ok(a):
        part.alias = a
        alias = a
    else:
        check(rejects(InvalidArgumentException, setattr, part, 'alias', a), 'alias refused')
    check_eq(str(part), REF(name) + as_alias(alias), 'text of the stored ones')


@prop('C16', 'C12', skip=Table is None)
def stored_table(n: ANY, a: ANY, m: NAME, b: Dom('ALIAS')):
    part = Table(m, b)
    name, alias = m, b
    if name_ok(n):
        part.table_name = n
        name = n
    else:
        check(rejects(InvalidArgumentException, setattr, part, 'table_name', n), 'name refused')
    if alias_ok(a):
        part.alias = a
        alias = a
    else:
        check(rejects(InvalidArgumentException, setattr, part, 'alias', a), 'alias refused')
    check_eq(str(part), REF(name) + as_alias(alias), 'text of the stored ones')


@prop('C16', 'C12', skip=Value is None)
def stored_value(n: ANY, v: ANY, m: NAME, w: ASSIGN):
    part = Value(m, w)
    name, value = m, w
    if name_ok(n):
        part.column_name = n
        name = n
    else:
        check(rejects(InvalidArgumentException, setattr, part, 'column_name', n), 'name refused')
    if assign_ok(v):
        part.value = v
        value = v
    else:
        check(rejects(InvalidArgumentException, setattr, part, 'value', v), 'value refused')
    check_eq(str(part), REF(name) + ' = ' + VAL(value), 'text of the stored ones')


@prop('C16', 'C12', skip=Condition is None)
def stored_condition(x: ANY, m: NAME, w: COND, which: Choice('name', 'value')):
    assume(not isinstance(x, (list, tuple, range, type(_ for _ in ()))))
    part = Condition(m, w)
    name, value = m, w
    n, v = (x, w) if which == 'name' else (m, x)
    if name_ok(n):
        part.column_name = n
        name = n
    else:
        check(rejects(InvalidArgumentException, setattr, part, 'column_name', n), 'name refused')
    if cond_ok(v):
        part.value = v
        value = v
    else:
        check(rejects(InvalidArgumentException, setattr, part, 'value', v), 'value refused')
    check_eq(str(part), cond_text(name, value), 'text of the stored ones')


@prop('C16', 'C13', skip=Order is None)
def stored_order(n: ANY, s: ANY, m: Dom('COLNAME')):
    part = Order(m, 'desc')
    name = m
    if colname_ok(n):
        part.column_name = n
        name = n
    else:
        check(rejects(InvalidArgumentException, setattr, part, 'column_name', n), 'name refused')
    assume(not is_sql(s))
    if s is None or isinstance(s, str) and s.upper() in ('ASC', 'DESC'):
        part.sort = s
        check_eq(str(part), REF(name) + ('' if s is None or s.upper() == 'ASC' else ' DESC'), 'text of the stored ones')
    else:
        check(rejects(InvalidArgumentException, setattr, part, 'sort', s), 'direction refused')
        check_eq(str(part), REF(name) + ' DESC', 'text of the stored ones')
