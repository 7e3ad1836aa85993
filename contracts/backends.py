"""C14: the choice of the backend."""
from vlib import *  # noqa
from sqlpuzzle.exceptions import InvalidArgumentException, InvalidQueryException
from contracts.common import rejects

V, R, C, Q = sqlpuzzle.V, sqlpuzzle.R, sqlpuzzle.C, sqlpuzzle.Q
NAMES = ('sql', 'mysql', 'postgresql', 'sqlite')
REAL = ('SqlValue', 'reference', 'is_reference')


def quoted(backend, name):
    return '`' + name + '`' if backend == 'mysql' else '"' + name + '"'


def probe():
    """A query whose text shows quoting, booleans and bytes."""
    return sqlpuzzle.select('c', ('t.d', 'e')).from_('t').where('a', True).where('b', V(b'\x01\xfe')).where(R('f'), False)


def probe_text(backend):
    def q(name):
        return quoted(backend, name)
    true, false, blob = ('true', 'false', "E'\\\\x01fe'") if backend == 'postgresql' else ('1', '0', "x'01fe'")
    return ('SELECT ' + q('c') + ', ' + q('t') + '.' + q('d') + ' AS ' + q('e') + ' FROM ' + q('t') +
            ' WHERE ' + q('a') + ' = ' + true + ' AND ' + q('b') + ' = ' + blob + ' AND ' + q('f') + ' = ' + false)


@prop('C14', inline=REAL)
def any_name(name: STR, before: BACKEND):
    """configure() of any string: one of the four names in any letter case, or no change."""
    sqlpuzzle.configure(before)
    early = probe()
    check_eq(str(early), probe_text(before), 'backend in force')
    try:
        sqlpuzzle.configure(name)
    except Exception:
        check(name.lower() not in NAMES, 'only unknown names are refused')
        check_eq(str(early), probe_text(before), 'choice unchanged, query built before')
        check_eq(str(probe()), probe_text(before), 'choice unchanged')
    else:
        check(name.lower() in NAMES, 'unknown names are refused')
        check_eq(str(early), probe_text(name.lower()), 'query built before the choice')
        check_eq(str(probe()), probe_text(name.lower()), 'query built after the choice')


@prop('C14', inline=REAL)
def letter_case(before: BACKEND, name: Choice('sql', 'mysql', 'postgresql', 'sqlite', 'SQL', 'MySQL', 'PostgreSQL', 'SQLite', 'MYSQL', 'POSTGRESQL', 'SQLITE', 'pOsTgReSqL')):
    sqlpuzzle.configure(before)
    early = probe()
    sqlpuzzle.configure(name)
    check_eq(str(early), probe_text(name.lower()), 'query built before the choice')
    check_eq(str(probe()), probe_text(name.lower()), 'query built after the choice')


@prop('C14', inline=REAL)
def unknown_name(before: BACKEND, name: Choice('', 'sqlpuzzle', 'postgres', 'oracle', 'my sql', ' mysql', 'mysql ', 'sqlite3', 'BACKEND', 'none', 'default')):
    sqlpuzzle.configure(before)
    early = probe()
    check(rejects(Exception, sqlpuzzle.configure, name), 'refused')
    check_eq(str(early), probe_text(before), 'choice unchanged')
    check_eq(str(probe()), probe_text(before), 'choice unchanged for new queries')


@prop('C14', inline=REAL)
def last_choice_wins(a: BACKEND, b: BACKEND, c: BACKEND):
    """Every choice governs all renderings until the next one."""
    sqlpuzzle.configure(a)
    early = probe()
    check_eq(str(early), probe_text(a), 'first choice')
    sqlpuzzle.configure(b)
    later = probe()
    check_eq(str(early), probe_text(b), 'second choice, query of the first')
    check_eq(str(later), probe_text(b), 'second choice')
    sqlpuzzle.configure(c)
    check_eq(str(later), probe_text(c), 'third choice, query of the second')
    check_eq(str(early), probe_text(c), 'third choice, query of the first')
    check_eq(str(probe()), probe_text(c), 'third choice')


@prop('C14')
def value_follows_backend(v: Dom('LITEM'), n: STR, a: BACKEND, b: BACKEND, kind: Choice('select', 'update', 'insert', 'join', 'part')):
    """Any value and any name, in any clause, are rendered by the backend in force when rendering."""
    configure(a)
    if kind == 'select':
        q = sqlpuzzle.select(n).from_((n, 'u')).where(n, V(v)).group_by((n, 'desc')).order_by((n, 'desc'))
    elif kind == 'update':
        q = sqlpuzzle.update(C('t')).set(n, v).allow_update_all()
    elif kind == 'insert':
        q = sqlpuzzle.insert_into(C('t')).values(n, v)
    elif kind == 'join':
        q = sqlpuzzle.select(C('x')).from_(C('t')).join((n, 'u')).on(n, V(v))
    else:
        q = Q(n, V(v)) & Q(C('x'))
    for i in (0, 1):
        r, w = REF(n), VAL(v)
        cond = r + (' IS ' if v is None else ' = ') + w
        text = {'select': 'SELECT ' + r + ' FROM ' + r + ' AS ' + REF('u') + ' WHERE ' + cond + ' GROUP BY ' + r + ' DESC ORDER BY ' + r + ' DESC',
                'update': 'UPDATE t SET ' + r + ' = ' + w, 'insert': 'INSERT INTO t (' + r + ') VALUES (' + w + ')',
                'join': 'SELECT x FROM t JOIN ' + r + ' AS ' + REF('u') + ' ON ' + cond, 'part': '(' + cond + ' AND x)'}[kind]
        check_eq(str(q), text.strip(), kind)
        configure(b)


@prop('C14')
def expression_follows_backend(n: STR, a: BACKEND, b: BACKEND, kind: Choice('count', 'concat', 'separator', 'union', 'subselect', 'in')):
    """Functions, unions and subselects are rendered by the backend in force when rendering."""
    configure(a)
    s = sqlpuzzle.select(n).where(n, 1)
    q = {'count': lambda: sqlpuzzle.count([n, 'x']), 'concat': lambda: sqlpuzzle.concat(n, C('x')), 'separator': lambda: sqlpuzzle.group_concat(C('x')).separator(n),
         'union': lambda: s & s, 'subselect': lambda: sqlpuzzle.select(s), 'in': lambda: sqlpuzzle.select(C('x')).where(n, [n, True])}[kind]()
    for i in (0, 1):
        sub = 'SELECT ' + REF(n) + ' WHERE ' + REF(n) + ' = 1'
        text = {'count': 'COUNT(' + REF(n) + ', ' + REF('x') + ')', 'concat': 'CONCAT(' + REF(n) + ', x)', 'separator': 'GROUP_CONCAT(x SEPARATOR ' + VAL(n) + ')',
                'union': sub + ' UNION ALL ' + sub, 'subselect': 'SELECT (' + sub + ')', 'in': 'SELECT x WHERE ' + REF(n) + ' IN (' + VAL(n) + ', ' + VAL(True) + ')'}[kind]
        check_eq(str(q), text, kind)
        configure(b)


@prop('C14', inline=REAL)
def gates(before: BACKEND, b: BACKEND):
    """FULL JOIN and the duplicate key clause follow the backend."""
    sqlpuzzle.configure(before)
    q = sqlpuzzle.select(C('x')).from_(C('t'))
    ins = sqlpuzzle.insert_into(C('t')).values(C('x'), 1)
    sqlpuzzle.configure(b)
    if b == 'postgresql':
        q.full_join('u').on(C('v'), 1)
        check_eq(str(q), 'SELECT x FROM t FULL JOIN "u" ON v = 1', 'FULL JOIN')
    else:
        check(rejects(InvalidQueryException, q.full_join, 'u'), 'no FULL JOIN')
        check_eq(str(q), 'SELECT x FROM t', 'nothing added')
    if b == 'sqlite':
        check(rejects(Exception, ins.on_duplicate_key_update, a=1), 'no arguments for REPLACE')
        check_eq(str(ins.on_duplicate_key_update()), 'REPLACE INTO t (x) VALUES (1)', 'REPLACE')
    elif b == 'mysql':
        check_eq(str(ins.on_duplicate_key_update(a=1)), 'INSERT INTO t (x) VALUES (1) ON DUPLICATE KEY UPDATE `a` = 1', 'ON DUPLICATE KEY UPDATE')
    elif b == 'sql':
        check_eq(str(ins.on_duplicate_key_update(a=1)), 'INSERT INTO t (x) VALUES (1)', 'nothing')
