"""C10: INSERT rows stay aligned with the column list; conflict clauses."""
from vlib import *  # noqa
from sqlpuzzle.exceptions import InvalidArgumentException, InvalidQueryException
from contracts.common import rejects

C = sqlpuzzle.C


def row(columns, values):
    """Text of one row: each listed column's value or NULL."""
    return '(' + ', '.join(VAL(values[c]) if c in values else 'NULL' for c in columns) + ')'


def insert_text(rows):
    columns = sorted({c for r in rows for c in r})
    return 'INSERT INTO t (' + ', '.join(REF(c) for c in columns) + ') VALUES ' + ', '.join(row(columns, r) for r in rows)


@prop('C10', 'C08')
def one_row(a: STR, b: STR, v: ASSIGN, w: ASSIGN, form: Choice('dict', 'dict2', 'pairs', 'list')):
    """One row of two columns in any argument shape: columns sorted, values follow them."""
    assume(a != b)
    q = sqlpuzzle.insert().into(C('t'))
    if form == 'dict':
        q.values({a: v, b: w})
    elif form == 'dict2':
        q.values({b: w, a: v})
    elif form == 'pairs':
        q.values((a, v), (b, w))
    else:
        q.values([(b, w), (a, v)])
    if a < b:
        check_eq(str(q), 'INSERT INTO t (' + REF(a) + ', ' + REF(b) + ') VALUES (' + VAL(v) + ', ' + VAL(w) + ')', 'aligned')
    else:
        check_eq(str(q), 'INSERT INTO t (' + REF(b) + ', ' + REF(a) + ') VALUES (' + VAL(w) + ', ' + VAL(v) + ')', 'aligned')


@prop('C10')
def two_rows(a: STR, b: STR, v: ASSIGN, w: ASSIGN):
    """Two rows, each with a column of its own (or the same one)."""
    q = sqlpuzzle.insert().into(C('t')).values(a, v).values(b, w)
    if a == b:
        text = REF(a) + ') VALUES (' + VAL(v) + '), (' + VAL(w) + ')'
    elif a < b:
        text = REF(a) + ', ' + REF(b) + ') VALUES (' + VAL(v) + ', NULL), (NULL, ' + VAL(w) + ')'
    else:
        text = REF(b) + ', ' + REF(a) + ') VALUES (NULL, ' + VAL(v) + '), (' + VAL(w) + ', NULL)'
    check_eq(str(q), 'INSERT INTO t (' + text, 'aligned')


@prop('C10')
def overlapping_rows(u: ASSIGN, v: ASSIGN, w: ASSIGN, x: ASSIGN, y: ASSIGN, order: Choice('abc', 'acb', 'bac', 'bca', 'cab', 'cba')):
    """Rows with different sets of columns in any order of adding."""
    rows = {'a': {'c1': u, 'c3': v}, 'b': {'c2': w}, 'c': {'c3': x, 'c2': y}}
    q = sqlpuzzle.insert().into(C('t'))
    for k in order:
        q.values(rows[k])
    texts = {'a': (VAL(u), 'NULL', VAL(v)), 'b': ('NULL', VAL(w), 'NULL'), 'c': ('NULL', VAL(y), VAL(x))}
    check_eq(str(q), 'INSERT INTO t (' + REF('c1') + ', ' + REF('c2') + ', ' + REF('c3') + ') VALUES ' + ', '.join('(' + ', '.join(texts[k]) + ')' for k in order), 'aligned')


@prop('C10')
def many_rows(rows: Seq(Tup(LITEM, LITEM)), a: STR, b: STR):
    """Any number of rows of the same two columns."""
    assume(a < b)
    assume(len(rows) > 0)
    q = sqlpuzzle.insert().into(C('t'))
    for x, y in rows:
        q.values({b: y, a: x})
    check_eq(str(q), 'INSERT INTO t (' + REF(a) + ', ' + REF(b) + ') VALUES ' + ', '.join('(' + VAL(x) + ', ' + VAL(y) + ')' for x, y in rows), 'aligned')


@prop('C10')
def alternating_rows(rows: Seq(Tup(BOOL, LITEM))):
    """Any number of rows, each setting one of two columns."""
    assume(len(rows) > 0)
    q = sqlpuzzle.insert().into(C('t'))
    for first, x in rows:
        if first:
            q.values('a', x)
        else:
            q.values('b', x)
    two = any(r[0] for r in rows) and any(not r[0] for r in rows)
    if two:
        text = REF('a') + ', ' + REF('b') + ') VALUES ' + ', '.join('(' + (VAL(x) + ', NULL' if first else 'NULL, ' + VAL(x)) + ')' for first, x in rows)
    else:
        text = REF('a' if rows[0][0] else 'b') + ') VALUES ' + ', '.join('(' + VAL(x) + ')' for first, x in rows)
    check_eq(str(q), 'INSERT INTO t (' + text, 'aligned')


@prop('C10')
def sparse_row(rows: Seq(Tup(LITEM, LITEM)), z: ASSIGN, first: BOOL):
    """Any number of rows and one row with another column before or after them."""
    q = sqlpuzzle.insert().into(C('t'))
    if first:
        q.values(m=z)
    for x, y in rows:
        q.values(k=x, z=y)
    if not first:
        q.values(m=z)
    assume(len(rows) > 0)
    one = '(NULL, ' + VAL(z) + ', NULL)'
    many = ', '.join('(' + VAL(x) + ', NULL, ' + VAL(y) + ')' for x, y in rows)
    check_eq(str(q), 'INSERT INTO t (' + REF('k') + ', ' + REF('m') + ', ' + REF('z') + ') VALUES ' + (one + ', ' + many if first else many + ', ' + one), 'aligned')


@prop('C10')
def wide_row(d: Map(LITEM)):
    """A row of any number of columns."""
    assume(any(True for c in d))
    q = sqlpuzzle.insert().into(C('t')).values(d)
    columns = sorted({c for c in d})
    check_eq(str(q), 'INSERT INTO t (' + ', '.join(REF(c) for c in columns) + ') VALUES (' + ', '.join(VAL(d[c]) for c in columns) + ')', 'aligned')


@prop('C10')
def rows_of_maps(rows: Seq(Map(ASSIGN, some=True))):
    """Any number of rows, each with any columns."""
    assume(rows)
    q = sqlpuzzle.insert().into(C('t'))
    for r in rows:
        q.values(r)
    check_eq(str(q), insert_text(rows), 'aligned')


@prop('C10', 'C14')
def on_duplicate(backend: BACKEND, c: STR, d: STR, v: ASSIGN, w: ASSIGN, e: STR, form: Choice('dict', 'pair', 'pairs', 'twice')):
    """The conflict clause assigns each given column its value in the backend's syntax."""
    configure(backend)
    assume(c < d)
    assume(backend in ('mysql', 'postgresql'))
    q = sqlpuzzle.insert().into(C('t')).values('x', 1)
    first = (e,) if backend == 'postgresql' else ()
    text = REF(c) + ' = ' + VAL(v) + ', ' + REF(d) + ' = ' + VAL(w)
    if form == 'dict':
        q.on_duplicate_key_update(*first, {d: w, c: v})
    elif form == 'pair':
        q.on_duplicate_key_update(*first, c, v)
        text = REF(c) + ' = ' + VAL(v)
    elif form == 'pairs':
        q.on_duplicate_key_update(*first, (c, v), (d, w))
    else:
        q.on_duplicate_key_update(*first, c, v)
        q.on_duplicate_key_update(*first, d, w)
    word = 'ON DUPLICATE KEY UPDATE ' if backend == 'mysql' else 'ON CONFLICT (' + REF(e) + ') DO UPDATE '
    check_eq(str(q), ('INSERT INTO t (' + REF('x') + ') VALUES (1) ' + word + text).strip(), 'conflict clause')


@prop('C10', 'C14')
def on_duplicate_elsewhere(backend: Choice('sql', 'sqlite'), c: STR, v: ASSIGN):
    """Nothing on plain SQL; REPLACE on SQLite, where arguments are refused."""
    configure(backend)
    q = sqlpuzzle.insert().into(C('t')).values('x', 1)
    rest = ' INTO t (' + REF('x') + ') VALUES (1)'
    if backend == 'sql':
        q.on_duplicate_key_update({c: v})
        check_eq(str(q), 'INSERT' + rest, 'nothing')
        q.on_duplicate_key_update()
        check_eq(str(q), 'INSERT' + rest, 'nothing')
    else:
        check(rejects(Exception, q.on_duplicate_key_update, {c: v}), 'arguments refused')
        check_eq(str(q), 'INSERT' + rest, 'unchanged')
        q.on_duplicate_key_update()
        check_eq(str(q), 'REPLACE' + rest, 'REPLACE')


@prop('C10', 'C14')
def on_conflict_needs_column(e: ANY, c: STR, v: ASSIGN):
    """On PostgreSQL the first argument must name the column."""
    configure('postgresql')
    assume(not isinstance(e, str))
    q = sqlpuzzle.insert().into(C('t')).values('x', 1)
    check(rejects((InvalidQueryException, InvalidArgumentException), q.on_duplicate_key_update, e, {c: v}), 'refused')
    check(rejects((InvalidQueryException, InvalidArgumentException), q.on_duplicate_key_update), 'refused')
    check(rejects((InvalidQueryException, InvalidArgumentException), q.on_duplicate_key_update, {c: v}), 'refused')
    check_eq(str(q), 'INSERT INTO t (' + REF('x') + ') VALUES (1)', 'unchanged')
