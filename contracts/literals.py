"""C01, C02, C03: literals and references."""
import itertools

from vlib import *  # noqa
from sqlpuzzle.exceptions import InvalidArgumentException
from contracts.common import rejects, cond_text

V, R, C = sqlpuzzle.V, sqlpuzzle.R, sqlpuzzle.C


# ------------------------------------------------------------------ C01
@prop('C01', inline=('SqlValue.outer',))
def string_value(s: STR):
    """The literal of a string, read back by an SQL lexer with and without backslash escapes."""
    text = str(V(s))
    if is_ref_text(s):
        check_eq(text, refname(s.strip()), 'complete reference')
    else:
        check(closes_only_at_end(text, True), 'one literal (backslash escapes)')
        check(closes_only_at_end(text, False), 'one literal (no backslash escapes)')
        check_eq(decoded(text), str(s), 'decodes to the string')


@prop('C01', 'C02', inline=('SqlValue.outer', 'is_reference'))
def string_or_reference(s: STR):
    """Exactly the complete references starting with a quoted identifier are taken as references."""
    text = str(V(s))
    if is_ref_text(s):
        check_eq(text, refname(s.strip()), 'complete reference')
    else:
        check_eq(text, literal(s), 'literal')


@prop('C01', inline=('SqlValue.outer',))
def distinct_strings(s: STR, u: STR):
    """Different strings have different literals."""
    assume(s != u and not is_ref_text(s) and not is_ref_text(u))
    check(str(V(s)) != str(V(u)), 'different literals')


@prop('C01')
def string_positions(s: STR, pos: Choice('where', 'having', 'eq', 'ne', 'like', 'gt', 'in', 'not_in', 'list', 'set', 'values', 'dup', 'v', 'tuple')):
    """Strings in every value position are carried by their literal."""
    r = sqlpuzzle.relations
    c = REF('c')
    if pos in ('where', 'having', 'eq', 'ne', 'like', 'gt', 'in', 'not_in', 'list', 'tuple', 'v'):
        value, text = {
            'where': (s, c + ' = ' + VAL(s)), 'having': (s, c + ' = ' + VAL(s)), 'eq': (r.EQ(s), c + ' = ' + VAL(s)), 'ne': (r.NE(s), c + ' != ' + VAL(s)),
            'like': (r.LIKE(s), c + ' LIKE ' + VAL(s)), 'gt': (r.GT(s), c + ' > ' + VAL(s)), 'in': (r.IN(s, s), c + ' IN (' + VAL(s) + ', ' + VAL(s) + ')'),
            'not_in': (r.NOT_IN([s]), c + ' NOT IN (' + VAL(s) + ')'), 'list': ([1, s], c + ' IN (1, ' + VAL(s) + ')'), 'tuple': ((s, 2), c + ' IN (' + VAL(s) + ', 2)'),
            'v': (V(s), c + ' = ' + VAL(s))}[pos]
        q = sqlpuzzle.select(C('x'))
        if pos == 'having':
            check_eq(str(q.having('c', value)), 'SELECT x HAVING ' + text, 'value in HAVING')
        else:
            check_eq(str(q.where('c', value)), 'SELECT x WHERE ' + text, 'value in WHERE')
    elif pos == 'set':
        check_eq(str(sqlpuzzle.update(C('t')).set('c', s).where(C('x'))), 'UPDATE t SET ' + c + ' = ' + VAL(s) + ' WHERE x', 'value in SET')
    else:
        check_eq(str(sqlpuzzle.insert_into(C('t')).values('c', s)), 'INSERT INTO t (' + c + ') VALUES (' + VAL(s) + ')', 'value in VALUES')


@prop('C01')
def string_positions_outfile(f: STR, a: STR, b: STR, e: STR):
    q = sqlpuzzle.select(C('x')).into_outfile(f).fields_terminated_by(a).lines_terminated_by(b).optionally_enclosed_by(e)
    check_eq(str(q), 'SELECT x INTO OUTFILE ' + VAL(f) + ' FIELDS TERMINATED BY ' + VAL(a) + ' LINES TERMINATED BY ' + VAL(b) + ' OPTIONALLY ENCLOSED BY ' + VAL(e), 'outfile')


@prop('C01', 'C15')
def string_positions_separator(s: STR):
    check_eq(str(sqlpuzzle.select(sqlpuzzle.group_concat('c').separator(s))), 'SELECT GROUP_CONCAT(' + REF('c') + ' SEPARATOR ' + VAL(s) + ')', 'separator')


@prop('C01', 'C02', sym=False, native=.00025)
def strings_enumerated(n: INT):
    """All strings of length up to 6 over the critical characters (bounded, exhaustive)."""
    for backend in ('sql', 'mysql', 'postgresql', 'sqlite'):
        configure(backend)
        q = quote_char()
        for k in range(7):
            alphabet = ('a', '.', q, "'", '\\', ' ', '\n', '*') if k < 5 else ('a', '.', q, "'", ' ') if k < 6 else ('a', '.', q, ' ')
            for cs in itertools.product(alphabet, repeat=k):
                s = ''.join(cs)
                text = str(V(s))
                if is_ref_text(s):
                    check_eq(text, refname(s.strip()), 'complete reference %r' % s)
                else:
                    check(closes_only_at_end(text, True) and closes_only_at_end(text, False), 'one literal: %r' % s)
                    check_eq(decoded(text), str(s), 'decodes to the string')
                check_eq(str(R(s)), refname(s), 'reference')


# ------------------------------------------------------------------ C02
@prop('C02', 'C14', inline=('SqlValue.outer', 'reference'))
def reference_form(s: STR):
    """No name leaves its quotes: the text is a dotted sequence of * and quoted identifiers."""
    check(is_reference_form(str(R(s)), quote_char()), 'dotted sequence of * and quoted identifiers')


@prop('C02', 'C14', sym=False)
def reference_parts(s: STR):
    """The parts of a reference are the parts of the name."""
    q = quote_char()
    text = str(R(s))
    check(is_reference_form(text, q), 'dotted sequence of * and quoted identifiers')
    check_eq(text, refname(s), 'parts of the name')
    if q not in s:
        check_eq(text, '.'.join('*' if p == '*' else q + p + q for p in s.split('.') if p), 'non-empty components')


@prop('C02', inline=('SqlValue.outer', 'reference'))
def reference_components(s: STR):
    """The parts of a name without quotes are its non-empty components."""
    q = quote_char()
    assume(q not in s)
    check_eq(str(R(s)), '.'.join('*' if p == '*' else q + p + q for p in s.split('.') if p), 'non-empty components')


@prop('C02', sym=False)
def reference_of_quoted_parts(parts: Seq(Tup(STR, BOOL))):
    """Names given as quoted identifiers keep their text, dots and quotes included."""
    q = quote_char()
    assume(all(p and (b or q not in p and '.' not in p) for p, b in parts))
    assume(not any(parts[i][1] and parts[i + 1][1] for i in range(len(parts) - 1)))
    name = '.'.join(q + p.replace(q, q * 2) + q if b else p for p, b in parts)
    check_eq(str(R(name)), '.'.join('*' if p == '*' else q + p.replace(q, q * 2) + q for p, _ in parts), 'parts kept')


@prop('C02')
def reference_positions(n: STR, a: STR, pos: Choice('column', 'columnalias', 'table', 'tablealias', 'where', 'having', 'set', 'values', 'order', 'group', 'join', 'joinalias', 'on', 'onvalue',
                                                    'delete', 'into', 'update', 'concat', 'count', 'avg', 'r', 'dict', 'from_table')):
    """Names in every position are carried by their reference."""
    q = sqlpuzzle.select(C('x'))
    if pos == 'column':
        check_eq(str(sqlpuzzle.select(n).limit(1)), 'SELECT ' + REF(n) + ' LIMIT 1', pos)
    elif pos == 'columnalias':
        assume(a != '')
        check_eq(str(sqlpuzzle.select((n, a)).limit(1)), 'SELECT ' + REF(n) + ' AS ' + REF(a) + ' LIMIT 1', pos)
    elif pos == 'dict':
        assume(a != '')
        check_eq(str(sqlpuzzle.select({n: a}).limit(1)), 'SELECT ' + REF(n) + ' AS ' + REF(a) + ' LIMIT 1', pos)
    elif pos == 'table':
        assume(n != '')
        check_eq(str(q.from_(n).limit(1)), 'SELECT x FROM ' + REF(n) + ' LIMIT 1', pos)
    elif pos == 'tablealias':
        assume(a != '')
        check_eq(str(q.from_((n, a)).limit(1)), 'SELECT x FROM ' + REF(n) + ' AS ' + REF(a) + ' LIMIT 1', pos)
    elif pos == 'from_table':
        assume(a != '')
        check_eq(str(q.from_table(n, a).limit(1)), 'SELECT x FROM ' + REF(n) + ' AS ' + REF(a) + ' LIMIT 1', pos)
    elif pos == 'where':
        check_eq(str(q.where(n, 1)), 'SELECT x WHERE ' + REF(n) + ' = 1', pos)
    elif pos == 'having':
        check_eq(str(q.having(n, 1)), 'SELECT x HAVING ' + REF(n) + ' = 1', pos)
    elif pos == 'set':
        check_eq(str(sqlpuzzle.update(C('t')).set(n, 1).allow_update_all()), 'UPDATE t SET ' + REF(n) + ' = 1', pos)
    elif pos == 'values':
        check_eq(str(sqlpuzzle.insert_into(C('t')).values(n, 1)), 'INSERT INTO t (' + REF(n) + ') VALUES (1)', pos)
    elif pos == 'order':
        check_eq(str(q.order_by(n).limit(1)), 'SELECT x ORDER BY ' + REF(n) + ' LIMIT 1', pos)
    elif pos == 'group':
        check_eq(str(q.group_by((n, 'desc'))), 'SELECT x GROUP BY ' + REF(n) + ' DESC', pos)
    elif pos == 'join':
        check_eq(str(q.from_(C('t')).join(n).limit(1)), 'SELECT x FROM t JOIN ' + REF(n) + ' LIMIT 1', pos)
    elif pos == 'joinalias':
        assume(a != '')
        check_eq(str(q.from_(C('t')).left_join((n, a)).limit(1)), 'SELECT x FROM t LEFT JOIN ' + REF(n) + ' AS ' + REF(a) + ' LIMIT 1', pos)
    elif pos == 'on':
        check_eq(str(q.from_(C('t')).join('u').on(n, 1)), 'SELECT x FROM t JOIN ' + REF('u') + ' ON ' + REF(n) + ' = 1', pos)
    elif pos == 'onvalue':
        check_eq(str(q.from_(C('t')).join('u').on(n, a).limit(1)), 'SELECT x FROM t JOIN ' + REF('u') + ' ON ' + REF(n) + ' = ' + REF(a) + ' LIMIT 1', pos)
    elif pos == 'delete':
        assume(n != '')
        check_eq(str(sqlpuzzle.delete(n).from_(C('t')).where(C('x'))), 'DELETE ' + REF(n) + ' FROM t WHERE x', pos)
    elif pos == 'into':
        assume(n != '')
        check_eq(str(sqlpuzzle.insert_into(n).values('c', 1)), 'INSERT INTO ' + REF(n) + ' (' + REF('c') + ') VALUES (1)', pos)
    elif pos == 'update':
        assume(n != '')
        check_eq(str(sqlpuzzle.update(n).set(C('x')).allow_update_all()), 'UPDATE ' + REF(n) + ' SET x', pos)
    elif pos == 'concat':
        check_eq(str(sqlpuzzle.select(sqlpuzzle.concat(n, 'b'))), 'SELECT CONCAT(' + REF(n) + (', ' + REF('b') if n != 'b' else '') + ')', pos)
    elif pos == 'count':
        assume(n != '' and n != '*')
        check_eq(str(sqlpuzzle.select(sqlpuzzle.count(n))), 'SELECT COUNT(' + REF(n) + ')', pos)
    elif pos == 'avg':
        check_eq(str(sqlpuzzle.select(sqlpuzzle.avg(n))), 'SELECT AVG(' + REF(n) + ')', pos)
    else:
        check_eq(str(q.where('c', R(n)).limit(1)), 'SELECT x WHERE ' + REF('c') + ' = ' + REF(n) + ' LIMIT 1', pos)


# ------------------------------------------------------------------ C03
def scalar_literal(v):
    """Literal of a value that is no string."""
    if v is None:
        return 'NULL'
    if isinstance(v, bool):
        if current_backend() == 'postgresql':
            return 'true' if v else 'false'
        return '1' if v else '0'
    if isinstance(v, int):
        return str(v)
    if isinstance(v, (float, decimal.Decimal)):
        return '{:.5f}'.format(v)
    if isinstance(v, bytes):
        if current_backend() == 'postgresql':
            return "E'\\\\x" + v.hex() + "'"
        return "x'" + v.hex() + "'"
    return "'" + v.isoformat() + "'"


@prop('C03', 'C14', inline=('SqlValue.outer',))
def scalar_value(v: Dom('NOSTR')):
    check_eq(str(V(v)), scalar_literal(v), 'literal of its own type')


@prop('C03', inline=('SqlValue.outer',))
def sql_value(v: SQL, kind: Choice('V', 'R')):
    """SQL objects as values and references."""
    text = TEXT(v)
    if isinstance(v, (Select, Union)):
        text = '(' + text + ')'
    check_eq(str(V(v) if kind == 'V' else R(v)), text, 'its own SQL')


@prop('C03', inline=('SqlValue.outer',))
def list_value(xs: Seq(LITEM), kind: Choice('list', 'tuple', 'gen')):
    items = (x for x in xs) if kind == 'gen' else tuple(xs) if kind == 'tuple' else xs
    v = V(items)
    if not xs:
        check(rejects(InvalidArgumentException, str, v), 'empty list is refused')
        return
    text = '(' + ', '.join(VAL(x) for x in xs) + ')'
    check_eq(str(v), text, 'elements in order')
    check_eq(str(v), text, 'elements in order, again')


@prop('C03', inline=('SqlValue.outer',), sym={'xs': Dom('RANGE')})
def set_value(xs: Dom('SETS')):
    v = V(xs)
    if len(xs) == 0:
        check(rejects(InvalidArgumentException, str, v), 'empty set is refused')
        return
    try:
        text = '(' + ', '.join(VAL(x) for x in xs) + ')'
    except Invalid:
        return
    check_eq(str(v), text, 'elements in iteration order')


@prop('C03', inline=('SqlValue.outer',))
def nested_list_value(xs: Seq(Seq(LITEM))):
    assume(xs and all(xs))
    check_eq(str(V(xs)), '(' + ', '.join('(' + ', '.join(VAL(x) for x in ys) + ')' for ys in xs) + ')', 'nested lists')


@prop('C03', inline=('SqlValue.outer',))
def reference_value(v: Dom('STRINT')):
    """Names given as integers are positions."""
    check_eq(str(R(v)), refname(v) if isinstance(v, str) else str(v), 'reference')


@prop('C03')
def values_in_positions(v: ASSIGN, pos: Choice('set', 'values', 'where', 'having')):
    c = REF('c')
    if pos == 'set':
        check_eq(str(sqlpuzzle.update(C('t')).set('c', v).where(C('x'))), 'UPDATE t SET ' + c + ' = ' + VAL(v) + ' WHERE x', pos)
    elif pos == 'values':
        check_eq(str(sqlpuzzle.insert_into(C('t')).values('c', v)), 'INSERT INTO t (' + c + ') VALUES (' + VAL(v) + ')', pos)
    else:
        assume(not isinstance(v, bytes))
        q = sqlpuzzle.select(C('x'))
        if pos == 'where':
            check_eq(str(q.where('c', v).limit(1)), 'SELECT x WHERE ' + cond_text('c', v) + ' LIMIT 1', pos)
        else:
            check_eq(str(q.having('c', v).limit(1)), 'SELECT x HAVING ' + cond_text('c', v) + ' LIMIT 1', pos)


@prop('C03', sym=False)
def value_oracle(v: Dom('VALUE')):
    """Any value against the reference rendering, on the real package alone (bounded)."""
    if isinstance(v, type(_ for _ in ())):
        v = list(v)
    try:
        text = VAL(v)
    except Invalid:
        check(rejects(InvalidArgumentException, str, V(v)), 'empty list is refused')
        return
    check_eq(str(V(v)), text, 'reference rendering')
