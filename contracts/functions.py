"""C15: SQL functions and unions."""
from vlib import *  # noqa
from sqlpuzzle.exceptions import InvalidArgumentException
from contracts.common import rejects

C = sqlpuzzle.C
AGGREGATES = {'avg': 'AVG', 'max': 'MAX', 'min': 'MIN', 'sum': 'SUM', 'count': 'COUNT'}
AGG = Choice('avg', 'max', 'min', 'sum', 'count')


def text_of(f):
    return str(sqlpuzzle.select(f).limit(1))


def expected(text):
    return 'SELECT ' + text + ' LIMIT 1'


@prop('C15')
def aggregate(name: AGG, e: COLNAME, distinct: Choice('no', 'yes', 'on', 'off', 'onoff', 'offon')):
    """NAME(expr), DISTINCT exactly when last requested."""
    assume(name != 'count' or not (isinstance(e, str) and e == '*' or isinstance(e, (str, int)) and not e))
    assume(not (is_sql(e) and TEXT(e) == '*'))
    on = False
    if distinct == 'yes':
        f = getattr(sqlpuzzle, name + '_distinct')(e)
        on = True
    else:
        f = getattr(sqlpuzzle, name)(e)
    if distinct == 'on':
        check(f.distinct() is f, 'returns itself')
        on = True
    elif distinct == 'off':
        f = getattr(sqlpuzzle, name + '_distinct')(e).distinct(False)
    elif distinct == 'onoff':
        f.distinct(True).distinct(False)
    elif distinct == 'offon':
        f.distinct(False).distinct(True)
        on = True
    check_eq(text_of(f), expected(AGGREGATES[name] + '(' + ('DISTINCT ' if on else '') + REF(e) + ')'), 'aggregate')


@prop('C15')
def aggregate_of_many(name: AGG, es: Seq(COLNAME), kind: Choice('list', 'tuple'), distinct: BOOL):
    """Several expressions, comma separated."""
    assume(name != 'count' or len(es) > 0)
    f = getattr(sqlpuzzle, name)(tuple(es) if kind == 'tuple' else es)
    if distinct:
        f.distinct()
    check_eq(text_of(f), expected(AGGREGATES[name] + '(' + ('DISTINCT ' if distinct else '') + ', '.join(REF(e) for e in es) + ')'), 'aggregate of many')


@prop('C15')
def count_all(e: Choice(None, '', '*'), distinct: BOOL):
    f = sqlpuzzle.count(e) if e is not None else sqlpuzzle.count()
    if distinct:
        f = sqlpuzzle.count_distinct(e)
    check_eq(text_of(f), expected('COUNT(' + ('DISTINCT ' if distinct else '') + '*)'), 'COUNT(*)')


@prop('C15')
def aggregate_in_condition(name: AGG, e: STR, v: INT):
    """A function as a condition column and as a value."""
    assume(e != '' and e != '*')
    f = getattr(sqlpuzzle, name)(e)
    g = getattr(sqlpuzzle, name)(e)
    text = AGGREGATES[name] + '(' + REF(e) + ')'
    check_eq(str(sqlpuzzle.select(C('x')).having(f, sqlpuzzle.relations.GT(v)).where('c', g)), 'SELECT x WHERE ' + REF('c') + ' = ' + text + ' HAVING ' + text + ' > ' + str(v), 'in conditions')


def same(a, b):
    return type(a) is type(b) and a == b


def concat_list(es):
    known = []
    for e in es:
        if not any(same(e, k) for k in known):
            known.append(e)
    return ', '.join(REF(k) for k in known)


@prop('C15')
def concat_columns(kind: Choice('concat', 'group_concat'), es: Seq(Dom('STRINT'))):
    """All columns in order; none at all is refused."""
    f = getattr(sqlpuzzle, kind)
    if not es:
        check(rejects(InvalidArgumentException, f), 'refused')
        return
    check_eq(text_of(f(*es)), expected(kind.upper() + '(' + concat_list(es) + ')'), 'columns in order')


@prop('C15')
def concat_two(kind: Choice('concat', 'group_concat'), a: COLNAME, b: COLNAME):
    f = getattr(sqlpuzzle, kind)
    check_eq(text_of(f(a)), expected(kind.upper() + '(' + REF(a) + ')'), 'one column')
    assume(not is_sql(a) or not is_sql(b))
    check_eq(text_of(f(a, b)), expected(kind.upper() + '(' + REF(a) + ('' if same(a, b) else ', ' + REF(b)) + ')'), 'two columns')


@prop('C15')
def concat_alias(kind: Choice('concat', 'group_concat'), a: STR, b: STR):
    assume(b != '')
    check_eq(text_of(getattr(sqlpuzzle, kind)((a, b))), expected(kind.upper() + '(' + REF(a) + ' AS ' + REF(b) + ')'), 'pair')


@prop('C15', 'C01')
def group_concat_parts(a: COLNAME, o: COLNAME, down: Choice(None, 'asc', 'desc'), s: STR, form: Choice('plain', 'order', 'separator', 'both', 'late', 'twice')):
    """Columns, ordering, separator."""
    f = sqlpuzzle.group_concat(a)
    order = ' ORDER BY ' + REF(o) + (' DESC' if down == 'desc' else '')
    sep = ' SEPARATOR ' + VAL(s)
    if form == 'order':
        check(f.order_by((o, down)) is f, 'returns itself')
        sep = ''
    elif form == 'separator':
        check(f.separator(s) is f, 'returns itself')
        order = ''
    elif form == 'both':
        f.order_by((o, down)).separator(s)
    elif form == 'late':
        f.separator(s).order_by((o, down))
    elif form == 'twice':
        f.separator('-').order_by((o, down)).separator(s)
    else:
        order = sep = ''
    check_eq(text_of(f), expected('GROUP_CONCAT(' + REF(a) + order + sep + ')'), 'group_concat')


@prop('C15')
def group_concat_orders(a: STR, o: STR, p: STR):
    assume(o != p)
    check_eq(text_of(sqlpuzzle.group_concat(a).order_by(o, (p, 'desc'))), expected('GROUP_CONCAT(' + REF(a) + ' ORDER BY ' + REF(o) + ', ' + REF(p) + ' DESC)'), 'orderings')
    check_eq(text_of(sqlpuzzle.group_concat(a).order_by((p, 'DESC')).order_by(o)), expected('GROUP_CONCAT(' + REF(a) + ' ORDER BY ' + REF(p) + ' DESC, ' + REF(o) + ')'), 'orderings')


@prop('C15')
def group_concat_order_calls(a: STR, os: Seq(Dom('STRINT')), p: COLNAME, shape: Choice('calls', 'call')):
    """Every ordering given stays, in the order of the calls."""
    f = sqlpuzzle.group_concat(a)
    if shape == 'calls':
        for o in os:
            f.order_by(o)
    else:
        f.order_by(*os)
    f.order_by(p)
    known = []
    for e in os:
        if not any(same(e, k) for k in known):
            known.append(e)
    if not any(same(p, k) for k in known):
        known.append(p)
    check_eq(text_of(f), expected('GROUP_CONCAT(' + REF(a) + ' ORDER BY ' + ', '.join(REF(k) for k in known) + ')'), 'orderings of any number of calls')


@prop('C15')
def convert(e: COLNAME, ty: Choice('unsigned', 'Signed', 'CHAR', 'char(10)', 'date'), form: Choice('init', 'to', 'again')):
    if form == 'init':
        f = sqlpuzzle.convert(e, ty)
    elif form == 'to':
        f = sqlpuzzle.convert(e)
        check(f.to(ty) is f, 'returns itself')
    else:
        f = sqlpuzzle.convert(e, 'x').to(ty)
    check_eq(text_of(f), expected('CONVERT(' + REF(e) + ', ' + ty.upper() + ')'), 'convert')


@prop('C15')
def function_with_alias(name: AGG, e: STR, a: STR):
    assume(e != '' and e != '*' and a != '')
    check_eq(text_of((getattr(sqlpuzzle, name)(e), a)), expected(AGGREGATES[name] + '(' + REF(e) + ') AS ' + REF(a)), 'alias')


# ------------------------------------------------------------------ unions
@prop('C15')
def union_two(a: SELECT, b: SELECT, everything: BOOL):
    """Operands unaltered and in order."""
    u = a & b if everything else a | b
    check_eq(str(u), TEXT(a) + (' UNION ALL ' if everything else ' UNION ') + TEXT(b), 'union')
    check_eq(str(u), TEXT(a) + (' UNION ALL ' if everything else ' UNION ') + TEXT(b), 'union again')


@prop('C15')
def union_three(a: SELECT, b: SELECT, c: SELECT, f: BOOL, g: BOOL, nested: Choice('left', 'right')):
    s, u = ' UNION ALL ' if f else ' UNION ', ' UNION ALL ' if g else ' UNION '
    if nested == 'left':
        x = a & b if f else a | b
        y = x & c if g else x | c
    else:
        x = b & c if g else b | c
        y = a & x if f else a | x
    check_eq(str(y), TEXT(a) + s + TEXT(b) + u + TEXT(c), 'union')


@prop('C15')
def union_same_operand(a: SELECT, b: SELECT, f: BOOL, g: BOOL, last: Choice('first', 'second', 'union', 'equal'), nested: Choice('left', 'right')):
    """An operand given twice is rendered twice."""
    s, u = ' UNION ALL ' if f else ' UNION ', ' UNION ALL ' if g else ' UNION '
    x = a & b if f else a | b
    text = TEXT(a) + s + TEXT(b)
    if last == 'first':
        o, t = a, TEXT(a)
    elif last == 'second':
        o, t = b, TEXT(b)
    elif last == 'equal':
        o, t = (a & b if f else a | b), text
    else:
        o, t = x, text
    if nested == 'left':
        y = x & o if g else x | o
        check_eq(str(y), text + u + t, 'union')
    else:
        y = o & x if g else o | x
        check_eq(str(y), t + u + text, 'union')
    check_eq(str(a & a if f else a | a), TEXT(a) + s + TEXT(a), 'union with itself')
    check_eq(str(x), text, 'operand')


@prop('C15')
def union_of_real_selects(a: STR, b: STR, everything: BOOL):
    p, q = sqlpuzzle.select(a).from_('t'), sqlpuzzle.select(b).from_('u').where('c', 1)
    u = p & q if everything else p | q
    text = 'SELECT ' + REF(a) + ' FROM ' + REF('t') + (' UNION ALL ' if everything else ' UNION ') + 'SELECT ' + REF(b) + ' FROM ' + REF('u') + ' WHERE ' + REF('c') + ' = 1'
    check_eq(str(u), text, 'union')
    check_eq(str(sqlpuzzle.select(C('x')).from_table(u, 'z')), 'SELECT x FROM (' + text + ') AS ' + REF('z'), 'union as a table')
    check_eq(str(sqlpuzzle.select(C('x')).where('c', sqlpuzzle.relations.IN(u))), 'SELECT x WHERE ' + REF('c') + ' IN (' + text + ')', 'union as a value')


@prop('C15')
def union_operands(a: SELECT, v: ANY, everything: BOOL):
    """Only SQL objects can be operands."""
    assume(not is_sql(v))
    try:
        u = a & v if everything else a | v
    except (InvalidArgumentException, TypeError):
        check(True, 'other operands are refused')
        return
    check(False, 'other operands are refused')
