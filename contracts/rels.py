"""C07: relations."""
from vlib import *  # noqa
from sqlpuzzle.exceptions import InvalidArgumentException
from contracts.common import rejects, is_int

OPERATORS = {
    'EQ': '=', 'NE': '!=', 'GT': '>', 'GE': '>=', 'LT': '<', 'LE': '<=', 'LIKE': 'LIKE', 'NOT_LIKE': 'NOT LIKE', 'REGEXP': 'REGEXP',
    'IS': 'IS', 'IS_NOT': 'IS NOT',
    'EQUAL_TO': '=', 'NOT_EQUAL_TO': '!=', 'GRATHER_THAN': '>', 'GRATHER_THAN_OR_EQUAL_TO': '>=', 'LESS_THAN': '<', 'LESS_THAN_OR_EQUAL_TO': '<=',
}
RELATION = Choice(*sorted(OPERATORS))


def is_number(v):
    return isinstance(v, (int, float, decimal.Decimal)) and not isinstance(v, bool)


def accepts(name, v):
    """Does the relation accept the operand?"""
    if is_sql(v):
        return True
    if name in ('LIKE', 'NOT_LIKE', 'REGEXP'):
        return isinstance(v, str)
    if name in ('IS', 'IS_NOT'):
        return v is None or isinstance(v, bool)
    if isinstance(v, bool):
        return name in ('EQ', 'NE', 'EQUAL_TO', 'NOT_EQUAL_TO')
    return isinstance(v, (str, datetime.date)) or is_number(v)


def select_x():
    return sqlpuzzle.select(sqlpuzzle.C('x'))


@prop('C07', 'C16')
def relation_operands(name: RELATION, c: NAME, v: ANY):
    """Every relation, every operand: rendered with its operator, or refused."""
    rel = getattr(sqlpuzzle.relations, name)
    if accepts(name, v):
        check_eq(str(select_x().where(c, rel(v))), ('SELECT x WHERE ' + REF(c) + ' ' + OPERATORS[name] + ' ' + VAL(v)).strip(), 'column, operator, value')
    else:
        check(rejects(InvalidArgumentException, rel, v), 'wrong operand is refused')


@prop('C07', 'C06')
def relation_in_having(name: RELATION, c: NAME, v: COND):
    rel = getattr(sqlpuzzle.relations, name)
    assume(accepts(name, v))
    check_eq(str(select_x().having(c, rel(v))), ('SELECT x HAVING ' + REF(c) + ' ' + OPERATORS[name] + ' ' + VAL(v)).strip(), 'column, operator, value')


@prop('C07')
def default_relation(c: NAME, v: COND, wrapped: BOOL):
    """Bare scalar value, or the same value wrapped by V."""
    if wrapped:
        value = sqlpuzzle.V(v)
    else:
        value = v
    check_eq(str(select_x().where(c, value)), ('SELECT x WHERE ' + REF(c) + (' IS ' if v is None else ' = ') + VAL(v)).strip(), 'default relation')


@prop('C07')
def default_relation_of_wrapped_bytes(c: NAME, v: Dom('BYTES')):
    check_eq(str(select_x().where(c, sqlpuzzle.V(v))), 'SELECT x WHERE ' + REF(c) + ' = ' + VAL(v), 'default relation')


@prop('C07')
def default_relation_of_wrapped_list(c: NAME, xs: Seq(LITEM), kind: Choice('list', 'tuple', 'gen')):
    assume(len(xs) > 0)
    if kind == 'tuple':
        xs = tuple(xs)
    check_eq(str(select_x().where(c, sqlpuzzle.V((x for x in xs) if kind == 'gen' else xs))), 'SELECT x WHERE ' + REF(c) + ' IN ' + VAL(xs), 'default relation')


def in_text(c, xs, negative):
    """Condition 'c is one of xs' with None expressed by a null test."""
    rest = [x for x in xs if x is not None]
    null = any(x is None for x in xs)
    if negative:
        op, glue, test = ' NOT IN ', ' AND ', ' IS NOT NULL'
    else:
        op, glue, test = ' IN ', ' OR ', ' IS NULL'
    if not rest:
        if not null:
            raise Invalid()
        return REF(c) + test
    text = REF(c) + op + VAL(rest)
    if null:
        return '(' + text + glue + REF(c) + test + ')'
    return text


@prop('C07', weight=3, budget=3)
def in_relation(c: NAME, xs: Seq(LITEM), negative: BOOL, kind: Choice('list', 'tuple', 'gen')):
    """IN and NOT IN over a list of any length."""
    rel = sqlpuzzle.relations.NOT_IN if negative else sqlpuzzle.relations.IN
    items = (x for x in xs) if kind == 'gen' else tuple(xs) if kind == 'tuple' else xs
    cond = rel(items)
    q = select_x().where(c, cond)
    try:
        text = in_text(c, xs, negative)
    except Invalid:
        check(rejects(InvalidArgumentException, str, q), 'empty list is refused')
        return
    check_eq(str(q), ('SELECT x WHERE ' + text).strip(), 'IN')
    check_eq(str(q), ('SELECT x WHERE ' + text).strip(), 'IN again')


@prop('C07', weight=3, budget=3)
def in_relation_arguments(c: NAME, a: LITEM, b: LITEM, xs: Seq(LITEM), negative: BOOL):
    """IN(a, b, ...)"""
    rel = sqlpuzzle.relations.NOT_IN if negative else sqlpuzzle.relations.IN
    check_eq(str(select_x().where(c, rel(a, b, *xs))), ('SELECT x WHERE ' + in_text(c, [a, b] + xs, negative)).strip(), 'IN with arguments')


@prop('C07')
def in_range(c: NAME, r: Dom('RANGE'), negative: BOOL):
    rel = sqlpuzzle.relations.NOT_IN if negative else sqlpuzzle.relations.IN
    q = select_x().where(c, rel(r))
    p = select_x().where(c, r)
    if len(r) == 0:
        check(rejects(InvalidArgumentException, str, q), 'empty range is refused')
        check(rejects(InvalidArgumentException, str, p), 'empty bare range is refused')
        return
    check_eq(str(q), 'SELECT x WHERE ' + in_text(c, list(r), negative), 'IN range')
    check_eq(str(p), 'SELECT x WHERE ' + in_text(c, list(r), False), 'default relation of range')


@prop('C07')
def in_operands(v: ANY, negative: BOOL):
    """IN of a single value that is not iterable."""
    rel = sqlpuzzle.relations.NOT_IN if negative else sqlpuzzle.relations.IN
    assume(is_sql(v) or v is None or isinstance(v, (bool, int, float, decimal.Decimal, datetime.date, Other)))
    if is_sql(v):
        check_eq(str(select_x().where('c', rel(v))), ('SELECT x WHERE ' + REF('c') + (' NOT IN ' if negative else ' IN ') + VAL(v)).strip(), 'IN of SQL object')
    else:
        check(rejects(InvalidArgumentException, rel, v), 'wrong operand is refused')


@prop('C07', weight=3, budget=3)
def default_in(c: NAME, xs: Seq(LITEM), kind: Choice('list', 'tuple', 'gen')):
    """Bare list, tuple or generator as the value of a condition."""
    items = (x for x in xs) if kind == 'gen' else tuple(xs) if kind == 'tuple' else xs
    q = select_x().where(c, items)
    try:
        text = in_text(c, xs, False)
    except Invalid:
        check(rejects(InvalidArgumentException, str, q), 'empty list is refused')
        return
    check_eq(str(q), ('SELECT x WHERE ' + text).strip(), 'IN')
    check_eq(str(q), ('SELECT x WHERE ' + text).strip(), 'IN again')


@prop('C07')
def in_nothing(c: STR, negative: BOOL, a: LITEM):
    """IN without arguments is refused like an empty list, IN of one value and None like the list of them."""
    rel = sqlpuzzle.relations.NOT_IN if negative else sqlpuzzle.relations.IN
    check(rejects(InvalidArgumentException, str, select_x().where(c, rel())), 'nothing')
    check(rejects(InvalidArgumentException, str, select_x().where(c, rel([]))), 'empty list')
    check_eq(str(select_x().where(c, rel(a, None))), ('SELECT x WHERE ' + in_text(c, [a, None], negative)).strip(), 'value or null')
