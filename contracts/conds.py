"""C06: composition of conditions."""
from vlib import *  # noqa
from contracts.common import cond_text, rejects

Q = sqlpuzzle.Q


def select_x():
    return sqlpuzzle.select(sqlpuzzle.C('x'))


def same(a, b):
    return type(a) is type(b) and a == b


def same_pair(p, q):
    return same(p[0], q[0]) and same(p[1], q[1])


def start(kind, *args):
    """Query whose conditions of the given kind are args; text before them."""
    if kind == 'where':
        return select_x().where(*args), 'SELECT x WHERE '
    if kind == 'having':
        return select_x().having(*args), 'SELECT x HAVING '
    if kind == 'delete':
        return sqlpuzzle.delete_from(sqlpuzzle.C('t')).allow_delete_all().where(*args), 'DELETE FROM t WHERE '
    return sqlpuzzle.update(sqlpuzzle.C('t')).set(sqlpuzzle.C('y')).allow_update_all().where(*args), 'UPDATE t SET y WHERE '


def more(kind, q, *args, **kwds):
    return q.having(*args, **kwds) if kind == 'having' else q.where(*args, **kwds)


KIND = Choice('where', 'having', 'update', 'delete')


@prop('C06', 'C09', sym={'pairs': Seq(Tup(STR, Dom('INT')))}, budget=2)
def condition_step(kind: KIND, pairs: Seq(Tup(STR, SCAL)), c: NAME, v: COND):
    """One more condition after any number of conditions: joined by AND, unless it is there already."""
    q, prefix = start(kind, pairs)
    more(kind, q, c, v)
    known = []
    for p in pairs:
        if not any(same_pair(p, k) for k in known):
            known.append(p)
    if not any(same_pair((c, v), k) for k in known):
        known.append((c, v))
    check_eq(str(q), (prefix + ' AND '.join(cond_text(*p) for p in known)).strip(), 'conditions joined by AND')


@prop('C06', 'C09', budget=2)
def condition_pair(kind: KIND, a: STR, v: COND, c: NAME, w: COND):
    """Two conditions with any values."""
    q, prefix = start(kind, a, v)
    more(kind, q, c, w)
    assume(not (is_sql(v) and is_sql(w) or is_sql(c)))
    if same_pair((a, v), (c, w)):
        check_eq(str(q), (prefix + cond_text(a, v)).strip(), 'duplicate condition')
    else:
        check_eq(str(q), (prefix + cond_text(a, v) + ' AND ' + cond_text(c, w)).strip(), 'conditions are joined by AND')


@prop('C06', 'C08', sym={'v2': INT, 'v3': INT})
def condition_call_of_many(kind: KIND, c1: STR, v1: INT, c2: STR, v2: SCAL, c3: STR, v3: SCAL):
    """One call with three conditions is three calls."""
    q, _ = start(kind, (c1, v1), (c2, v2), (c3, v3))
    p, _ = start(kind, c1, v1)
    more(kind, p, c2, v2)
    more(kind, p, c3, v3)
    check_eq(str(q), str(p), 'same conditions')


@prop('C06')
def custom_condition_step(kind: KIND, s: STR, c: NAME, v: COND, u: STR):
    """Custom SQL as a condition, before and after an ordinary one."""
    q, prefix = start(kind, sqlpuzzle.C(s))
    more(kind, q, c, v)
    text = prefix + s + ' AND ' + cond_text(c, v)
    if s == cond_text(c, v):
        return check(True, 'the same condition')
    check_eq(str(q), text.strip(), 'custom and ordinary condition')
    more(kind, q, sqlpuzzle.C(u))
    check_eq(str(q), (text + ' AND ' + u).strip(), 'custom condition at the end')


OPERATOR = Choice('and', 'or')


def combine(op, a, b):
    return a & b if op == 'and' else a | b


def word(op):
    return ' AND ' if op == 'and' else ' OR '


@prop('C06')
def combine_single(op: OPERATOR, c1: NAME, v1: COND, c2: NAME, v2: COND):
    """Operands of one condition are not parenthesised themselves."""
    check_eq(str(combine(op, Q(c1, v1), Q(c2, v2))), '(' + cond_text(c1, v1) + word(op) + cond_text(c2, v2) + ')', 'pair')


@prop('C06', sym={'c3': STR, 'v3': Dom('INTNONE')})
def combine_many(op: OPERATOR, c1: STR, v1: INT, c2: STR, v2: INT, rest: Seq(Tup(STR, INT)), c3: NAME, v3: COND, swap: BOOL):
    """An operand of several conditions is parenthesised."""
    assume(not same_pair((c1, v1), (c2, v2)))
    many = Q((c1, v1), (c2, v2), *rest)
    text = str(many)
    one = Q(c3, v3)
    if swap:
        check_eq(str(combine(op, one, many)), '(' + cond_text(c3, v3) + word(op) + '(' + text + '))', 'right operand')
    else:
        check_eq(str(combine(op, many, one)), '((' + text + ')' + word(op) + cond_text(c3, v3) + ')', 'left operand')


@prop('C06')
def combine_many_many(op: OPERATOR, c1: STR, v1: INT, c2: STR, v2: INT, a: Seq(Tup(STR, INT)), c3: STR, v3: INT, c4: STR, v4: INT, b: Seq(Tup(STR, INT))):
    assume(not same_pair((c1, v1), (c2, v2)))
    assume(not same_pair((c3, v3), (c4, v4)))
    left, right = Q((c1, v1), (c2, v2), *a), Q((c3, v3), (c4, v4), *b)
    check_eq(str(combine(op, left, right)), '((' + str(left) + ')' + word(op) + '(' + str(right) + '))', 'pair')


@prop('C06')
def many_text(c1: STR, v1: INT, c2: STR, v2: INT):
    assume(not same_pair((c1, v1), (c2, v2)))
    check_eq(str(Q((c1, v1), (c2, v2))), cond_text(c1, v1) + ' AND ' + cond_text(c2, v2), 'conditions of Q')


@prop('C06')
def combine_nested(op: OPERATOR, s: STR, c: NAME, v: COND, swap: BOOL):
    """Operand is a composition of any depth (represented by any text)."""
    a, b = some_composition(s), Q(c, v)
    if swap:
        check_eq(str(combine(op, b, a)), '(' + cond_text(c, v) + word(op) + str(a) + ')', 'composition on the right')
    else:
        check_eq(str(combine(op, a, b)), '(' + str(a) + word(op) + cond_text(c, v) + ')', 'composition on the left')


@prop('C06')
def combine_nested_many(op: OPERATOR, s: STR, c1: STR, v1: SCAL, c2: STR, v2: SCAL, swap: BOOL):
    assume(not same_pair((c1, v1), (c2, v2)))
    a, b = some_composition(s), Q((c1, v1), (c2, v2))
    if swap:
        check_eq(str(combine(op, b, a)), '((' + str(b) + ')' + word(op) + str(a) + ')', 'composition on the right')
    else:
        check_eq(str(combine(op, a, b)), '(' + str(a) + word(op) + '(' + str(b) + '))', 'composition on the left')


@prop('C06')
def combine_nested_nested(op: OPERATOR, s: STR, u: STR):
    a, b = some_composition(s), some_composition(u)
    check_eq(str(combine(op, a, b)), '(' + str(a) + word(op) + str(b) + ')', 'two compositions')


TREE = Choice(((0, 1), (2, 3)), (((0, 1), 2), 3), ((0, (1, 2)), 3), (0, ((1, 2), 3)), (0, (1, (2, 3))), ((0, 1), 2), (0, (1, 2)))


def composed(tree, ops, leaves):
    """Composition of the leaves in the shape of the tree, and its text; operators in infix order."""
    if isinstance(tree, int):
        return leaves[tree]
    left, left_text = composed(tree[0], ops, leaves)
    right, right_text = composed(tree[1], ops, leaves)
    first = tree[1]
    while not isinstance(first, int):
        first = first[0]
    op = ops[first - 1]
    return combine(op, left, right), '(' + left_text + word(op) + right_text + ')'


@prop('C06')
def combine_tree(tree: TREE, op1: OPERATOR, op2: OPERATOR, op3: OPERATOR, many: Choice(0, 1, 2, 3, None), c: STR, v: INT):
    """Every way to bracket three and four conditions."""
    several = Q((c, v), (c + '0', v))
    leaves = [(several, '(' + str(several) + ')') if many == i else (Q(c + str(i), v), cond_text(c + str(i), v)) for i in range(4)]
    q, text = composed(tree, (op1, op2, op3), leaves)
    check_eq(str(q), text, 'composition')
    check_eq(str(select_x().where(q)), 'SELECT x WHERE ' + text, 'composition in WHERE')


@prop('C06', sym={'v1': INT, 'v2': INT, 'c3': STR})
def composition_as_condition(kind: KIND, op: OPERATOR, c1: STR, v1: SCAL, c2: STR, v2: SCAL, c3: NAME, v3: COND):
    """where(Q | Q), with further conditions."""
    comp = combine(op, Q(c1, v1), Q(c2, v2))
    q, prefix = start(kind, comp)
    text = prefix + '(' + cond_text(c1, v1) + word(op) + cond_text(c2, v2) + ')'
    check_eq(str(q), text, 'composition alone')
    more(kind, q, c3, v3)
    check_eq(str(q), (text + ' AND ' + cond_text(c3, v3)).strip(), 'composition and another condition')


@prop('C06', 'C08')
def compositions_as_conditions(kind: KIND, s: STR, u: STR, c: STR, v: SCAL):
    """where(Q, Q, key=value)"""
    a, b = some_composition(s), some_composition(u)
    assume(str(a) != str(b))
    q, prefix = start(kind, a, b)
    check_eq(str(q), (prefix + str(a) + ' AND ' + str(b)).strip(), 'two compositions')
    more(kind, q, Q(c, v))
    check_eq(str(q), prefix + str(a) + ' AND ' + str(b) + ' AND ' + cond_text(c, v), 'Q after them')


@prop('C06')
def negation(c: NAME, v: COND, s: STR):
    check_eq(str(sqlpuzzle.Not(c, v)), 'NOT(' + cond_text(c, v) + ')', 'NOT of a condition')
    a = some_composition(s)
    check_eq(str(sqlpuzzle.Not(a)), 'NOT(' + str(a) + ')', 'NOT of a composition')
    check_eq(str(select_x().where(sqlpuzzle.Not(c, v))), 'SELECT x WHERE NOT(' + cond_text(c, v) + ')', 'NOT in WHERE')


@prop('C06')
def negation_of_many(c1: STR, v1: SCAL, c2: STR, v2: SCAL):
    assume(not same_pair((c1, v1), (c2, v2)))
    check_eq(str(sqlpuzzle.Not((c1, v1), (c2, v2))), 'NOT(' + cond_text(c1, v1) + ' AND ' + cond_text(c2, v2) + ')', 'NOT of conditions')
    check_eq(str(sqlpuzzle.Not(a=v1, b=v2)), 'NOT(' + cond_text('a', v1) + ' AND ' + cond_text('b', v2) + ')', 'NOT of keywords')


@prop('C06')
def existence(s: SELECT, kind: KIND):
    check_eq(str(sqlpuzzle.exists(s)), 'EXISTS(' + TEXT(s) + ')', 'EXISTS')
    q, prefix = start(kind, sqlpuzzle.exists(s))
    check_eq(str(q), prefix + 'EXISTS(' + TEXT(s) + ')', 'EXISTS as a condition')


@prop('C06', 'C12')
def having_and_where(c: STR, v: SCAL, d: STR, w: SCAL, swap: BOOL):
    """Conditions of HAVING and WHERE are independent."""
    q = select_x()
    if swap:
        q.having(d, w).where(c, v)
    else:
        q.where(c, v).having(d, w)
    check_eq(str(q), 'SELECT x WHERE ' + cond_text(c, v) + ' HAVING ' + cond_text(d, w), 'independent conditions')


@prop('C06')
def not_a_condition(op: OPERATOR, c: STR, v: INT, x: ANY):
    """Only conditions can be combined."""
    assume(not isinstance(x, (type(Q(c, v)), AnyCondition)))
    check(rejects(TypeError, combine, op, Q(c, v), x), 'refused')
    check(rejects(TypeError, combine, op, AnyCondition('y'), x), 'refused')


class OwnQ(type(Q(a=1))):
    """Condition object of a class derived from the one of Q()."""


@prop('C06')
def combine_derived(op: OPERATOR, c1: STR, v1: INT, c2: STR, v2: INT, c3: STR, v3: INT, swap: BOOL):
    """Operands of derived classes are parenthesised alike."""
    assume(c1 != c2)
    a, b = OwnQ([(c1, v1), (c2, v2)]), OwnQ(c3, v3)
    if swap:
        check_eq(str(combine(op, b, a)), '(' + cond_text(c3, v3) + word(op) + '(' + cond_text(c1, v1) + ' AND ' + cond_text(c2, v2) + '))', 'several on the right')
    else:
        check_eq(str(combine(op, a, b)), '((' + cond_text(c1, v1) + ' AND ' + cond_text(c2, v2) + ')' + word(op) + cond_text(c3, v3) + ')', 'several on the left')
