"""C11: joins."""
from vlib import *  # noqa
from sqlpuzzle.exceptions import InvalidArgumentException, InvalidQueryException
from contracts.common import rejects
from contracts.rels import OPERATORS, accepts

C = sqlpuzzle.C
TYPES = {'join': 'JOIN', 'inner_join': 'JOIN', 'left_join': 'LEFT JOIN', 'right_join': 'RIGHT JOIN'}
TYPE = Choice('join', 'inner_join', 'left_join', 'right_join')
OUTER = Choice('left_join', 'right_join')


def same(a, b):
    return type(a) is type(b) and a == b


def operand(v):
    """Value side of an ON condition."""
    return REF(v) if isinstance(v, str) else VAL(v)


def on_text(c, v):
    return REF(c) + (' IS ' if v is None else ' = ') + operand(v)


def query(t='t'):
    return sqlpuzzle.select(C('x')).from_(t)


BASE = 'SELECT x FROM '


@prop('C11')
def join_forms(kind: TYPE, t: STR, a: STR, form: Choice('name', 'pair', 'list', 'dict', 'noalias', 'full')):
    """Join of a table in every argument form."""
    assume(a != '')
    q = query()
    text = REF(t) + ' AS ' + REF(a)
    word = TYPES[kind]
    if form == 'name':
        getattr(q, kind)(t)
        text = REF(t)
    elif form == 'pair':
        getattr(q, kind)((t, a))
    elif form == 'list':
        getattr(q, kind)([t, a])
    elif form == 'dict':
        getattr(q, kind)({t: a})
    elif form == 'noalias':
        getattr(q, kind)((t, None))
        text = REF(t)
    else:
        configure('postgresql')
        q.full_join((t, a))
        text, word = REF(t) + ' AS ' + REF(a), 'FULL JOIN'
        check_eq(str(q.limit(1)), BASE + REF('t') + ' FULL JOIN ' + text + ' LIMIT 1', 'full join')
        return
    check_eq(str(q.limit(1)), BASE + REF('t') + ' ' + word + ' ' + text + ' LIMIT 1', 'join')


@prop('C11')
def join_condition(kind: TYPE, c: NAME, v: COND):
    """ON condition: strings are references, other values literals."""
    q = query()
    getattr(q, kind)('u').on(c, v)
    check_eq(str(q.limit(1)), BASE + REF('t') + ' ' + TYPES[kind] + ' ' + REF('u') + ' ON ' + on_text(c, v) + ' LIMIT 1', 'condition')


@prop('C11', 'C07')
def join_relation(c: STR, v: COND, name: Choice(*sorted(OPERATORS))):
    """ON condition with a relation."""
    assume(accepts(name, v))
    q = query().join('u').on(c, getattr(sqlpuzzle.relations, name)(v))
    check_eq(str(q.limit(1)), BASE + REF('t') + ' JOIN ' + REF('u') + ' ON ' + REF(c) + ' ' + OPERATORS[name] + ' ' + operand(v) + ' LIMIT 1', 'condition')


@prop('C11', 'C06')
def join_two_conditions(c: STR, v: STR, d: STR, w: INT, form: Choice('calls', 'tuples', 'list', 'dict')):
    assume(c < d)
    q = query().join('u')
    if form == 'calls':
        q.on(c, v).on(d, w)
    elif form == 'tuples':
        q.on((c, v), (d, w))
    elif form == 'list':
        q.on([(c, v), (d, w)])
    else:
        q.on({d: w, c: v})
    check_eq(str(q.limit(1)), BASE + REF('t') + ' JOIN ' + REF('u') + ' ON ' + REF(c) + ' = ' + REF(v) + ' AND ' + REF(d) + ' = ' + str(w) + ' LIMIT 1', 'conditions')


@prop('C11', sym={'pairs': Seq(Tup(STR, INT))})
def join_many_conditions(kind: TYPE, pairs: Seq(Tup(STR, Dom('SCAL'))), calls: BOOL):
    """Any number of ON conditions, in call order."""
    q = query()
    getattr(q, kind)('u')
    if calls:
        for c, v in pairs:
            q.on(c, v)
    else:
        q.on(pairs)
    known = []
    for c, v in pairs:
        if not any(same(c, k[0]) and same(v, k[1]) or isinstance(v, str) and same(c, k[1]) and same(v, k[0]) for k in known):
            known.append((c, v))
    text = BASE + REF('t') + ' ' + TYPES[kind] + ' ' + REF('u')
    check_eq(str(q.limit(1)), text + (' ON ' + ' AND '.join(on_text(*k) for k in known) if pairs else '') + ' LIMIT 1', 'conditions')


@prop('C11')
def join_to_last_table(k1: TYPE, k2: TYPE, t1: STR, t2: STR, j1: STR, j2: STR, c: STR, d: STR):
    """A join belongs to the most recent table, a condition to the most recent join."""
    assume(t1 != t2 and t1 != '' and t2 != '')
    q = sqlpuzzle.select(C('x')).from_(t1)
    getattr(q, k1)(j1).on(c, 'a')
    q.from_(t2)
    getattr(q, k2)(j2).on(d, 'b')
    q.limit(1)
    check_eq(str(q), BASE + REF(t1) + ' ' + TYPES[k1] + ' ' + REF(j1) + ' ON ' + REF(c) + ' = ' + REF('a') + ', ' + REF(t2) + ' ' + TYPES[k2] + ' ' + REF(j2) + ' ON ' + REF(d) + ' = ' + REF('b') + ' LIMIT 1', 'each at its own table')


@prop('C11')
def join_many_tables(ts: Seq(STR), kind: TYPE, j: STR):
    """A join after any number of tables belongs to the last one."""
    q = sqlpuzzle.select(C('x'))
    for t in ts:
        q.from_table(t)
    assume(not any(t == '' or t == 'last' for t in ts))
    q.from_('last')
    getattr(q, kind)(j)
    known = []
    for t in ts:
        if not any(same(t, k) for k in known):
            known.append(t)
    check_eq(str(q.limit(1)), BASE + ', '.join(REF(t) for t in known + ['last']) + ' ' + TYPES[kind] + ' ' + REF(j) + ' LIMIT 1', 'at the last table')


@prop('C11')
def on_to_last_join(k1: TYPE, k2: TYPE, j1: STR, j2: STR, c: STR, v: STR, d: STR, w: STR):
    """Two different joins in call order, each with its own conditions."""
    assume(j1 != j2)
    q = query()
    getattr(q, k1)(j1).on(c, v)
    getattr(q, k2)(j2).on(d, w)
    check_eq(str(q.limit(1)), BASE + REF('t') + ' ' + TYPES[k1] + ' ' + REF(j1) + ' ON ' + REF(c) + ' = ' + REF(v) + ' ' + TYPES[k2] + ' ' + REF(j2) + ' ON ' + REF(d) + ' = ' + REF(w) + ' LIMIT 1', 'both joins')


@prop('C11')
def nothing_to_join(kind: Choice('join', 'inner_join', 'left_join', 'right_join', 'full_join'), t: STR, c: STR, v: STR):
    q = sqlpuzzle.select(C('x'))
    if kind == 'full_join':
        configure('postgresql')
    check(rejects(InvalidQueryException, getattr(q, kind), t), 'no table to join to')
    check(rejects(InvalidQueryException, q.on, c, v), 'no table')
    check_eq(str(q), 'SELECT x', 'unchanged')
    q.from_('t')
    check(rejects(InvalidQueryException, q.on, c, v), 'no join to condition')
    check_eq(str(q), BASE + REF('t'), 'unchanged')
    q.left_join('u')
    q.from_('s')
    check(rejects(InvalidQueryException, q.on, c, v), 'no join at the last table')
    check_eq(str(q), BASE + REF('t') + ' LEFT JOIN ' + REF('u') + ', ' + REF('s'), 'unchanged')


@prop('C11', 'C16')
def join_argument(kind: TYPE, t: ANY):
    """What a join accepts as its table."""
    q = query()
    if isinstance(t, str):
        getattr(q, kind)(t)
        check_eq(str(q.limit(1)), BASE + REF('t') + ' ' + TYPES[kind] + ' ' + REF(t) + ' LIMIT 1', 'join')
    elif not isinstance(t, (list, tuple, dict)):
        check(rejects(InvalidArgumentException, getattr(q, kind), t), 'refused')
        check_eq(str(q), BASE + REF('t'), 'unchanged')
    else:
        check(True, 'other shapes')


@prop('C11', 'C16')
def join_argument_size(kind: TYPE, t: Seq(Dom('STRNONE'))):
    """Lists of another length than two are refused."""
    assume(len(t) != 2)
    q = query()
    check(rejects(InvalidArgumentException, getattr(q, kind), t), 'refused')
    check(rejects(InvalidArgumentException, getattr(q, kind), tuple(t)), 'refused')
    check_eq(str(q), BASE + REF('t'), 'unchanged')


@prop('C11', 'C16')
def join_argument_types(kind: TYPE, t: ANY, a: ANY):
    """Name and alias of the joined table."""
    q = query()
    if (isinstance(t, str) or is_sql(t)) and (a is None or isinstance(a, str) or is_sql(a)):
        getattr(q, kind)((t, a))
        plain = a is None or isinstance(a, str) and a == ''
        check_eq(str(q.limit(1)), BASE + REF('t') + ' ' + TYPES[kind] + ' ' + REF(t) + ('' if plain else ' AS ' + REF(a)) + ' LIMIT 1', 'join')
    else:
        check(rejects(InvalidArgumentException, getattr(q, kind), (t, a)), 'refused')
        check_eq(str(q), BASE + REF('t'), 'unchanged')


# ------------------------------------------------------------------ merging
@prop('C11')
def joins_of_same(k1: TYPE, k2: TYPE, j: STR, a: STRNONE, c: STR, v: Dom('STRINT')):
    """Two joins with the same table, alias and condition."""
    q = query()
    getattr(q, k1)((j, a)).on(c, v)
    getattr(q, k2)((j, a)).on(c, v)
    one, two = TYPES[k1], TYPES[k2]
    table = REF(j) + ('' if a is None or a == '' else ' AS ' + REF(a)) + ' ON ' + on_text(c, v)
    text = BASE + REF('t') + ' '
    if one == 'JOIN' or two == 'JOIN':
        text += 'JOIN ' + table
    elif one == two:
        text += one + ' ' + table
    else:
        text += one + ' ' + table + ' ' + two + ' ' + table
    check_eq(str(q.limit(1)), text + ' LIMIT 1', 'merged to a plain join, to one, or kept')


@prop('C11')
def joins_of_different(k1: TYPE, k2: TYPE, j1: STR, a1: STRNONE, c1: STR, v1: INT, j2: STR, a2: STRNONE, c2: STR, v2: INT):
    """Joins that differ in table, alias or condition are all kept, in call order."""
    assume(j1 != j2 or not same(a1, a2) or c1 != c2 or v1 != v2)
    q = query()
    getattr(q, k1)((j1, a1)).on(c1, v1)
    getattr(q, k2)((j2, a2)).on(c2, v2)
    text = BASE + REF('t')
    text += ' ' + TYPES[k1] + ' ' + REF(j1) + ('' if a1 is None or a1 == '' else ' AS ' + REF(a1)) + ' ON ' + on_text(c1, v1)
    text += ' ' + TYPES[k2] + ' ' + REF(j2) + ('' if a2 is None or a2 == '' else ' AS ' + REF(a2)) + ' ON ' + on_text(c2, v2)
    check_eq(str(q.limit(1)), text + ' LIMIT 1', 'both are kept')


MIRROR = {'EQ': 'EQ', 'NE': 'NE', 'GT': 'LT', 'LT': 'GT', 'GE': 'LE', 'LE': 'GE'}
CMP = Choice('EQ', 'NE', 'GT', 'LT', 'GE', 'LE')


@prop('C11')
def joins_mirrored(k1: TYPE, k2: TYPE, c: STR, v: STR, r1: CMP, r2: CMP):
    """Mirrored comparisons count as the same condition, others do not."""
    assume(c != v)
    q = query()
    getattr(q, k1)('u').on(c, getattr(sqlpuzzle.relations, r1)(v))
    getattr(q, k2)('u').on(v, getattr(sqlpuzzle.relations, r2)(c))
    one, two = TYPES[k1], TYPES[k2]
    first = REF('u') + ' ON ' + REF(c) + ' ' + OPERATORS[r1] + ' ' + REF(v)
    second = REF('u') + ' ON ' + REF(v) + ' ' + OPERATORS[r2] + ' ' + REF(c)
    text = BASE + REF('t') + ' '
    if MIRROR[r1] == r2 and (one == 'JOIN' or two == 'JOIN'):
        text += 'JOIN ' + first
    elif MIRROR[r1] == r2 and one == two:
        text += one + ' ' + first
    else:
        text += one + ' ' + first + ' ' + two + ' ' + second
    check_eq(str(q.limit(1)), text + ' LIMIT 1', 'mirrored')


@prop('C11')
def joins_value_is_not_mirrored(k: OUTER, c: STR, n: INT):
    """Only references can be mirrored."""
    q = query()
    getattr(q, k)('u').on(c, n)
    getattr(q, k)('u').on(c, sqlpuzzle.relations.GT(n))
    text = BASE + REF('t')
    text += ' ' + TYPES[k] + ' ' + REF('u') + ' ON ' + REF(c) + ' = ' + str(n) + ' ' + TYPES[k] + ' ' + REF('u') + ' ON ' + REF(c) + ' > ' + str(n)
    check_eq(str(q.limit(1)), text + ' LIMIT 1', 'both are kept')


@prop('C11')
def joins_of_three(k1: TYPE, k2: TYPE, k3: TYPE, pattern: Choice('aab', 'aba', 'baa', 'aaa'), j1: STR, j2: STR):
    """Same joins need not be adjacent; the merged one stays at the first position."""
    assume(j1 != j2)
    q = query()
    kinds = [k1, k2, k3]
    for k, p in zip(kinds, pattern):
        getattr(q, k)(j1 if p == 'a' else j2).on('c', 'd')
    words = [TYPES[k] for k in kinds]
    end = ' ON ' + REF('c') + ' = ' + REF('d')
    groups = []
    for w, p in zip(words, pattern):
        for g in groups:
            if g[0] == p:
                g[1].append(w)
                break
        else:
            groups.append((p, [w]))
    out = []
    for p, ws in groups:
        if len(ws) > 1 and 'JOIN' in ws:
            ws = ['JOIN']
        elif len(ws) > 1 and len(set(ws)) == 1:
            ws = ws[:1]
        for w in ws:
            out.append(w + ' ' + REF(j1 if p == 'a' else j2) + end)
    check_eq(str(q.limit(1)), BASE + REF('t') + ' ' + ' '.join(out) + ' LIMIT 1', 'merged')


@prop('C11', 'C12')
def joins_rendered_again(k1: TYPE, k2: TYPE, k3: TYPE, j: STR):
    """Merging happens in the text only: a join added after rendering still counts."""
    q, p = query(), query()
    for k in (k1, k2):
        getattr(q, k)(j)
        getattr(p, k)(j)
    first = str(q)
    check_eq(str(q), first, 'the same text again')
    getattr(q, k3)(j)
    getattr(p, k3)(j)
    check_eq(str(q), str(p), 'as if never rendered')


@prop('C11', 'C14')
def full_join_gate(backend: BACKEND, t: STR, c: STR, v: STR):
    """FULL JOIN only on PostgreSQL."""
    configure(backend)
    q = query()
    if backend == 'postgresql':
        q.full_join(t).on(c, v)
        check_eq(str(q.limit(1)), BASE + REF('t') + ' FULL JOIN ' + REF(t) + ' ON ' + REF(c) + ' = ' + REF(v) + ' LIMIT 1', 'full join')
    else:
        check(rejects(InvalidQueryException, q.full_join, t), 'not supported')
        check_eq(str(q), BASE + REF('t'), 'unchanged')


@prop('C11')
def joins_of_full(t: STR, kind: TYPE, again: Choice('full', 'other')):
    configure('postgresql')
    q = query().full_join(t)
    if again == 'full':
        q.full_join(t)
        check_eq(str(q.limit(1)), BASE + REF('t') + ' FULL JOIN ' + REF(t) + ' LIMIT 1', 'merged')
        return
    getattr(q, kind)(t)
    if TYPES[kind] == 'JOIN':
        check_eq(str(q.limit(1)), BASE + REF('t') + ' JOIN ' + REF(t) + ' LIMIT 1', 'merged')
    else:
        check_eq(str(q.limit(1)), BASE + REF('t') + ' FULL JOIN ' + REF(t) + ' ' + TYPES[kind] + ' ' + REF(t) + ' LIMIT 1', 'kept')


@prop('C11')
def joins_of_many(d: Map(STR), kind: TYPE):
    """Any number of different joins, in call order, each with its own condition."""
    q = query()
    for t, c in d.items():
        getattr(q, kind)(t).on(c, 'e')
    text = ' '.join(TYPES[kind] + ' ' + REF(t) + ' ON ' + REF(c) + ' = ' + REF('e') for t, c in d.items())
    check_eq(str(q.limit(1)), BASE + REF('t') + (' ' + text if d else '') + ' LIMIT 1', 'all joins')


@prop('C11')
def joins_with_custom_conditions(k1: TYPE, k2: TYPE, j: STR, s: STR, u: STR, c: STR, v: STR, form: Choice('customs', 'custom first', 'custom last', 'mixed')):
    """Custom SQL among the conditions: merged only if all conditions are the same."""
    assume(s != '' and u != '')
    q = query()
    getattr(q, k1)(j)
    if form == 'customs':
        q.on(C(s))
        first, second, alike = s, u, s == u
    elif form == 'mixed':
        q.on(C(s)).on(c, v)
        first, second, alike = s + ' AND ' + on_text(c, v), u + ' AND ' + on_text(c, v), s == u
    elif form == 'custom first':
        q.on(C(s))
        first, second, alike = s, on_text(c, v), False
    else:
        q.on(c, v)
        first, second, alike = on_text(c, v), s, False
    assume(s != on_text(c, v) and u != on_text(c, v))
    getattr(q, k2)(j)
    if form == 'customs':
        q.on(C(u))
    elif form == 'mixed':
        q.on(C(u)).on(c, v)
    elif form == 'custom first':
        q.on(c, v)
    else:
        q.on(C(s))
    one, two = TYPES[k1], TYPES[k2]
    text = BASE + REF('t') + ' '
    if alike and (one == 'JOIN' or two == 'JOIN'):
        text += 'JOIN ' + REF(j) + ' ON ' + first
    elif alike and one == two:
        text += one + ' ' + REF(j) + ' ON ' + first
    else:
        text += one + ' ' + REF(j) + ' ON ' + first + ' ' + two + ' ' + REF(j) + ' ON ' + second
    check_eq(str(q.limit(1)), text + ' LIMIT 1', 'joins')
