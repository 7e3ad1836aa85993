"""C12: rendering changes nothing; queries, copies and arguments are independent."""
from vlib import *  # noqa
from contracts.common import rejects

C = sqlpuzzle.C
SELECT_OPS = ('columns', 'from', 'join', 'on', 'where', 'having', 'group', 'order', 'limit', 'offset', 'nolimit', 'distinct', 'cache', 'update', 'outfile', 'fields', 'nothing')
UPDATE_OPS = ('set', 'where', 'allow', 'forbid', 'nothing')
DELETE_OPS = ('where', 'allow', 'forbid', 'from', 'nothing')
INSERT_OPS = ('values', 'other', 'ignore', 'duplicate', 'nothing')
OBSERVERS = ('str', 'repr', 'tosql', 'eq', 'ne', 'less', 'hash', 'copy', 'has', 'subquery', 'union')


def new(kind):
    if kind == 'select':
        return sqlpuzzle.select(C('x')).from_('t').join('u')
    if kind == 'update':
        return sqlpuzzle.update('t').set('k', 1)
    if kind == 'delete':
        return sqlpuzzle.delete_from('t')
    return sqlpuzzle.insert_into('t').values('k', 1)


def step(q, op, a, v):
    """One builder call."""
    if op == 'columns':
        q.columns((a, 'alias'))
    elif op == 'from':
        q.from_(('f', a)).join('g') if isinstance(q, Select) else q.from_('f')
    elif op == 'join':
        q.left_join((a, 'j'))
    elif op == 'on':
        q.on(a, v)
    elif op == 'where':
        q.where(a, v)
    elif op == 'having':
        q.having({a: v})
    elif op == 'group':
        q.group_by((a, 'desc'))
    elif op == 'order':
        q.order_by(a)
    elif op == 'limit':
        q.limit(v, 3)
    elif op == 'offset':
        q.offset(v)
    elif op == 'nolimit':
        q.limit(None)
    elif op == 'distinct':
        q.distinct()
    elif op == 'cache':
        q.sql_cache()
    elif op == 'update':
        q.for_update()
    elif op == 'outfile':
        q.into_outfile(a)
    elif op == 'fields':
        q.fields_terminated_by(a)
    elif op == 'set':
        q.set(a, v)
    elif op == 'allow':
        if hasattr(q, 'allow_update_all'):
            q.allow_update_all()
        else:
            q.allow_delete_all()
    elif op == 'forbid':
        if hasattr(q, 'forbid_update_all'):
            q.forbid_update_all()
        else:
            q.forbid_delete_all()
    elif op == 'values':
        q.values(a, v)
    elif op == 'other':
        q.values({a: v, 'k': 2})
    elif op == 'ignore':
        q.ignore()
    elif op == 'duplicate':
        q.on_duplicate_key_update()
    return q


def text(q):
    """Text of a query, or why it has none."""
    try:
        return str(q)
    except sqlpuzzle.exceptions.SqlPuzzleException as e:
        return 'refused: ' + type(e).__name__


def observe(q, how, kind):
    """Look at a query (that may refuse to render)."""
    try:
        if how == 'str':
            str(q)
        elif how == 'repr':
            repr(q)
        elif how == 'tosql':
            q.tosql()
        elif how == 'eq':
            q == new(kind)
            q == 'text'
        elif how == 'ne':
            q != new(kind)
        elif how == 'less':
            q < 'text'
        elif how == 'hash':
            hash(q)
        elif how == 'copy':
            q.copy()
        elif how == 'has':
            q.has('where')
            q.has('columns')
            q.has('tables')
        elif how == 'subquery':
            str(sqlpuzzle.select(C('y')).where('z', q))
        elif how == 'union':
            str(sqlpuzzle.select(C('y')) & q)
    except sqlpuzzle.exceptions.SqlPuzzleException:
        pass


def watch(kind, one, how, two, a, b, v, w):
    """Looking at a query between two calls makes no difference."""
    q, p = new(kind), new(kind)
    step(q, one, a, v)
    step(p, one, a, v)
    observe(q, how, kind)
    before = text(q)
    observe(q, how, kind)
    check_eq(text(q), before, 'the same text again')
    step(q, two, b, w)
    step(p, two, b, w)
    check_eq(text(q), text(p), 'as if never looked at')


@prop('C12', budget=4, sym={'two': Choice('columns', 'from', 'on', 'where', 'order', 'limit', 'distinct', 'outfile')})
def watch_select(one: Choice(*SELECT_OPS), how: Choice(*OBSERVERS), two: Choice(*SELECT_OPS), a: STR, b: STR, v: INT, w: INT):
    watch('select', one, how, two, a, b, v, w)


@prop('C12', 'C04', budget=2)
def watch_update(one: Choice(*UPDATE_OPS), how: Choice(*OBSERVERS), two: Choice(*UPDATE_OPS), a: STR, b: STR, v: INT, w: INT):
    watch('update', one, how, two, a, b, v, w)


@prop('C12', 'C04', budget=2)
def watch_delete(one: Choice(*DELETE_OPS), how: Choice(*OBSERVERS), two: Choice(*DELETE_OPS), a: STR, b: STR, v: INT, w: INT):
    watch('delete', one, how, two, a, b, v, w)


@prop('C12', budget=4, sym={'how': Choice('str', 'eq', 'copy', 'hash', 'subquery')})
def watch_insert(one: Choice(*INSERT_OPS), how: Choice(*OBSERVERS), two: Choice(*INSERT_OPS), a: STR, b: STR, v: INT, w: INT):
    assume(current_backend() != 'postgresql' or one != 'duplicate' and two != 'duplicate')
    watch('insert', one, how, two, a, b, v, w)


def copies(kind, one, two, a, b, v, w):
    """A copy renders like its original, and neither sees the later calls on the other."""
    q, p = step(new(kind), one, a, v), step(new(kind), one, a, v)
    c = q.copy()
    before = text(q)
    check_eq(text(c), before, 'copy renders like the original')
    check(type(c) is type(q) and c is not q, 'another query of the same class')
    step(c, two, b, w)
    check_eq(text(q), before, 'original unchanged by calls on the copy')
    step(p, two, b, w)
    check_eq(text(c), text(p), 'copy goes on like an original')
    d = q.copy()
    step(q, two, b, w)
    check_eq(text(q), text(p), 'original goes on')
    check_eq(text(d), before, 'copy unchanged by calls on the original')


@prop('C12', budget=4)
def copies_of_select(one: Choice(*SELECT_OPS), two: Choice(*SELECT_OPS), a: STR, b: STR, v: INT, w: INT):
    copies('select', one, two, a, b, v, w)


@prop('C12', 'C04', budget=2)
def copies_of_update(one: Choice(*UPDATE_OPS), two: Choice(*UPDATE_OPS), a: STR, b: STR, v: INT, w: INT):
    copies('update', one, two, a, b, v, w)


@prop('C12', 'C04', budget=2)
def copies_of_delete(one: Choice(*DELETE_OPS), two: Choice(*DELETE_OPS), a: STR, b: STR, v: INT, w: INT):
    copies('delete', one, two, a, b, v, w)


@prop('C12', budget=2)
def copies_of_insert(one: Choice(*INSERT_OPS), two: Choice(*INSERT_OPS), a: STR, b: STR, v: INT, w: INT):
    assume(current_backend() != 'postgresql' or one != 'duplicate' and two != 'duplicate')
    copies('insert', one, two, a, b, v, w)


def apart(kind, one, a, v):
    """Calls on one query change no other query, made before or after."""
    older = new(kind)
    before = text(older)
    q = step(new(kind), one, a, v)
    text(q)
    newer = new(kind)
    check_eq(text(older), before, 'older query unchanged')
    check_eq(text(newer), before, 'newer query unchanged')


@prop('C12')
def apart_select(one: Choice(*SELECT_OPS), a: STR, v: INT):
    apart('select', one, a, v)


@prop('C12', 'C04')
def apart_update(one: Choice(*UPDATE_OPS), a: STR, v: INT):
    apart('update', one, a, v)


@prop('C12', 'C04')
def apart_delete(one: Choice(*DELETE_OPS), a: STR, v: INT):
    apart('delete', one, a, v)


@prop('C12')
def apart_insert(one: Choice(*INSERT_OPS), a: STR, v: INT):
    assume(current_backend() != 'postgresql' or one != 'duplicate')
    apart('insert', one, a, v)


# ------------------------------------------------------------------ arguments
@prop('C12')
def arguments_unchanged(kind: Choice('columns', 'from', 'where', 'having', 'on', 'order', 'group', 'set', 'values'), a: STR, b: STR, v: STR):
    """Lists and dictionaries passed in keep their contents."""
    assume(a != b)
    pairs = [(a, v), [b, v]]
    mapping = {b: v, a: v}
    if kind in ('order', 'group'):
        pairs = [(a, 'asc'), [b, 'desc']]
        mapping = {b: 'asc', a: 'desc'}
    first, second = pairs[0], pairs[1]
    value = mapping[a]
    values = list(mapping.values())
    q = sqlpuzzle.update('t').allow_update_all() if kind == 'set' else sqlpuzzle.insert_into('t') if kind == 'values' else sqlpuzzle.select(C('x')).from_('t').join('u')
    for arg in ('pairs', 'mapping'):
        if kind == 'columns':
            q.columns(*pairs) if arg == 'pairs' else q.columns(mapping)
        elif kind == 'from':
            q.from_(*pairs) if arg == 'pairs' else q.from_(mapping)
        elif kind == 'where':
            q.where(pairs) if arg == 'pairs' else q.where(mapping)
        elif kind == 'having':
            q.having(pairs) if arg == 'pairs' else q.having(mapping)
        elif kind == 'on':
            q.on(pairs) if arg == 'pairs' else q.on(mapping)
        elif kind == 'order':
            q.order_by(*pairs) if arg == 'pairs' else q.order_by(mapping)
        elif kind == 'group':
            q.group_by(*pairs) if arg == 'pairs' else q.group_by(mapping)
        elif kind == 'set':
            q.set(pairs) if arg == 'pairs' else q.set(mapping)
        else:
            q.values(pairs) if arg == 'pairs' else q.values(mapping)
    one = str(q)
    check(len(pairs) == 2 and pairs[0] is first and pairs[1] is second, 'list of entries')
    check(len(first) == 2 and len(second) == 2 and first[0] == a and second[0] == b, 'entries')
    check(len(mapping) == 2 and list(mapping) == [b, a] and mapping[a] == value and list(mapping.values()) == values, 'dictionary')
    second[0], second[1] = 'z', 'asc'
    pairs.append(('y', 'desc'))
    mapping[a] = 'asc'
    mapping['y'] = 'desc'
    check_eq(str(q), one, 'changing an argument afterwards')


@prop('C12')
def list_value_unchanged(xs: Seq(Dom('SCAL')), rel: Choice('bare', 'IN', 'NOT_IN'), c: STR):
    """A list as a condition value keeps its elements, rendering included."""
    known = list(xs)
    n = len(xs)
    assume(n > 0)
    q = sqlpuzzle.select(C('x'))
    if rel == 'bare':
        q.where(c, xs)
    else:
        q.where(c, getattr(sqlpuzzle.relations, rel)(xs))
    one = str(q)
    check_eq(str(q), one, 'the same text again')
    check(len(xs) == n, 'no element added or removed')
    check_eq(xs, known, 'the same elements')
    xs.append(1)
    check_eq(str(q), one, 'changing the list afterwards')
    check_eq(str(q.copy()), one, 'copy')


@prop('C12')
def generator_rendered_twice(xs: Seq(INT), c: STR, how: Choice('bare', 'IN', 'NOT_IN', 'V')):
    """A generator as a condition value can be rendered any number of times."""
    assume(len(xs) > 0)
    gen = (x for x in xs)
    q = sqlpuzzle.select(C('x'))
    if how == 'bare':
        q.where(c, gen)
    elif how == 'V':
        q.where(c, sqlpuzzle.V(gen))
    else:
        q.where(c, getattr(sqlpuzzle.relations, how)(gen))
    one = str(q)
    check_eq(one, 'SELECT x WHERE ' + REF(c) + (' NOT IN ' if how == 'NOT_IN' else ' IN ') + '(' + ', '.join(str(x) for x in xs) + ')', 'rendered')
    check_eq(str(q), one, 'the same text again')
    check_eq(str(q.copy()), one, 'copy')


def containing(s, place):
    """A query that contains another one."""
    outer = sqlpuzzle.select(C('x')).from_('t')
    if place == 'column':
        outer.columns((s, 'al'))
    elif place == 'from':
        outer.from_table(s, 'al')
    elif place == 'where':
        outer.where('c', s)
    elif place == 'having':
        outer.having('c', sqlpuzzle.relations.GT(s))
    elif place == 'in':
        outer.where('c', sqlpuzzle.relations.IN(s))
    elif place == 'on':
        outer.join('u').on('c', s)
    elif place == 'union':
        outer = outer & s
    elif place == 'exists':
        outer.where(sqlpuzzle.exists(s))
    elif place == 'list':
        outer.where('c', [s, 1])
    elif place == 'not':
        outer.where(sqlpuzzle.Not('c', s))
    elif place == 'combined':
        outer.where(sqlpuzzle.Q('c', s) | sqlpuzzle.Q('d', 1))
    elif place == 'function':
        outer.columns(sqlpuzzle.max(s))
    elif place == 'order':
        outer.order_by(s)
    elif place == 'set':
        outer = sqlpuzzle.update('t').set('c', s).allow_update_all()
    else:
        outer = sqlpuzzle.insert_into('t').values('c', s)
    return outer


def go_on(outer, place, v):
    if place == 'set':
        outer.where('d', v)
    elif place == 'values':
        outer.values('d', v)
    elif place != 'union':
        outer.where('d', v).limit(v)
    return outer


@prop('C12', budget=2)
def subquery_unchanged(place: Choice('column', 'from', 'where', 'having', 'in', 'on', 'union', 'exists', 'set', 'values', 'list', 'not', 'combined', 'function', 'order'), a: STR, v: INT):
    """A query used inside another one is not changed by that; its own later calls are seen."""
    s = sqlpuzzle.select(a).from_('s')
    before = str(s)
    outer = containing(s, place)
    str(outer)
    go_on(outer, place, v)
    one = str(outer)
    check_eq(str(s), before, 'inner query unchanged')
    check_eq(str(outer), one, 'the same text again')
    copied = outer.copy()
    check_eq(str(copied), one, 'copy of the outer query')
    check_eq(str(s), before, 'inner query unchanged')
    s.where('e', v)
    check_eq(str(copied), one, 'copy unchanged by calls on the inner query')
    check_eq(str(outer), str(go_on(containing(sqlpuzzle.select(a).from_('s').where('e', v), place), place, v)), 'the outer query contains the inner one')


@prop('C12')
def parts_unchanged(kind: Choice('Q', 'compound', 'not', 'V', 'R', 'C', 'relation', 'function', 'concat', 'group_concat'), a: STR, v: INT, how: Choice('str', 'repr', 'eq', 'hash', 'copy')):
    """Query parts can be rendered, compared, hashed and copied."""
    parts = []
    for _ in range(2):
        if kind == 'Q':
            p = sqlpuzzle.Q(a, v)
        elif kind == 'compound':
            p = sqlpuzzle.Q(a, v) & sqlpuzzle.Q((a, v), ('b', 2)) | sqlpuzzle.Q(c=3)
        elif kind == 'not':
            p = sqlpuzzle.Not(a, v)
        elif kind == 'V':
            p = sqlpuzzle.V(v)
        elif kind == 'R':
            p = sqlpuzzle.R(a)
        elif kind == 'C':
            p = C(a)
        elif kind == 'relation':
            p = sqlpuzzle.relations.GT(v)
        elif kind == 'function':
            p = sqlpuzzle.avg(a)
        elif kind == 'concat':
            p = sqlpuzzle.concat(a, 'b')
        else:
            p = sqlpuzzle.group_concat(a).order_by('b').separator('c')
        parts.append(p)
    p, q = parts
    if kind == 'relation':
        p, q = sqlpuzzle.select(C('x')).where('c', p), sqlpuzzle.select(C('x')).where('c', q)
    before = str(q)
    if how == 'str':
        str(p)
    elif how == 'repr':
        repr(p)
    elif how == 'eq':
        p == q
        p == 'text'
    elif how == 'hash':
        try:
            hash(p)
        except TypeError:
            pass
    else:
        c = p.copy()
        check_eq(str(c), before, 'copy renders the same')
        check(c is not p, 'another object')
    check_eq(str(p), before, 'the same text')
    check_eq(str(p), before, 'the same text again')


@prop('C12')
def function_copies(kind: Choice('aggregate', 'group_concat', 'separator', 'convert'), a: STR, b: STR):
    """Changing a function changes no copy of it."""
    if kind == 'aggregate':
        f = sqlpuzzle.sum(a)
        c, before = f.copy(), str(f)
        f.distinct()
    elif kind == 'convert':
        f = sqlpuzzle.convert(a, 'int')
        c, before = f.copy(), str(f)
        f.to('char')
    else:
        f = sqlpuzzle.group_concat(a).order_by('o')
        c, before = f.copy(), str(f)
        if kind == 'separator':
            f.separator(b)
        else:
            f.order_by((b, 'desc'))
    check_eq(str(c), before, 'copy unchanged')
    check(str(f) != before or b == 'o', 'the function itself has changed')
