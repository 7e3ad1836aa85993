"""C09: accumulation in call order, only real duplicates collapse."""
from vlib import *  # noqa
from contracts.common import cond_text

C = sqlpuzzle.C


def same(a, b):
    return type(a) is type(b) and a == b


def same_pair(p, q):
    return same(p[0], q[0]) and same(p[1], q[1])


def unique_pairs(pairs):
    known = []
    for p in pairs:
        if not any(same_pair(p, k) for k in known):
            known.append(p)
    return known


def unique(items):
    known = []
    for x in items:
        if not any(same(x, k) for k in known):
            known.append(x)
    return known


def with_alias(name, alias):
    if alias is None or isinstance(alias, str) and alias == '':
        return REF(name)
    return REF(name) + ' AS ' + REF(alias)


@prop('C09', 'C08', sym={'pairs': Seq(Tup(STR, STRNONE)), 'c': Dom('STR')}, budget=2)
def columns_step(pairs: Seq(Tup(Dom('STRINT'), STRNONE)), c: COLNAME, a: STRNONE, form: Choice('pair', 'dict', 'columns')):
    """One more column after any number of columns."""
    q = sqlpuzzle.select()
    for p in pairs:
        q.columns(p)
    known = unique_pairs(pairs)
    q.limit(1)
    check_eq(str(q), 'SELECT ' + (', '.join(with_alias(*p) for p in known) if pairs else '*') + ' LIMIT 1', 'columns')
    if form == 'pair':
        q.columns((c, a))
    elif form == 'dict':
        assume(isinstance(c, str))
        q.columns({c: a})
    else:
        a = None
        q.columns(c)
    if not any(same_pair((c, a), k) for k in known):
        known.append((c, a))
    check_eq(str(q), 'SELECT ' + ', '.join(with_alias(*p) for p in known) + ' LIMIT 1', 'columns and one more')


@prop('C09', budget=2)
def tables_step(pairs: Seq(Tup(STR, STRNONE)), t: NAME, a: STRNONE):
    q = sqlpuzzle.select(C('x')).limit(1)
    for p in pairs:
        q.from_(p)
    known = unique_pairs(pairs)
    check_eq(str(q), 'SELECT x' + (' FROM ' + ', '.join(with_alias(*p) for p in known) if pairs else '') + ' LIMIT 1', 'tables')
    q.from_table(t, a)
    if not any(same_pair((t, a), k) for k in known):
        known.append((t, a))
    check_eq(str(q), 'SELECT x FROM ' + ', '.join(with_alias(*p) for p in known) + ' LIMIT 1', 'tables and one more')


@prop('C09', sym={'pairs': Seq(Tup(STR, INT)), 'c': STR}, budget=2)
def assignments_step(pairs: Seq(Tup(STR, Dom('PLAIN'))), c: NAME, v: ASSIGN):
    q = sqlpuzzle.update(C('t')).set(pairs).allow_update_all()
    q.set(c, v)
    known = unique_pairs(pairs)
    if not any(same_pair((c, v), k) for k in known):
        known.append((c, v))
    check_eq(str(q), ('UPDATE t SET ' + ', '.join(REF(k) + ' = ' + VAL(w) for k, w in known)).strip(), 'assignments')


@prop('C09')
def group_step(cols: Seq(Dom('STRINT')), c: COLNAME, kind: Choice('order', 'group')):
    q = sqlpuzzle.select(C('x')).limit(1)
    known = unique(cols)
    if kind == 'order':
        for x in cols:
            q.order_by(x)
        q.order_by(c)
        word = 'ORDER BY '
    else:
        for x in cols:
            q.group_by(x)
        q.group_by(c)
        word = 'GROUP BY '
    if not any(same(c, k) for k in known):
        known.append(c)
    check_eq(str(q), 'SELECT x ' + word + ', '.join(REF(k) for k in known) + ' LIMIT 1', 'in call order')


@prop('C09', 'C13')
def reorder(cols: Seq(STR), c: STR, kind: Choice('order', 'group'), sort: Choice('desc', 'asc', 'Desc', None)):
    """Ordering on a column already ordered updates its direction in place."""
    q = sqlpuzzle.select(C('x')).limit(1)
    known = unique(cols)
    if kind == 'order':
        for x in cols:
            q.order_by(x)
        q.order_by((c, sort))
        word = 'ORDER BY '
    else:
        for x in cols:
            q.group_by(x)
        q.group_by((c, sort))
        word = 'GROUP BY '
    items = [[k, ''] for k in known]
    down = ' DESC' if sort in ('desc', 'Desc') else ''
    for item in items:
        if same(item[0], c):
            item[1] = down
            break
    else:
        items.append([c, down])
    check_eq(str(q), 'SELECT x ' + word + ', '.join(REF(i[0]) + i[1] for i in items) + ' LIMIT 1', 'direction updated in place')


@prop('C09', 'C13', sym=False)
def order_history(pairs: Seq(Tup(Dom('STRINT'), Choice('asc', 'desc', None, 'DESC'))), split: INT):
    """Any history of orderings: the last direction of a column, at its first position."""
    q = sqlpuzzle.select(C('x')).limit(1)
    k = split % (len(pairs) + 1)
    q.order_by(*pairs[:k]).order_by(*pairs[k:])
    known = []
    for c, s in pairs:
        for item in known:
            if same(item[0], c):
                item[1] = s
                break
        else:
            known.append([c, s])
    text = ', '.join(REF(c) + (' DESC' if s is not None and s.upper() == 'DESC' else '') for c, s in known)
    check_eq(str(q), 'SELECT x' + (' ORDER BY ' + text if known else '') + ' LIMIT 1', 'orderings')


@prop('C09', 'C10')
def rows_step(rows: Seq(Tup(Dom('PLAIN'))), v: ASSIGN, w: ASSIGN):
    """Rows are added at the end and never merged."""
    assume(len(rows) > 0)
    q = sqlpuzzle.insert().into(C('t'))
    for (x,) in rows:
        q.values('c', x)
    q.values('c', v)
    q.values(c=w)
    check_eq(str(q), 'INSERT INTO t (' + REF('c') + ') VALUES ' + ', '.join('(' + VAL(x) + ')' for x in [r[0] for r in rows] + [v, w]), 'rows')


@prop('C09')
def custom_parts(s: STR, u: STR, c: STR, v: SCAL):
    """Custom SQL as a part among ordinary ones."""
    assume(REF(c) + ' = ' + VAL(v) != s)
    q = sqlpuzzle.update(C('t')).set(C(s)).set(c, v).set(C(u)).where('w', 1)
    check_eq(str(q), 'UPDATE t SET ' + s + ', ' + REF(c) + ' = ' + VAL(v) + ', ' + u + ' WHERE ' + REF('w') + ' = 1', 'assignments')


@prop('C09', sym={'v': Dom('INTBOOL'), 'w': Dom('INTBOOL')})
def look_alikes(kind: Choice('where', 'having', 'set', 'column', 'table', 'order'), c: STR, v: Dom('LOOK'), w: Dom('LOOK')):
    """Values that compare equal but are not the same (1, True, 1.0, '1', C('1')) are different parts."""
    assume(type(v) is not type(w))
    q = sqlpuzzle.select(C('x'))
    if kind == 'where':
        q.where(c, v).where(c, w)
        check_eq(str(q), 'SELECT x WHERE ' + cond_text(c, v) + ' AND ' + cond_text(c, w), 'both conditions')
    elif kind == 'having':
        q.having(c, v).having(c, w)
        check_eq(str(q), 'SELECT x HAVING ' + cond_text(c, v) + ' AND ' + cond_text(c, w), 'both conditions')
    elif kind == 'set':
        q = sqlpuzzle.update(C('t')).set(c, v).set(c, w).allow_update_all()
        check_eq(str(q), 'UPDATE t SET ' + REF(c) + ' = ' + VAL(v) + ', ' + REF(c) + ' = ' + VAL(w), 'both assignments')
    elif kind == 'column':
        assume(not isinstance(v, (bool, float, decimal.Decimal)) and not isinstance(w, (bool, float, decimal.Decimal)))
        q = sqlpuzzle.select(v).columns(w)
        check_eq(str(q), 'SELECT ' + REF(v) + ', ' + REF(w), 'both columns')
    elif kind == 'table':
        assume(not isinstance(v, (bool, int, float, decimal.Decimal)) and not isinstance(w, (bool, int, float, decimal.Decimal)))
        q.from_(v).from_(w)
        check_eq(str(q), 'SELECT x FROM ' + REF(v) + ', ' + REF(w), 'both tables')
    else:
        assume(not isinstance(v, (bool, float, decimal.Decimal)) and not isinstance(w, (bool, float, decimal.Decimal)))
        q.order_by(v).order_by(w)
        check_eq(str(q), 'SELECT x ORDER BY ' + REF(v) + ', ' + REF(w), 'both orderings')


@prop('C09')
def relations_differ(c: STR, v: Dom('STRINT'), w: Dom('STRINT'), a: Choice('EQ', 'NE', 'GT', 'GE', 'LT', 'LE'), b: Choice('EQ', 'NE', 'GT', 'GE', 'LT', 'LE')):
    """The same column with another relation or value is another condition."""
    ops = {'EQ': '=', 'NE': '!=', 'GT': '>', 'GE': '>=', 'LT': '<', 'LE': '<='}
    q = sqlpuzzle.select(C('x')).where(c, getattr(sqlpuzzle.relations, a)(v))
    q.where(c, getattr(sqlpuzzle.relations, b)(w))
    text = 'SELECT x WHERE ' + REF(c) + ' ' + ops[a] + ' ' + VAL(v)
    if a != b or not same(v, w):
        text += ' AND ' + REF(c) + ' ' + ops[b] + ' ' + VAL(w)
    check_eq(str(q), text, 'conditions')


@prop('C09')
def lists_step(kind: Choice('where', 'having'), c: STR, a: Seq(Dom('INTBOOL')), b: Seq(Dom('INTBOOL'))):
    """A second list is left out only if it has the same elements of the same types in the same order."""
    assume(len(a) > 0 and len(b) > 0)
    q = sqlpuzzle.select(C('x'))
    if kind == 'where':
        q.where(c, a).where(c, b)
    else:
        q.having(c, a).having(c, b)
    text = 'SELECT x ' + kind.upper() + ' ' + REF(c) + ' IN ' + VAL(a)
    if not (len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))):
        text += ' AND ' + REF(c) + ' IN ' + VAL(b)
    check_eq(str(q), text, 'lists')


@prop('C09')
def list_elements_step(c: STR, x: Dom('VALSQL'), y: Dom('VALSQL')):
    """Look-alike elements."""
    assume(x is not None and y is not None)
    q = sqlpuzzle.select(C('x')).where(c, [x, 1]).where(c, [y, 1])
    text = 'SELECT x WHERE ' + REF(c) + ' IN ' + VAL([x, 1])
    if not same(x, y):
        text += ' AND ' + REF(c) + ' IN ' + VAL([y, 1])
    check_eq(str(q), text, 'lists')
