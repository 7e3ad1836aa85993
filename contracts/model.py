"""Reference model of the builders: what a history of calls has to render to.  Independent of the package's own code.

Used by the bounded harnesses (any calls, any argument shapes) and, in parts, by the proved ones.
"""
from vlib import *  # noqa
from contracts.rels import OPERATORS, in_text, is_number
from contracts.limits import SELECT_OPTIONS


def same(a, b):
    """The same argument: same type and value, element by element."""
    if isinstance(a, (list, tuple)) and type(a) is type(b):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return type(a) is type(b) and a == b


# ------------------------------------------------------------------ arguments
def entries(args, kwds, lo=1, listed=False):
    """Pairs meant by the arguments of a builder call, Invalid if the call has to be refused."""
    if lo == 2 and len(args) == 2 and not isinstance(args[0], (list, tuple)):
        items = [args]
    elif listed and len(args) == 1 and isinstance(args[0], (list, tuple)):
        items = args[0]
    elif len(args) == 1 and isinstance(args[0], dict):
        items = []
    else:
        items = args
    out = []
    for item in items:
        if not isinstance(item, (list, tuple)):
            item = (item,)
        if len(item) < lo or len(item) > 2:
            raise Invalid()
        out.append((item[0], item[1] if len(item) == 2 else None))
    if len(args) == 1 and isinstance(args[0], dict):
        out += [(k, args[0][k]) for k in sorted(args[0])]
    return out + [(k, kwds[k]) for k in sorted(kwds)]


def is_name(x):
    return isinstance(x, str) or is_sql(x)


def is_colname(x):
    return is_name(x) or isinstance(x, int) and not isinstance(x, bool)


def is_assignable(x):
    return x is None or isinstance(x, (str, int, float, bytes, decimal.Decimal, datetime.date)) or is_sql(x)


def is_condvalue(x):
    return (x is None or isinstance(x, (str, int, float, decimal.Decimal, list, tuple, range, datetime.date, type(_ for _ in ()))) or is_sql(x))


def need(ok):
    if not ok:
        raise Invalid()


def with_alias(name, alias):
    return REF(name) + (' AS ' + REF(alias) if alias is not None and not same(alias, '') else '')


# ------------------------------------------------------------------ conditions
def condition(col, value):
    """(kind, col, operator name, operand) of a condition; Invalid if refused."""
    need(is_name(col))
    if isinstance(value, Rel):
        return (col, value.name, value.operand)
    need(is_condvalue(value))
    inner = value.inner if isinstance(value, Wrapped) else value
    if inner is None:
        return (col, 'IS', value)
    if isinstance(inner, (list, tuple, range, type(_ for _ in ()))):
        items = list(inner)
        if any(isinstance(x, (Rel, type(_ for _ in ()))) for x in items):
            raise Skip()   # not values
        return (col, 'IN', value if isinstance(value, Wrapped) else items)
    return (col, 'EQ', value)


class Rel:
    """Description of a relation given as a condition value."""

    def __init__(self, name, operand):
        self.name, self.operand = name, operand

    def tosql(self):
        raise AssertionError

    def real(self):
        return getattr(sqlpuzzle.relations, self.name)(self.operand)


class Wrapped:
    """V(x) or R(x)."""

    def __init__(self, kind, inner):
        self.kind, self.inner = kind, inner

    def tosql(self):
        return VAL(self.inner) if self.kind == 'V' else REF(self.inner)

    def real(self):
        return sqlpuzzle.V(self.inner) if self.kind == 'V' else sqlpuzzle.R(self.inner)

    def __eq__(self, other):
        return isinstance(other, Wrapped) and self.tosql() == other.tosql()

    __hash__ = None


def condition_text(cond, on=False):
    col, op, v = cond
    if op in ('IN', 'NOT_IN'):
        if is_sql(v):
            return REF(col) + (' NOT IN ' if op == 'NOT_IN' else ' IN ') + VAL(v)
        return in_text(col, v, op == 'NOT_IN')
    return REF(col) + ' ' + OPERATORS[op] + ' ' + (REF(v) if on and isinstance(v, str) else VAL(v))


def canonical(op):
    return OPERATORS.get(op, op)


def same_condition(a, b):
    return same(a[0], b[0]) and canonical(a[1]) == canonical(b[1]) and same(a[2], b[2])


MIRROR = {'=': '=', '!=': '!=', '>': '<', '<': '>', '>=': '<=', '<=': '>='}


def same_on(a, b):
    if same_condition(a, b):
        return True
    return (isinstance(a[2], str) and same(a[2], b[0]) and same(a[0], b[2]) and MIRROR.get(canonical(a[1])) == canonical(b[1]))


class Conds:
    """Conditions joined by AND."""

    def __init__(self, on=False):
        self.parts, self.on = [], on

    def where(self, *args, **kwds):
        if not kwds and len(args) == 1 and is_sql(args[0]):
            self.parts.append(('sql', args[0]))
            return
        if args and all(isinstance(a, (QD, Tree)) for a in args):
            for a in args:
                if not any(p[0] == 'sql' and same_group(p[1], a) for p in self.parts):
                    self.parts.append(('sql', a))
            args = ()
        for col, value in entries(args, kwds, 2, True):
            c = condition(col, value)
            if not any(self.known(p, c) for p in self.parts):
                self.parts.append(('cond', c))

    def known(self, p, c):
        if p[0] == 'cond':
            return same_on(p[1], c) if self.on else same_condition(p[1], c)
        # custom SQL of the same text
        return not isinstance(p[1], QD) and p[1].tosql() == condition_text(c, self.on)

    def text(self):
        return ' AND '.join(condition_text(p[1], self.on) if p[0] == 'cond' else p[1].tosql() for p in self.parts)


class QD:
    """Q(...)"""

    def __init__(self, args, kwds):
        self.args, self.kwds = args, kwds
        self.conds = Conds()
        self.conds.where(*args, **kwds)

    def tosql(self):
        return self.conds.text()

    def real(self):
        return sqlpuzzle.Q(*[real(a) for a in self.args], **{k: real(v) for k, v in self.kwds.items()})


class Tree:
    """left & right, left | right"""

    def __init__(self, op, left, right):
        self.op, self.left, self.right = op, left, right

    def tosql(self):
        return '(' + ' '.join((self.side(self.left), 'AND' if self.op == '&' else 'OR', self.side(self.right))) + ')'

    @staticmethod
    def side(x):
        if isinstance(x, QD) and len(x.conds.parts) > 1:
            return '(' + x.tosql() + ')'
        return x.tosql()

    def real(self):
        left, right = self.left.real(), self.right.real()
        return left & right if self.op == '&' else left | right


class GenOf:
    """Generator of items."""

    def __init__(self, items):
        self.items = items

    def real(self):
        return (x for x in self.items)


def same_group(a, b):
    if isinstance(a, QD) and isinstance(b, QD):
        return len(a.conds.parts) == len(b.conds.parts) and all(
            p[0] == q[0] and (same_condition(p[1], q[1]) if p[0] == 'cond' else same_group(p[1], q[1])) for p, q in zip(a.conds.parts, b.conds.parts))
    if isinstance(a, QD):
        return False
    return a.tosql() == b.tosql()


def real(x):
    """The real argument of a description."""
    if isinstance(x, (Rel, Wrapped, QD, Tree, GenOf)):
        return x.real()
    if isinstance(x, list):
        return [real(y) for y in x]
    if isinstance(x, tuple):
        return tuple(real(y) for y in x)
    if isinstance(x, dict):
        return {k: real(v) for k, v in x.items()}
    return x


def modelled(x):
    if isinstance(x, GenOf):
        return x.real()
    if isinstance(x, list):
        return [modelled(y) for y in x]
    if isinstance(x, tuple):
        return tuple(modelled(y) for y in x)
    if isinstance(x, dict):
        return {k: modelled(v) for k, v in x.items()}
    return x


# ------------------------------------------------------------------ tables
JOINS = {'join': 'JOIN', 'inner_join': 'JOIN', 'left_join': 'LEFT JOIN', 'right_join': 'RIGHT JOIN', 'full_join': 'FULL JOIN'}


class Tabs:
    def __init__(self):
        self.tables = []

    def add(self, *args, **kwds):
        args = [a for a in args if a]
        for name, alias in entries(args, kwds):
            need(is_name(name) and (alias is None or is_name(alias)))
            if not any(same(t['name'], name) and same(t['alias'], alias) and not t['joins'] for t in self.tables):
                self.tables.append({'name': name, 'alias': alias, 'joins': []})

    def join(self, kind, arg):
        if kind == 'full_join' and current_backend() != 'postgresql':
            raise InvalidQ()
        if not self.tables:
            raise InvalidQ()
        if isinstance(arg, (list, tuple)) and len(arg) == 2:
            name, alias = arg
        elif isinstance(arg, dict) and len(arg) == 1:
            (name, alias), = arg.items()
        elif isinstance(arg, str):
            name, alias = arg, None
        else:
            raise Invalid()
        need(is_name(name) and (alias is None or is_name(alias)))
        self.tables[-1]['joins'].append({'type': JOINS[kind], 'name': name, 'alias': alias, 'ons': Conds(True)})

    def on(self, *args, **kwds):
        if not self.tables or not self.tables[-1]['joins']:
            raise InvalidQ()
        self.tables[-1]['joins'][-1]['ons'].where(*args, **kwds)

    def text(self):
        return ', '.join(' '.join([with_alias(t['name'], t['alias'])] + [join_text(j) for j in minimized(t['joins'])]) for t in self.tables)


class InvalidQ(Exception):
    """Has to be refused with InvalidQueryException."""


def same_join(a, b):
    return (same(a['name'], b['name']) and same(a['alias'], b['alias']) and len(a['ons'].parts) == len(b['ons'].parts)
            and all(p[0] == q[0] and (same_on(p[1], q[1]) if p[0] == 'cond' else same_group(p[1], q[1])) for p, q in zip(a['ons'].parts, b['ons'].parts)))


def minimized(joins):
    groups = []
    for j in joins:
        for g in groups:
            if same_join(g[0], j):
                g.append(j)
                break
        else:
            groups.append([j])
    out = []
    for g in groups:
        types = set(j['type'] for j in g)
        if len(types) == 1:
            out.append(g[0])
        elif 'JOIN' in types:
            out.append(dict(g[0], type='JOIN'))
        else:
            out += g
    return out


def join_text(j):
    text = j['type'] + ' ' + with_alias(j['name'], j['alias'])
    return text + ' ON ' + j['ons'].text() if j['ons'].parts else text


# ------------------------------------------------------------------ other clauses
class Cols:
    def __init__(self):
        self.parts = []

    def add(self, *args, **kwds):
        for name, alias in entries(args, kwds):
            need(is_colname(name) and (alias is None or is_name(alias)))
            if not any(same(n, name) and same(a, alias) for n, a in self.parts):
                self.parts.append((name, alias))

    def text(self):
        return ', '.join(with_alias(*p) for p in self.parts)


class Ords:
    def __init__(self):
        self.parts = []

    def add(self, *args, **kwds):
        for name, sort in entries(args, kwds):
            need(is_colname(name) and (sort is None or isinstance(sort, str) and sort.upper() in ('ASC', 'DESC')))
            down = sort is not None and sort.upper() == 'DESC'
            for p in self.parts:
                if same(p[0], name):
                    p[1] = down
                    break
            else:
                self.parts.append([name, down])

    def text(self):
        return ', '.join(REF(n) + (' DESC' if d else '') for n, d in self.parts)


class Vals:
    def __init__(self):
        self.parts = []

    def set(self, *args, **kwds):
        if not kwds and len(args) == 1 and is_sql(args[0]):
            self.parts.append(('sql', args[0]))
            return
        for name, value in entries(args, kwds, 2, True):
            need(is_name(name) and is_assignable(value))
            if not any(same(p[1], name) and same(p[2], value) if p[0] == 'val' else p[1].tosql() == REF(name) + ' = ' + VAL(value) for p in self.parts):
                self.parts.append(('val', name, value))

    def text(self):
        return ', '.join(REF(p[1]) + ' = ' + VAL(p[2]) if p[0] == 'val' else p[1].tosql() for p in self.parts)


class Rows:
    def __init__(self):
        self.rows = []

    def add(self, *args, **kwds):
        v = Vals()
        v.set(*args, **kwds)
        self.rows.append(v)

    def text(self):
        cols = sorted(set(p[1] for r in self.rows for p in r.parts))
        rows = []
        for r in self.rows:
            mine = {}
            for p in r.parts:
                mine[p[1]] = p[2]
            rows.append('(' + ', '.join(VAL(mine[c]) if c in mine else 'NULL' for c in cols) + ')')
        return '(' + ', '.join(REF(c) for c in cols) + ') VALUES ' + ', '.join(rows)


# ------------------------------------------------------------------ statements
class Statement:
    """State of a query; `call` mirrors one builder call, `text` is what it has to render to."""

    def __init__(self, kind):
        self.kind = kind
        self.cols, self.tabs, self.wh, self.hv = Cols(), Tabs(), Conds(), Conds()
        self.group, self.order, self.vals, self.rows, self.dup = Ords(), Ords(), Vals(), Rows(), Vals()
        self.targets = Tabs()
        self.options, self.for_update, self.ignore = {}, False, False
        self.limit, self.offset = None, None
        self.outfile = {}
        self.allowed, self.replace, self.conflict, self.dup_kind = False, False, None, None

    def call(self, name, args, kwds):
        k = self.kind
        if name in ('columns',):
            self.cols.add(*args, **kwds)
        elif name in ('from_', 'from_tables', 'into', 'table'):
            self.tabs.add(*args, **kwds)
        elif name == 'from_table':
            self.tabs.add(tuple(args))
        elif name == 'delete':
            self.targets.add(*args)
        elif name in JOINS:
            self.tabs.join(name, *args)
        elif name == 'on':
            self.tabs.on(*args, **kwds)
        elif name == 'where':
            self.wh.where(*args, **kwds)
        elif name == 'having':
            self.hv.where(*args, **kwds)
        elif name == 'group_by':
            self.group.add(*args, **kwds)
        elif name == 'order_by':
            self.order.add(*args, **kwds)
        elif name == 'set':
            self.vals.set(*args, **kwds)
        elif name == 'values':
            self.rows.add(*args, **kwds)
        elif name == 'on_duplicate_key_update':
            self.on_duplicate(args, kwds)
        elif name == 'limit':
            self.set_limit(*args)
        elif name == 'offset':
            self.set_offset(*args)
        elif name in OUTFILE:
            need(isinstance(args[0], str) or is_sql(args[0]))
            self.outfile[name] = args[0]
        elif name in ('allow_delete_all', 'allow_update_all'):
            self.allowed = True
        elif name in ('forbid_delete_all', 'forbid_update_all'):
            self.allowed = False
        elif name == 'ignore':
            self.ignore = bool(args[0]) if args else True
        elif name == 'for_update':
            self.for_update = bool(args[0]) if args else True
        else:
            group, word = SELECT_OPTIONS[name]
            on = bool(args[0]) if args else True
            self.options[group] = word if on else ''
        return k

    def set_limit(self, n, m=None):
        need(n is None or isinstance(n, int) and not isinstance(n, bool))
        if n is None:
            self.limit = self.offset = None
            return
        self.limit = n
        if m is not None:
            self.set_offset(m)

    def set_offset(self, m):
        need(m is None or isinstance(m, int) and not isinstance(m, bool))
        self.offset = m if m else None

    def on_duplicate(self, args, kwds):
        b = current_backend()
        if b == 'mysql':
            self.dup.set(*args, **kwds)
            self.dup_kind = 'mysql'
        elif b == 'postgresql':
            if not args or not isinstance(args[0], str):
                raise InvalidQ()
            self.conflict = args[0]
            self.dup.set(*args[1:], **kwds)
            self.dup_kind = 'postgresql'
        elif b == 'sqlite':
            need(not args and not kwds)
            self.replace = True

    def text(self):
        return ' '.join(x for x in getattr(self, 'text_' + self.kind)() if x is not None).strip()

    def where_text(self):
        return clause('WHERE', self.wh.text() if self.wh.parts else None)

    def text_select(self):
        o = self.outfile
        out = None
        if 'into_outfile' in o:
            out = 'INTO OUTFILE ' + VAL(o['into_outfile'])
            for key, words in OUTFILE.items():
                if key != 'into_outfile' and key in o:
                    out += words + VAL(o[key])
        return ['SELECT', ' '.join(sorted(w for w in self.options.values() if w)) or None, self.cols.text() if self.cols.parts else '*',
                clause('FROM', self.tabs.text() if self.tabs.tables else None), self.where_text(),
                clause('GROUP BY', self.group.text() if self.group.parts else None), clause('HAVING', self.hv.text() if self.hv.parts else None),
                clause('ORDER BY', self.order.text() if self.order.parts else None), None if self.limit is None else 'LIMIT %d' % self.limit,
                None if self.offset is None else 'OFFSET %d' % self.offset, out, 'FOR UPDATE' if self.for_update else None]

    def text_insert(self):
        dup = None
        if self.dup.parts and self.dup_kind == 'mysql':
            dup = 'ON DUPLICATE KEY UPDATE ' + self.dup.text()
        elif self.dup.parts and self.dup_kind == 'postgresql':
            dup = 'ON CONFLICT (' + REF(self.conflict) + ') DO UPDATE ' + self.dup.text()
        return ['REPLACE' if self.replace else 'INSERT', 'IGNORE' if self.ignore else None, 'INTO', self.tabs.text() if self.tabs.tables else None,
                self.rows.text() if self.rows.rows else None, dup]

    def text_update(self):
        if not self.wh.parts and not self.allowed:
            raise Confirm()
        return ['UPDATE', 'IGNORE' if self.ignore else None, self.tabs.text() if self.tabs.tables else None, 'SET',
                self.vals.text() if self.vals.parts else None, self.where_text()]

    def text_delete(self):
        if not self.wh.parts and not self.allowed:
            raise Confirm()
        return ['DELETE', 'IGNORE' if self.ignore else None, self.targets.text() if self.targets.tables else None, 'FROM',
                self.tabs.text() if self.tabs.tables else None, self.where_text()]


class Confirm(Exception):
    """Rendering has to be refused."""


OUTFILE = {'into_outfile': '', 'fields_terminated_by': ' FIELDS TERMINATED BY ', 'lines_terminated_by': ' LINES TERMINATED BY ',
           'optionally_enclosed_by': ' OPTIONALLY ENCLOSED BY '}


def clause(word, text):
    return None if text is None else word + ' ' + text


def snapshot(x, depth=0):
    """Structure of an argument, to see whether a call changed it."""
    if isinstance(x, (list, tuple)):
        return (type(x), tuple(snapshot(y) for y in x))
    if isinstance(x, dict):
        return (dict, tuple((snapshot(k), snapshot(v)) for k, v in x.items()))
    if isinstance(x, (set, frozenset)):
        return (type(x), len(x))
    if isinstance(x, Object):
        try:
            return (type(x), str(x))
        except Exception as ex:   # pylint: disable=broad-except
            return (type(x), type(ex))
    if isinstance(x, (str, int, float, bytes, decimal.Decimal, datetime.date, type(None))):
        return (type(x), repr(x))
    return (type(x), id(x))
