"""Bounded harnesses: any history of builder calls on the real package against the reference model."""
from vlib import *  # noqa
from sqlpuzzle.exceptions import InvalidArgumentException, InvalidQueryException, ConfirmDeleteAllException, ConfirmUpdateAllException
from contracts import model as M
from contracts.model import Rel, Wrapped, QD, Tree, GenOf, Statement, real, modelled, Confirm, InvalidQ

JOIN_METHODS = ('join', 'inner_join', 'left_join', 'right_join', 'full_join')
METHODS = {
    'select': ('columns', 'from_', 'from_table', 'from_tables', 'where', 'where', 'having', 'group_by', 'order_by', 'limit', 'offset', 'into_outfile',
               'fields_terminated_by', 'lines_terminated_by', 'optionally_enclosed_by', 'for_update', 'option', 'option') + JOIN_METHODS + ('on', 'on', 'on'),
    'update': ('set', 'set', 'table', 'where', 'where', 'allow_update_all', 'forbid_update_all', 'ignore', 'join', 'inner_join', 'left_join', 'right_join', 'on', 'on'),
    'delete': ('from_', 'from_table', 'from_tables', 'delete', 'where', 'where', 'allow_delete_all', 'forbid_delete_all', 'ignore', 'join', 'inner_join', 'left_join', 'right_join', 'on', 'on'),
    'insert': ('into', 'values', 'values', 'values', 'ignore', 'on_duplicate_key_update'),
}
GROUPS = {
    'conds': ('where', 'having', 'on', 'left_join', 'from_'),
    'joins': ('from_', 'from_table') + JOIN_METHODS + ('on', 'on', 'on', 'on'),
    'limits': ('limit', 'limit', 'offset', 'offset', 'order_by', 'group_by', 'option', 'option', 'option', 'for_update'),
    'parts': ('columns', 'from_', 'where', 'having', 'group_by', 'order_by', 'order_by'),
}


class History:
    """A query kind and a list of calls (method, args, kwds)."""

    def __init__(self, kind, group=None, bad=.04, small=False, observe=False):
        self.kind, self.group, self.bad, self.small, self.observe = kind, group, bad, small, observe

    def gen(self, g):
        kind = self.kind
        methods = GROUPS[self.group] if self.group else METHODS[kind]
        self.words = [g.string() for _ in range(2)] + ['a', 'b', 't']
        calls = []
        if g.rng.random() < .7 and 'from_' in methods:
            calls.append(('from_', (self.word(g),), {}))
        for _ in range(g.rng.choice((1, 2, 3, 3, 4, 5, 6, 8, 12))):
            if self.observe and g.rng.random() < .3:
                calls.append((g.rng.choice(('str', 'copy', 'swap', 'hash', 'eq', 'has', 'repr')), (), {}))
                continue
            name = g.rng.choice(methods)
            if name == 'option':
                name = g.rng.choice(sorted(M.SELECT_OPTIONS))
            args, kwds = self.arguments(g, name)
            if g.rng.random() < self.bad:
                args, kwds = self.spoil(g, name, args, kwds)
            calls.append((name, args, kwds))
        return Calls(kind, calls)

    # -------------------------------------------------------- pieces
    def word(self, g):
        return g.rng.choice(self.words) if g.rng.random() < .8 or self.small else g.string()

    def name(self, g, ints=False):
        r = g.rng.random()
        if ints and r < .1:
            return g.integer()
        if r < .12:
            return g.make(g.rng.choice(('sql', 'select', 'union')))
        return self.word(g)

    def alias(self, g):
        return g.rng.choice((None, None, '', self.word(g), self.word(g), sqlpuzzle.C('al')))

    def scalar(self, g):
        if g.rng.random() < .35:
            return g.rng.choice((1, True, 1.0, '1', 0, False, 'a', '"a"', '`a`', 'a.b', None))
        return g.value(DOMAINS['ASSIGN']) if g.rng.random() < .9 else Wrapped(g.rng.choice('VR'), self.word(g))

    def condvalue(self, g):
        rng = g.rng
        r = rng.random()
        if r < .5:
            v = self.scalar(g)
            return v if not isinstance(v, bytes) else 1
        if r < .75:
            name = rng.choice(sorted(M.OPERATORS))
            if name in ('LIKE', 'NOT_LIKE', 'REGEXP'):
                return Rel(name, self.word(g))
            if name in ('IS', 'IS_NOT'):
                return Rel(name, rng.choice((None, True, False)))
            return Rel(name, rng.choice((self.word(g), g.integer(), 1.5, sqlpuzzle.C('x'))))
        items = [rng.choice((1, 2, None, 'a', True, self.word(g))) for _ in range(rng.choice((1, 1, 2, 3)))]
        if r < .82:
            return items
        if r < .86:
            return tuple(items)
        if r < .9:
            return GenOf(items)
        if r < .92:
            return range(rng.choice((1, 2, 3)))
        return Rel(rng.choice(('IN', 'NOT_IN')), items)

    def group_of_conditions(self, g, depth=0):
        rng = g.rng
        if depth < 2 and rng.random() < .5:
            return Tree(rng.choice('&|'), self.group_of_conditions(g, depth + 1), self.group_of_conditions(g, depth + 1))
        n = rng.choice((1, 1, 2))
        ps = tuple((self.word(g), g.rng.choice((1, 2, None, True, 'a', [1, None], Rel('GT', 3)))) for _ in range(n))
        return QD(ps[0] if n == 1 else ps, {})

    def pairs(self, g, first, second, listed, lo):
        """Arguments meaning pairs, in one of the shapes."""
        rng = g.rng
        shape = rng.choice(('items', 'items', 'dict', 'kwds', 'dictkwds', 'mixed', 'list', 'two', 'two'))
        n = rng.choice((0, 1, 1, 2, 2, 3))
        ps = [(first(), second()) for _ in range(n)]
        strs = {self.kw(g): second() for _ in range(n)}
        if shape == 'dict':
            return ({self.word(g): second() for _ in range(n)},), {}
        if shape == 'kwds':
            return (), strs
        if shape == 'dictkwds':
            return ({self.word(g): second() for _ in range(n)},), strs
        if shape == 'list' and listed:
            return (rng.choice((list, tuple))(rng.choice((tuple, list))(p) for p in ps),), {}
        if shape == 'two' and lo == 2:
            return (first(), second()), {}
        out = []
        for p in ps:
            r = rng.random()
            if lo == 1 and r < .6:
                out.append(p[0])
            elif lo == 1 and r < .7:
                out.append((p[0],))
            else:
                out.append(rng.choice((tuple, list))(p))
        if len(out) == 1 and listed and lo == 2:
            return (out,), {}
        return tuple(out), strs if shape == 'mixed' else {}

    def kw(self, g):
        return g.rng.choice(('a', 'b', 'c', 'z', 'A', 'col_1', 'z10', 'z9'))

    def arguments(self, g, name):
        rng = g.rng
        if name == 'columns':
            return self.pairs(g, lambda: self.name(g, True), lambda: self.alias(g), False, 1)
        if name in ('from_', 'from_tables'):
            return self.pairs(g, lambda: self.name(g), lambda: self.alias(g), False, 1)
        if name == 'from_table':
            return (self.name(g), self.alias(g))[:rng.choice((1, 2))], {}
        if name in ('into', 'table'):
            return (self.name(g),), {}
        if name == 'delete':
            return tuple(self.name(g) for _ in range(rng.choice((1, 1, 2)))), {}
        if name in M.JOINS:
            t, a = self.name(g), self.alias(g)
            return (rng.choice((t if isinstance(t, str) else (t, a), (t, a), [t, a], {self.word(g): a})),), {}
        if name in ('where', 'having', 'on'):
            r = rng.random()
            if r < .08:
                return (sqlpuzzle.C(rng.choice(('a = 1', '"a" = 1', 'x', '`a` = 1'))),), {}
            if r < .25 and name != 'on':
                return tuple(self.group_of_conditions(g) for _ in range(rng.choice((1, 1, 2)))), {}
            return self.pairs(g, lambda: self.name(g), lambda: self.condvalue(g), True, 2)
        if name in ('group_by', 'order_by'):
            return self.pairs(g, lambda: self.name(g, True), lambda: rng.choice((None, 'asc', 'desc', 'DESC', 'Asc', 'dEsc')), False, 1)
        if name == 'set':
            if rng.random() < .1:
                return (sqlpuzzle.C(rng.choice(('a = 1', '"a" = 1', '`a` = 1', 'x'))),), {}
            return self.pairs(g, lambda: self.name(g), lambda: self.scalar(g), True, 2)
        if name == 'values':
            return self.pairs(g, lambda: self.word(g), lambda: self.scalar(g), True, 2)
        if name == 'on_duplicate_key_update':
            b = current_backend()
            if b == 'sqlite':
                return (), {}
            args, kwds = self.pairs(g, lambda: self.word(g), lambda: self.scalar(g), True, 2)
            return ((self.word(g),) + args if b == 'postgresql' else args), kwds
        if name == 'limit':
            return rng.choice(((g.integer(),), (g.integer(), g.integer()), (None,), (5, None), (0,), (3, 0), (None, 4))), {}
        if name == 'offset':
            return (rng.choice((0, None, g.integer(), 7)),), {}
        if name in M.OUTFILE:
            return (self.word(g),), {}
        if name in ('ignore', 'for_update') or name in M.SELECT_OPTIONS:
            return rng.choice(((), (True,), (True,), (False,))), {}
        return (), {}

    def spoil(self, g, name, args, kwds):
        """Put something odd somewhere."""
        rng = g.rng
        odd = rng.choice((1.5, b'x', True, None, {}, [], (), set(), 'zz', Other(), {'a': 1}, {1: 2}, 5, ['a'], ('a', 'b', 'c'), [1, 2, 3], decimal.Decimal(1), datetime.date(2020, 1, 1)))
        if not args and not kwds:
            return args, kwds
        if args:
            i = rng.randrange(len(args))
            x = args[i]
            if isinstance(x, (tuple, list)) and x and rng.random() < .7:
                j = rng.randrange(len(x))
                x = type(x)(list(x[:j]) + [odd] + list(x[j + 1:])) if rng.random() < .7 else type(x)(list(x) + [odd])
            else:
                x = odd
            return args[:i] + (x,) + args[i + 1:], kwds
        k = rng.choice(sorted(kwds))
        return args, dict(kwds, **{k: odd})


class Calls:
    def __init__(self, kind, calls):
        self.kind, self.calls = kind, calls

    def __repr__(self):
        import native
        return self.kind + ''.join('.%s(%s)' % (n, ', '.join([show(a) for a in args] + ['%s=%s' % (k, show(v)) for k, v in kwds.items()])) for n, args, kwds in self.calls)


def show(x):
    import native
    if isinstance(x, Rel):
        return '%s(%s)' % (x.name, show(x.operand))
    if isinstance(x, Wrapped):
        return '%s(%s)' % (x.kind, show(x.inner))
    if isinstance(x, QD):
        return 'Q(%s)' % ', '.join(show(a) for a in x.args)
    if isinstance(x, Tree):
        return '(%s %s %s)' % (show(x.left), x.op, show(x.right))
    if isinstance(x, GenOf):
        return '(x for x in %s)' % show(x.items)
    if isinstance(x, (tuple, list)):
        return ('(%s,)' if isinstance(x, tuple) else '[%s]') % ', '.join(show(y) for y in x)
    if isinstance(x, dict):
        return '{%s}' % ', '.join('%s: %s' % (show(k), show(v)) for k, v in x.items())
    return native.show(x)


def render(m):
    """Text the model asks for, or what has to be raised."""
    try:
        return m.text()
    except Confirm:
        return ConfirmDeleteAllException if m.kind == 'delete' else ConfirmUpdateAllException
    except Invalid:
        return InvalidArgumentException


def rendered(q):
    try:
        return str(q)
    except (ConfirmDeleteAllException, ConfirmUpdateAllException, InvalidArgumentException) as ex:
        return type(ex)


class Unknown(Exception):
    """State after a partly applied refused call."""


def single(args, kwds):
    """The call has at most one entry."""
    if kwds:
        return not args and len(kwds) == 1
    if len(args) == 1:
        return not isinstance(args[0], (list, tuple, dict)) or len(args[0]) <= 1 or not isinstance(args[0], dict) and not any(isinstance(x, (list, tuple)) for x in args[0])
    return len(args) == 2 and not isinstance(args[0], (list, tuple, dict)) and not isinstance(args[1], (list, tuple, dict))


def apply(q, m, call):
    """Apply one call to the query and the model; True if it was refused."""
    name, args, kwds = call
    margs, mkwds = modelled(args), modelled(kwds)
    try:
        m.call(name, margs, mkwds)
        want = None
    except (Invalid, InvalidQ) as ex:
        want = ex
    except TypeError:
        raise Skip()
    try:
        rargs, rkwds = tuple(real(a) for a in args), {k: real(v) for k, v in kwds.items()}
    except InvalidArgumentException:
        raise Skip()
    before = M.snapshot(rargs), M.snapshot(rkwds)
    try:
        r = getattr(q, name)(*rargs, **rkwds)
    except InvalidQueryException as ex:
        if not isinstance(want, InvalidQ):
            raise CheckFailed('accepts', 'call %s(%s) refused: %s' % (name, show(args) + show(kwds), ex))
        if name == 'on_duplicate_key_update':
            raise Unknown()
        return
    except InvalidArgumentException as ex:
        if not isinstance(want, Invalid):
            raise CheckFailed('accepts', 'call %s(%s) refused: %s' % (name, show(args) + show(kwds), ex))
        if name in ('values',) or name not in ('limit', 'on_duplicate_key_update') and single(args, kwds):
            return   # refused, and nothing has changed
        raise Unknown()
    except Exception as ex:   # pylint: disable=broad-except
        if want is None:
            raise
        if name == 'on_duplicate_key_update' and current_backend() == 'sqlite' and type(ex) is Exception:
            raise Unknown()
        raise CheckFailed('refuses properly', 'call %s(%s) raised %r' % (name, show(args) + show(kwds), ex))
    check(want is None, 'call %s(%s) has to be refused' % (name, show(args) + show(kwds)))
    check(r is q, 'returns the query')
    check((M.snapshot(rargs), M.snapshot(rkwds)) == before, 'arguments are not changed')


def new(kind):
    if kind == 'select':
        return sqlpuzzle.select()
    if kind == 'insert':
        return sqlpuzzle.insert()
    if kind == 'update':
        return sqlpuzzle.update(None)
    return sqlpuzzle.delete()


def run(h):
    q, m = new(h.kind), Statement(h.kind)
    others = []
    refused = False
    for call in h.calls:
        name = call[0]
        if name == 'str':
            check_eq(rendered(q), render(m), 'text')
        elif name == 'hash':
            hash(q)
        elif name == 'repr':
            try:
                repr(q)
            except (ConfirmDeleteAllException, ConfirmUpdateAllException, InvalidArgumentException):
                pass
        elif name == 'eq':
            q == new(h.kind)  # pylint: disable=expression-not-assigned
            if others:
                q == others[-1][0]  # pylint: disable=expression-not-assigned
        elif name == 'has':
            if h.kind != 'insert':
                q.has('where')
        elif name in ('copy', 'swap'):
            p = q.copy()
            others.append((p, render(m)) if name == 'copy' else (q, render(m)))
            if name == 'swap':
                q = p
        else:
            try:
                apply(q, m, call)
            except Unknown:
                refused = True
                break
    if not refused:
        want = render(m)
        check_eq(rendered(q), want, 'text')
        check_eq(rendered(q), want, 'text again')
        check_eq(rendered(q.copy()), want, 'text of the copy')
    for p, text in others:
        check_eq(rendered(p), text, 'text of the other copy')


def mutated(h):
    return None


def make(name, props, domain, doc, **opts):
    def harness(h):
        run(h)
    harness.__name__ = name
    harness.__doc__ = doc
    harness.__annotations__ = {'h': domain}
    prop(*props, sym=False, **opts)(harness)


make('history_of_select', ('C05', 'C12'), History('select', observe=True), 'Any calls on a SELECT.', native=1.5)
make('history_of_update', ('C04', 'C05', 'C12'), History('update', observe=True), 'Any calls on an UPDATE.')
make('history_of_delete', ('C04', 'C05', 'C12'), History('delete', observe=True), 'Any calls on a DELETE.')
make('history_of_insert', ('C05', 'C10', 'C12', 'C14'), History('insert', observe=True), 'Any calls on an INSERT.')
make('history_of_conditions', ('C06', 'C07', 'C08', 'C09', 'C16'), History('select', 'conds', bad=.05), 'Any WHERE, HAVING and ON calls.', native=1.5)
make('history_of_joins', ('C11', 'C12'), History('select', 'joins', small=True, observe=True), 'Any FROM, JOIN and ON calls.', native=1.5)
make('history_of_joins_bad', ('C11', 'C08', 'C16'), History('select', 'joins', bad=.2), 'Any FROM, JOIN and ON calls, also wrong ones.')
make('history_of_limits', ('C13', 'C09', 'C16'), History('select', 'limits', bad=.1), 'Any LIMIT, OFFSET, ORDER BY, GROUP BY and option calls.')
make('history_of_parts', ('C08', 'C09', 'C16'), History('select', 'parts', bad=.1), 'Any calls adding parts to a SELECT.', native=1.5)
make('history_of_assignments', ('C08', 'C09', 'C16'), History('update', bad=.15), 'Any calls on an UPDATE, also wrong ones.')
make('history_of_rows', ('C08', 'C10', 'C16'), History('insert', bad=.1), 'Any calls on an INSERT, also wrong ones.')


def built(kind, calls):
    q, m = new(kind), Statement(kind)
    for call in calls:
        try:
            apply(q, m, call)
        except Unknown:
            raise Skip()
    return q, m


def compare(h, how, i, j):
    """Queries of the same calls are equal; queries of other calls with another text are not."""
    calls = list(h.calls)
    assume(calls)
    q, m = built(h.kind, calls)
    other, i, j = list(calls), i % len(calls), j % len(calls)
    if how == 'drop':
        del other[i]
    elif how == 'swap':
        other[i], other[j] = other[j], other[i]
    elif how == 'prefix':
        del other[i:]
    elif how == 'again':
        other.append(other[i])
    r, n = built(h.kind, other)
    if how == 'same':
        check(q == r and r == q and not q != r, 'built by the same calls')
        check(q == q.copy() and q.copy() == q, 'copy')
        return
    one, two = render(m), render(n)
    if isinstance(one, str) and isinstance(two, str) and one != two:
        # an ON condition and its mirrored form are the same, and so are values that compare equal
        assume(sum(1 for c in calls if c[0] == 'on') < 2 and not any(x in repr(h) for x in ('-0.0', "'-0", 'tzinfo')))
        check(not q == r and not r == q and q != r, 'different text')


def make_equal(kind, group):
    def harness(h, how, i, j):
        compare(h, how, i, j)
    harness.__name__ = 'equality_of_' + (group or kind)
    harness.__doc__ = 'Pairs of histories.'
    harness.__annotations__ = {'h': History(kind, group, bad=0), 'how': Choice('same', 'drop', 'swap', 'prefix', 'again'), 'i': INT, 'j': INT}
    prop('C17', sym=False)(harness)


for _kind, _group in (('select', None), ('insert', None), ('update', None), ('delete', None), ('select', 'conds'), ('select', 'joins'), ('select', 'limits'), ('select', 'parts')):
    make_equal(_kind, _group)
