"""Contract library: input domains, spec functions and the harness registry.

A harness is a Python function whose annotated parameters are input domains and whose body calls the
real package and states postconditions with `check`.  The same text is used twice: interpreted by
pyvc over symbolic inputs (the proof), and executed by CPython over generated inputs (bounded
search for a failing input, replay of solver models).
"""
import datetime
import decimal
import os
import random
import string
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from pyvc import world  # noqa: E402

sqlpuzzle = world.import_repo()
Select = type(sqlpuzzle.select())
Union = type(sqlpuzzle.select() & sqlpuzzle.select())
Object = [c for c in Select.__mro__ if hasattr(c, 'tosql')][-1]

HARNESSES = {}


class Harness:
    def __init__(self, fn, props, opts):
        self.fn, self.props, self.opts = fn, props, opts
        self.name = fn.__name__
        self.params = dict(fn.__annotations__)
        self.sym_params = dict(self.params, **(opts.get('sym') or {}))   # narrower domains of the proof
        self.weight = opts.get('weight', 1)


def prop(*ids, **opts):
    """Register a harness for the given properties."""
    def deco(fn):
        assert fn.__name__ not in HARNESSES, fn.__name__
        if opts.get('skip'):
            return fn
        HARNESSES[fn.__name__] = Harness(fn, ids, opts)
        return fn
    return deco


class CheckFailed(Exception):
    def __init__(self, label, detail=''):
        super().__init__(label)
        self.label, self.detail = label, detail


class Skip(Exception):
    pass


# ------------------------------------------------------------------ statements of contracts
def check(cond, label):
    """Postcondition."""
    if not cond:
        raise CheckFailed(label)


def check_eq(a, b, label):
    """Postcondition a == b (same type)."""
    if not (type(a) is type(b) and a == b):
        raise CheckFailed(label, 'got      %r\nexpected %r' % (a, b))


def lemma_same(a, b, label):
    """Proof-only: two object graphs are structurally equal (not a requirement on the code by itself)."""


def assume(cond):
    """Precondition."""
    if not cond:
        raise Skip()


def unreachable(label):
    raise CheckFailed(label)


# ------------------------------------------------------------------ SQL objects with arbitrary text
def fresh_state(obj, make):
    """The state its class keeps in a new object (it must not matter: the text is the arbitrary one)."""
    obj.__dict__.update(vars(make()))


class TextIs:
    """Object whose text is arbitrary."""

    def __init__(self, text):  # pylint: disable=super-init-not-called
        fresh_state(self, self._make)
        self._text = text

    def __str__(self):
        return self._text


class RendersText(TextIs):
    """The same for a class that renders in `tosql`, called by its `__str__`."""

    def tosql(self):
        return self._text


def text_is(cls, make):
    class Probe(TextIs, cls):
        """To see which of the two methods calls the other."""
        _make = make
    try:
        return TextIs if Probe('some text').tosql() == 'some text' else RendersText
    except Exception:  # pylint: disable=broad-except
        return RendersText


def make_union():
    return sqlpuzzle.select() & sqlpuzzle.select()


def make_condition():
    return sqlpuzzle.Q(a=1) & sqlpuzzle.Q(b=1)


class AnySql(text_is(Object, staticmethod(Object)), Object):
    """Some SQL object whose text is arbitrary."""
    _make = staticmethod(Object)


class AnySelect(text_is(Select, staticmethod(Select)), Select):
    """Some SELECT whose text is arbitrary."""
    _make = staticmethod(Select)

    def __eq__(self, other):
        return Object.__eq__(self, other)

    __hash__ = Object.__hash__


class AnyUnion(text_is(Union, staticmethod(make_union)), Union):
    """Some UNION whose text is arbitrary."""
    _make = staticmethod(make_union)

    def __eq__(self, other):
        return Object.__eq__(self, other)

    __hash__ = Object.__hash__


class AnyCondition(text_is(type(make_condition()), staticmethod(make_condition)), type(make_condition())):
    """Some composition of conditions (by & and |) whose text is arbitrary."""
    _make = staticmethod(make_condition)


def some_composition(text):
    """Any composition of conditions (the proof knows nothing but its text, which is arbitrary)."""
    rng = random.Random(ascii(text))
    q = sqlpuzzle.Q

    def leaf():
        k = rng.randrange(5)
        if k == 0:
            return q(sqlpuzzle.C(text))
        if k == 1:
            return q((text, 1), ('b', None))
        if k == 2:
            return q(a=[1, 2])
        return q(text, rng.choice((1, 'x', True)))

    def tree(depth):
        left = tree(depth - 1) if rng.random() < .2 * depth else leaf()
        right = tree(depth - 1) if rng.random() < .2 * depth else leaf()
        return left & right if rng.random() < .5 else left | right
    return tree(3)


class ForeignSql:
    """Not a class of the package, but it has `tosql`."""

    def __init__(self, text):
        self._text = text

    def tosql(self):
        return self._text


class Other:
    """Object of a type the package knows nothing about."""


# ------------------------------------------------------------------ spec functions
def quote_char():
    return QUOTES[current_backend()]


QUOTES = {'sql': '"', 'mysql': '`', 'postgresql': '"', 'sqlite': '"'}
_configured = ['sql']


def configure(name):
    """Choose the backend in a harness."""
    sqlpuzzle.configure(name)
    _configured[0] = name


def current_backend():
    return _configured[0]


def split_reference(s, q):
    """Parts of a dotted name: (text, is_quoted); reference definition, independent of the package.

    Scan left to right; a quoted identifier is a quote, a non-empty run of non-quotes and doubled quotes, as
    long as possible, and a quote.
    """
    parts, cur, i, n = [], '', 0, len(s)
    while i < n:
        if s[i] == q:
            end = quoted_end(s, i, q)
            if end is not None:
                parts.append((cur, False))
                cur = ''
                parts.append((s[i + 1:end - 1].replace(q * 2, q), True))
                i = end
                continue
            cur += s[i]
            i += 1
        elif s[i] == '.':
            parts.append((cur, False))
            cur = ''
            i += 1
        else:
            cur += s[i]
            i += 1
    parts.append((cur, False))
    return [p for p in parts if p[0]]


def quoted_end(s, i, q):
    """End of the quoted identifier starting at i (greedy with backtracking, like any SQL-ish regex)."""
    n = len(s)
    best = None
    seen = {i + 1}
    todo = [i + 1]
    # positions reachable after the opening quote by [^q] or qq
    while todo:
        p = todo.pop()
        if p > i + 1 and p < n and s[p] == q:
            best = p + 1 if best is None or p + 1 > best else best
        if p < n and s[p] != q:
            if p + 1 not in seen:
                seen.add(p + 1)
                todo.append(p + 1)
        if p + 1 < n and s[p] == q and s[p + 1] == q:
            if p + 2 not in seen:
                seen.add(p + 2)
                todo.append(p + 2)
    return best


def refname(s):
    q = quote_char()
    return '.'.join('*' if name == '*' else q + name.replace(q, q * 2) + q for name, _ in split_reference(s, q))


def is_ref_text(s):
    """A complete reference starting with a quoted identifier, at most two dotted parts after it."""
    q = quote_char()
    s = s.strip()
    return _ref_from(s, 0, q, 0)


def _ref_from(s, i, q, k):
    n = len(s)
    ends = []
    if i < n and s[i] == q:
        p = i + 1
        ends = _quoted_ends(s, i, q)
    elif k > 0:
        p = i
        while p < n and s[p] != q and s[p] not in '. ':
            p += 1
            ends.append(p)
    for e in ends:
        if e == n or (e == n - 1 and s[e] == '\n'):
            return True
        if k < 2 and s[e] == '.' and _ref_from(s, e + 1, q, k + 1):
            return True
    return False


def _quoted_ends(s, i, q):
    n = len(s)
    out, todo, seen = [], [i + 1], set()
    while todo:
        p = todo.pop()
        if p in seen or p > n:
            continue
        seen.add(p)
        if p > i + 1 and p < n and s[p] == q:
            out.append(p + 1)
        if p < n and s[p] != q:
            todo.append(p + 1)
        if p + 1 < n and s[p] == q and s[p + 1] == q:
            todo.append(p + 2)
    return out


def literal(s):
    return "'" + s.replace('\\', '\\\\').replace("'", "''").replace('\n', '\\n') + "'"


def closes_only_at_end(text, backslash):
    """The SQL lexer reads text as one single-quoted literal and nothing else."""
    if text[:1] != "'":
        return False
    i, n = 1, len(text)
    while i < n:
        if backslash and text[i] == '\\':
            i += 2
        elif text[i] == "'":
            if text[i + 1:i + 2] != "'":
                return i == n - 1
            i += 2
        else:
            i += 1
    return False


def decoded(text):
    """Content of a literal, backslash escapes decoded."""
    out, i, n = [], 1, len(text) - 1
    while i < n:
        if text[i] == '\\' and i + 1 < n:
            out.append({'n': '\n', 't': '\t', 'r': '\r', '0': '\0', 'b': '\b', 'Z': '\x1a'}.get(text[i + 1], text[i + 1]))
            i += 2
        elif text[i] == "'":
            out.append("'")
            i += 2
        else:
            out.append(text[i])
            i += 1
    return ''.join(out)


def is_reference_form(text, q):
    """Dotted sequence (maybe empty) of * and quoted identifiers with doubled quotes inside."""
    if not text:
        return True
    i, n = 0, len(text)
    while True:
        if text[i:i + 1] == '*':
            i += 1
        elif text[i:i + 1] == q:
            i += 1
            while True:
                if i >= n:
                    return False
                if text[i] != q:
                    i += 1
                elif text[i:i + 2] == q * 2:
                    i += 2
                else:
                    i += 1
                    break
        else:
            return False
        if i == n:
            return True
        if text[i] != '.':
            return False
        i += 1


def REF(v):
    """Rendering of v where a reference is expected."""
    if isinstance(v, str):
        return refname(v)
    if isinstance(v, int) and not isinstance(v, bool):
        return '%d' % v
    if isinstance(v, (Select, Union)):
        return '(' + v.tosql() + ')'
    if hasattr(v, 'tosql'):
        return v.tosql()
    raise Skip()


class Invalid(Exception):
    """The spec says this input has to be refused."""


def VAL(v):
    """Rendering of v where a value is expected."""
    if v is None:
        return 'NULL'
    if isinstance(v, bool):
        if current_backend() == 'postgresql':
            return 'true' if v else 'false'
        return '1' if v else '0'
    if isinstance(v, str):
        if is_ref_text(v):
            return refname(v.strip())
        return literal(v)
    if isinstance(v, int):
        return '%d' % v
    if isinstance(v, (float, decimal.Decimal)):
        return '{:.5f}'.format(v)
    if isinstance(v, bytes):
        h = ''.join('%02x' % b for b in v)
        if current_backend() == 'postgresql':
            return "E'\\\\x" + h + "'"
        return "x'" + h + "'"
    if isinstance(v, datetime.date):
        return "'" + v.isoformat() + "'"
    if isinstance(v, (Select, Union)):
        return '(' + v.tosql() + ')'
    if hasattr(v, 'tosql'):
        return v.tosql()
    if isinstance(v, (list, tuple, set, frozenset, range)):
        if not v:
            raise Invalid()
        return '(' + ', '.join(VAL(x) for x in v) + ')'
    raise Skip()


def TEXT(v):
    """Text of an SQL object."""
    return v.tosql()


def is_sql(v):
    return hasattr(v, 'tosql')


def subsets(seq, n):
    """True if `seq` has at most n elements (used to state bounds of bounded harnesses)."""
    return len(seq) <= n


# ------------------------------------------------------------------ input domains
SCALAR = frozenset(('none', 'bool', 'int', 'float', 'decimal', 'str', 'bytes', 'date', 'datetime'))
SQLTAGS = frozenset(('sql', 'select', 'union'))
CONTAINERS = frozenset(('list', 'tuple', 'set', 'frozenset', 'range', 'gen', 'dict'))
DOMAINS = {
    'ANY': SCALAR | SQLTAGS | CONTAINERS | {'foreign', 'other'},
    'ITEM': SCALAR | SQLTAGS | {'list', 'tuple', 'other'},
    'DKEY': frozenset(('str',)),
    'STR': frozenset(('str',)), 'INT': frozenset(('int',)), 'BOOL': frozenset(('bool',)),
    'STRNONE': frozenset(('str', 'none')),
    'NAME': frozenset(('str', 'sql', 'select', 'union')),            # table / condition column
    'ALIAS': frozenset(('str', 'none', 'sql')),
    'COLNAME': frozenset(('str', 'int', 'sql', 'select', 'union')),  # columns, order, group
    'ASSIGN': SCALAR | SQLTAGS,                                      # SET / VALUES
    'COND': (SCALAR - {'bytes'}) | SQLTAGS,                          # bare scalar condition value
    'CONDSEQ': frozenset(('list', 'tuple', 'range', 'gen')),
    'LITEM': SCALAR | SQLTAGS,
    'SQL': SQLTAGS, 'SQLOBJ': frozenset(('sql',)), 'SELECT': frozenset(('select', 'union')),
    'FOREIGN': frozenset(('foreign',)), 'BYTES': frozenset(('bytes',)), 'RANGE': frozenset(('range',)),
    'VALUE': SCALAR | SQLTAGS | (CONTAINERS - {'dict'}),
    'NONE': frozenset(('none',)), 'INTNONE': frozenset(('int', 'none')),
    'SCAL': SCALAR - {'bytes'}, 'PLAIN': SCALAR, 'STRINT': frozenset(('str', 'int')), 'INTBOOL': frozenset(('int', 'bool')),
    'STRTUP': frozenset(('str', 'tuple')),
    'STRSQL': frozenset(('str', 'sql')), 'COLSQL': frozenset(('str', 'int', 'sql')), 'VALSQL': SCALAR | {'sql'},
    'CONDSQL': (SCALAR - {'bytes'}) | {'sql'},
    'LOOK': frozenset(('look',)), 'NOSTR': SCALAR - {'str'}, 'SETS': frozenset(('set', 'frozenset', 'range')),
}


class Dom:
    """Value of one of the tags of a named domain."""

    def __init__(self, key):
        self.key = key
        self.tags = DOMAINS[key]

    def gen(self, g):
        return g.value(self.tags)

    def __repr__(self):
        return self.key


class Seq:
    """List (or tuple) of any length of elements of a domain."""

    def __init__(self, elem, kind='list'):
        self.elem, self.kind = elem, kind

    def gen(self, g):
        xs = g.items(lambda: self.elem.gen(g))
        if len(xs) > 1 and g.rng.random() < .25:
            xs[g.rng.randrange(len(xs))] = xs[g.rng.randrange(len(xs))]
        return xs if self.kind == 'list' else tuple(xs)

    def __repr__(self):
        return '%s of %r' % (self.kind, self.elem)


class Tup:
    """Tuple of given shape."""

    def __init__(self, *elems):
        self.elems = elems

    def gen(self, g):
        return g.derived(tuple(e.gen(g) for e in self.elems))

    def __repr__(self):
        return repr(self.elems)


class Map:
    """Dictionary with string keys (some: with at least one key)."""

    def __init__(self, elem, keys=None, some=False):
        self.elem = elem
        self.keys = keys
        self.some = some

    def gen(self, g):
        key = g.ident if self.keys is None else lambda: self.keys.gen(g)
        d = g.derived({key(): self.elem.gen(g) for _ in range(g.length())})
        return d or {key(): self.elem.gen(g)} if self.some else d

    def __repr__(self):
        return '%sdict of %r' % ('non-empty ' if self.some else '', self.elem)


class Choice:
    """One of finitely many concrete values."""

    def __init__(self, *options):
        self.options = options

    def gen(self, g):
        return g.rng.choice(self.options)

    def __repr__(self):
        return 'one of %r' % (self.options,)


ANY, STR, INT, BOOL = Dom('ANY'), Dom('STR'), Dom('INT'), Dom('BOOL')
NAME, ALIAS, COLNAME, ASSIGN, COND = Dom('NAME'), Dom('ALIAS'), Dom('COLNAME'), Dom('ASSIGN'), Dom('COND')
SQL, SQLOBJ, SELECT, STRNONE, INTNONE = Dom('SQL'), Dom('SQLOBJ'), Dom('SELECT'), Dom('STRNONE'), Dom('INTNONE')
FOREIGN, VALUE, ITEM, LITEM = Dom('FOREIGN'), Dom('VALUE'), Dom('ITEM'), Dom('LITEM')
SCAL = Dom('SCAL')
BACKEND = Choice('sql', 'mysql', 'postgresql', 'sqlite')


ASCII = string.ascii_letters
