"""Generator of concrete inputs for the bounded layer."""
import ast
import collections
import datetime
import decimal
import glob
import json
import os

import vlib
from pyvc import world

CHARS = ['a', 'b', 'c', 'x', 'A', 'Z', '0', '1', '9', '_', ' ', '.', ',', ';', '*', '%', '%s', '{', '}', '{}', '\\', "'", '"',
         '`', '\n', '\r', '\t', '\0', '\x1a', '-', '--', '/*', '*/', '#', '(', ')', '=', '$', ':', '?', '@', '[', ']', '\x7f',
         '\x0b', '\x0c', '\x1c', '\x85', '\xa0', '\u2028', 'é', 'ß', 'ı', 'İ', '文', '😀', '\u0301', '\ufeff', '\u200b', "''", '""', '``', '\\\\', "\\'",
         'NULL', 'a.b', '%%', '\\n', '\u2019', '\uff07', '\r\n', 'e\u0301', '\ud800', '\udcff']
WORDS = ['id', 'name', 'age', 't', 'user', 'col', 'a', 'b', 'c', 'desc', 'asc', 'DESC', 'Asc', '*', 'a.b', 'a.b.c', 'a.*', '"a"', '`a`', '"a"."b"', '`a`.`b`', '`a`.`b`.c',
         '"a".b.c', '"a.b"', '`a.b`', '"a""b"', '`a``b`', 't."a"', ' "a" ', '\n`a`\t', '', ' ', 'SELECT', 'distinct', 'NULL', 'None', 'True', '1', '0', '-1', '1.5',
         "x' OR '1'='1", 'a"b', 'a`b', "a'b", 'a\\', "\\' OR 1=1 -- ", 'off', 'on', 'options', 'value', 'self', 'user name', '`a`.`b`.`c`.`d`', '"a"."b"."c"."d"',
         '.', '..', 'a.', '.a', 'a..b', '%(where)s', '{0}', '{quote}', 'IGNORE', 'x.y', 'parent.id']


def harvested():
    """String and number literals and names of parameters of the current tree (they can be trigger values)."""
    strs, ints = set(), set()
    for f in glob.glob(os.path.join(world.REPO, 'sqlpuzzle', '**', '*.py'), recursive=True):
        try:
            tree = ast.parse(open(f, encoding='utf-8').read())
        except (SyntaxError, OSError):
            continue
        docs = set()
        for n in ast.walk(tree):
            if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
                docs.add(n.value)
        for n in ast.walk(tree):
            if isinstance(n, ast.arg) and n.arg not in ('self', 'cls'):
                strs.add(n.arg)
            if isinstance(n, ast.Constant) and n not in docs:
                if isinstance(n.value, str) and len(n.value) <= 40:
                    strs.add(n.value)
                elif isinstance(n.value, int) and not isinstance(n.value, bool):
                    ints.add(n.value)
    return sorted(strs), sorted(ints)


_harvest = None
KNOWN = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'harvested.json')


def novel(strs, ints):
    """Literals the committed tree does not have: the values most likely to trigger something."""
    try:
        with open(KNOWN) as f:
            known = json.load(f)
    except (OSError, ValueError):
        return [], []
    a, b = set(known['strings']), set(known['integers'])
    return [x for x in strs if x not in a], [x for x in ints if x not in b]


class Gen:
    def __init__(self, rng, derive=True):
        global _harvest
        if _harvest is None:
            _harvest = harvested()
            _harvest += novel(*_harvest)
        self.rng = rng
        self.hs, self.hi, self.ns, self.ni = _harvest
        self.sizes = [n for n in self.hi if 4 < n < 300]     # limits the code may have
        self.depth = 0
        self.maxlen = 4
        self.pool = []
        self.derive = derive

    def length(self):
        r = self.rng.random()
        if r < .12:
            return 0
        if r < .3:
            return 1
        if r < .6:
            return 2
        if r < .96:
            return self.rng.randint(0, self.maxlen)
        if self.ni and self.sizes and r > .98:
            return self.rng.choice([n for n in self.ni if 4 < n < 300] or self.sizes) + self.rng.choice((0, 1, 1, 2))
        if r < .965 and self.sizes:
            return self.rng.choice(self.sizes) + self.rng.choice((0, 1, 1, 2))
        return self.rng.choice((5, 6, 8, 12, 33, 70))

    def items(self, make):
        """Elements of a list; now and then equal but for one, at any position."""
        n = self.length()
        if n > 2 and self.rng.random() < (.12 if n < 30 else .7):
            xs = [make()] * n if self.rng.random() < .5 else [make() for _ in range(min(n, 6))]
            xs = (xs * n)[:n]
            if not any(hasattr(x, '__next__') for x in xs):
                xs[self.rng.choice((n - 1, n - 1, self.rng.randrange(n)))] = make()
                return xs
        return [make() for _ in range(n)]

    def string(self):
        rng = self.rng
        r = rng.random()
        if self.ns and rng.random() < .1:
            s = rng.choice(self.ns)
            self.pool.append(s)
            return rng.choice((s, s, s.lower(), s.upper(), s + self.string(), self.string() + s))
        if r < .12 and self.pool:
            return rng.choice(self.pool)
        if r < .45:
            s = rng.choice(WORDS)
        elif r < .57 and self.hs:
            s = rng.choice(self.hs)
        elif r < .95:
            s = ''.join(rng.choice(CHARS) for _ in range(rng.choice((1, 1, 2, 2, 3, 4, 6))))
        elif r < .98:
            s = ''.join(chr(rng.choice((rng.randrange(1, 128), rng.randrange(1, 0x3000), rng.randrange(0x10000, 0x1f000)))) for _ in range(rng.randint(1, 5)))
        else:
            s = rng.choice(CHARS) * rng.choice((17, 64, 65, 128, 255, 256, 300, 1025))
        if rng.random() < .1:
            s = rng.choice((s.upper(), s.lower(), s.title(), ' ' + s, s + ' ', s + rng.choice(WORDS), s + s))
        self.pool.append(s)
        return s

    def ident(self):
        return self.rng.choice(('a', 'b', 'c', 'd', 'id', 'name', 'age', 'Z', 'A', '_x', 'z1', 'z2', 'z10', 'B', 'é')) if self.rng.random() < .8 else self.string()

    def kwname(self):
        return self.rng.choice(('a', 'b', 'c', 'd', 'id', 'name', 'age', 'Z', 'A', 'col1', 'z1', 'z10', 'z2'))

    def integer(self):
        rng = self.rng
        r = rng.random()
        if self.ni and rng.random() < .1:
            return rng.choice(self.ni) + rng.choice((-1, 0, 0, 1))
        if r < .3:
            return rng.choice((0, 1, 2, 3, 5, 10, -1, -2, 100))
        if r < .45 and self.hi:
            return rng.choice(self.hi) + rng.choice((-1, 0, 0, 1))
        if r < .6:
            return rng.choice((2**31 - 1, 2**31, 2**32, 2**63 - 1, 2**63, -2**63, 10**6, 10**15, 10**16, 10**21, 10**40, 255, 256, 65535, 65536, 999, 1000, 1001))
        return rng.randint(-1000, 100000)

    def value(self, tags):
        tags = sorted(tags)
        rng = self.rng
        if self.depth > 1:
            flat = [x for x in tags if x not in vlib.CONTAINERS]
            tags = flat or tags
        tag = rng.choice(tags)
        if 'str' in tags and rng.random() < .25:
            tag = 'str'
        return self.make(tag)

    def derived(self, x):
        """Now and then the same value as an instance of a derived class."""
        if self.derive and self.rng.random() < .04 and type(x) in DERIVED:
            return DERIVED[type(x)](x)
        return x

    def make(self, tag):
        x = self.plain(tag)
        return x if tag == 'tuple' else self.derived(x)

    def plain(self, tag):
        rng = self.rng
        if tag == 'look':
            return rng.choice((1, True, 1.0, '1', decimal.Decimal(1), vlib.sqlpuzzle.C('1'), 0, False, '0', 0.0, vlib.sqlpuzzle.C('a'), 'a', vlib.sqlpuzzle.R('a'), vlib.sqlpuzzle.V('a')))
        if tag == 'none':
            return None
        if tag == 'bool':
            return rng.random() < .5
        if tag == 'int':
            return self.integer()
        if tag == 'str':
            return self.string()
        if tag == 'float':
            return rng.choice((0.0, -0.0, 1.0, 1.5, -2.25, 0.1, 123.456789, 1e-7, 0.000005, 0.000015, 1e10, 1e16, 1e22, 12345.67, 2.5, -0.000004, 1e100, 3.999999, rng.uniform(-1000, 1000)))
        if tag == 'decimal':
            return decimal.Decimal(rng.choice(('0', '1', '-1.5', '10.100', '123.456', '1E+3', '0.000001', '123456789012345678.12345', '99999.999995', '2.5', '-0.00', '12345678901234567890123456789012.5')))
        if tag == 'bytes':
            return rng.choice((b'', b'a', b'\0', b'\xff\x00', b"'", b'abc', b'\\', b'\0' * rng.choice((1, 2, 3)) + bytes(rng.randrange(256) for _ in range(self.length() * rng.choice((1, 3, 40)))), bytes(rng.randrange(256) for _ in range(rng.randint(0, 6)))))
        if tag == 'date':
            return rng.choice((datetime.date(2020, 1, 2), datetime.date(1, 1, 1), datetime.date(9999, 12, 31), datetime.date(1970, 1, 1), datetime.date(2000, 2, 29), datetime.date(rng.randint(1, 9999), rng.randint(1, 12), rng.randint(1, 28))))
        if tag == 'datetime':
            return rng.choice((datetime.datetime(2020, 1, 2), datetime.datetime(2020, 1, 2, 3, 4, 5), datetime.datetime(2020, 1, 2, 3, 4, 5, 678), datetime.datetime(1, 1, 1, 0, 0, 0, 1),
                               datetime.datetime(2021, 12, 31, 23, 59, 59, 999999), datetime.datetime(2020, 6, 1, 12, tzinfo=datetime.timezone.utc),
                               datetime.datetime(2020, 6, 1, 12, 30, tzinfo=datetime.timezone(datetime.timedelta(hours=-3, minutes=-30)))))
        if tag in ('sql', 'foreign', 'select', 'union'):
            text = self.sqltext(tag)
            return {'sql': vlib.AnySql, 'foreign': vlib.ForeignSql, 'select': vlib.AnySelect, 'union': vlib.AnyUnion}[tag](text) if rng.random() < .6 else self.realsql(tag, text)
        if tag == 'other':
            return rng.choice((vlib.Other(), object(), 1j, bytearray(b'a'), memoryview(b'a'), Ellipsis, datetime.time(1, 2), datetime.timedelta(1), type, len, iter([1])))
        self.depth += 1
        try:
            n = self.length() if tag in ('dict', 'range') else 0
            if tag == 'dict':
                return {self.ident(): self.value(vlib.DOMAINS['ITEM']) for _ in range(n)}
            if tag == 'range':
                return rng.choice((range(0), range(1), range(3), range(2, 9, 3), range(5, 0, -2), range(n)))
            items = self.items(lambda: self.value(vlib.DOMAINS['ITEM'] if self.depth < 2 else vlib.DOMAINS['LITEM']))
            if tag == 'list':
                return items
            if tag == 'tuple':
                return tuple(items)
            if tag == 'gen':
                return (x for x in items)
            hs = [x for x in items if not isinstance(x, (list, set, dict)) and hashable(x)]
            return set(hs) if tag == 'set' else frozenset(hs)
        finally:
            self.depth -= 1

    def sqltext(self, tag):
        rng = self.rng
        return rng.choice(('NOW()', 'SELECT 1', 'x', 'a', 'name', "it's", 'a = 1', '*', '%s', '{0}', '%', '{}', '1', '', ' x ', 'id')) if rng.random() < .8 else self.string()

    def realsql(self, tag, text):
        s = vlib.sqlpuzzle
        rng = self.rng
        if tag == 'sql':
            k = rng.randrange(5)
            if k == 0:
                return s.C(text)
            if k == 1:
                return s.count(rng.choice((None, 'a', 'id')))
            if k == 2:
                return s.V(rng.choice((1, 'a', True)))
            if k == 3:
                return s.R(rng.choice(('a', 'b.c', 'id')))
            return s.concat('a', 'b')
        if tag == 'select':
            q = s.select(s.C(text or '1'))
            if rng.random() < .4:
                q.from_('t')
            return q
        if tag == 'union':
            a, b = s.select('a').from_('t'), s.select(s.C(text or '1'))
            return a & b if rng.random() < .5 else a | b
        return vlib.ForeignSql(text)


class Text(str):
    """Strings, numbers and containers of derived classes, as other libraries hand them over."""


class Integer(int):
    pass


class Real(float):
    pass


class Row(tuple):
    pass


DERIVED = {str: Text, int: Integer, float: Real, tuple: Row, dict: collections.OrderedDict}


def hashable(x):
    try:
        hash(x)
        return not isinstance(x, tuple) or all(hashable(y) for y in x)
    except TypeError:
        return False
