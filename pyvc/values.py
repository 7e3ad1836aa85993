"""Values of the symbolic interpreter.

Concrete Python scalars, classes, functions, modules and real module/class level containers stand
for themselves; terms (terms.T) of sort S, I, B are symbolic str, int, bool; a term of sort V is a
value whose type is not decided yet on the path.
"""
_stamp = [0]


def next_stamp():
    _stamp[0] += 1
    return _stamp[0]


class Env(dict):
    """Attribute or local variable store; `stamp` tells when it was created, `owner` whose it is."""
    __slots__ = ('stamp', 'owner')

    def __init__(self, owner=None):
        super().__init__()
        self.stamp = next_stamp()
        self.owner = owner


class Unsupported(Exception):
    """The code under verification left the supported subset."""


class PathAbort(BaseException):
    """Infeasible or deliberately cut path."""


class PyRaise(Exception):
    """An exception raised by the interpreted program."""

    def __init__(self, exc):
        super().__init__()
        self.exc = exc

    def __str__(self):
        return 'PyRaise(%s)' % (self.exc.cls.__name__,)


class Seg:
    """A run of elements of arbitrary length.

    `root` identifies the sequence of source elements, `bv` is the index variable of the template,
    `paths` is [(guard, value)]: element i of the root contributes value[bv:=i] on the path whose
    guard[bv:=i] holds (guards are exclusive and exhaustive); value SKIP contributes nothing.
    """
    __slots__ = ('root', 'bv', 'paths')

    def __init__(self, root, bv, paths):
        self.root, self.bv, self.paths = root, bv, paths

    def __repr__(self):
        return 'Seg(%s,%d)' % (self.root, len(self.paths))

    @property
    def one_to_one(self):
        return all(v is not SKIP for _, v in self.paths)


class _Skip:
    def __repr__(self):
        return 'SKIP'


SKIP = _Skip()


class SSeq:
    """list / tuple / set / frozenset / range / gen / view; entries: values or Segs (never mutated in place)."""
    __slots__ = ('kind', 'entries', 'term', 'stamp')

    def __init__(self, kind, entries, term=None):
        self.kind, self.entries, self.term = kind, tuple(entries), term
        self.stamp = next_stamp()

    def __repr__(self):
        return 'SSeq(%s,%r)' % (self.kind, self.entries)


class SDict:
    __slots__ = ('kind', 'entries', 'term', 'stamp')

    def __init__(self, kind, entries, term=None):
        self.kind, self.entries, self.term = kind, tuple(entries), term
        self.stamp = next_stamp()

    def __repr__(self):
        return 'SDict(%r)' % (self.entries,)


class SObj:
    """Instance of a real class; `entries` is the payload of list subclasses."""
    __slots__ = ('cls', 'attrs', 'entries', 'term', 'stamp', 'elem_of')

    def __init__(self, cls, attrs=None, entries=None, term=None):
        self.cls, self.entries, self.term = cls, entries, term
        self.attrs = Env(self)
        if attrs:
            self.attrs.update(attrs)
        self.elem_of = None
        self.stamp = next_stamp()

    def __repr__(self):
        return 'SObj(%s%s)' % (self.cls.__name__, '' if self.term is None else ':%s' % self.term)


class SFunc:
    """Closure created by interpreted code."""
    __slots__ = ('node', 'env', 'globs', 'defaults', 'kwdefaults', 'klass', 'name', 'attrs')

    def __init__(self, node, env, globs, defaults, kwdefaults, klass, name):
        self.node, self.env, self.globs = node, env, globs
        self.defaults, self.kwdefaults, self.klass, self.name = defaults, kwdefaults, klass, name
        self.attrs = {}


class SBound:
    __slots__ = ('func', 'self')

    def __init__(self, func, self_):
        self.func, self.self = func, self_

    def __repr__(self):
        return 'SBound(%r)' % (getattr(self.func, '__qualname__', self.func),)


class SBuiltin:
    """Built-in method `name` of a receiver (list.append, str.join, ...)."""
    __slots__ = ('name', 'self', 'owner')

    def __init__(self, name, self_, owner=None):
        self.name, self.self, self.owner = name, self_, owner

    def __repr__(self):
        return 'SBuiltin(%s)' % self.name


class SSuper:
    __slots__ = ('cls', 'obj')

    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


class STypeOf:
    """type(x) of an undecided value."""
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v


class SGen:
    """Unevaluated generator expression (evaluated when consumed)."""
    __slots__ = ('node', 'frame', 'first', 'done', 'stamp')

    def __init__(self, node, frame, first):
        self.node, self.frame, self.first, self.done = node, frame, first, False
        self.stamp = next_stamp()


class SMatch:
    """Result of re.match/search on a symbolic string, undecided: truthiness is `cond`."""
    __slots__ = ('cond',)

    def __init__(self, cond):
        self.cond = cond


class SIter:
    __slots__ = ('seq', 'stamp')

    def __init__(self, seq):
        self.seq = seq
        self.stamp = next_stamp()
