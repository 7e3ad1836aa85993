"""Symbolic interpreter for the Python subset used by the package (and by the contracts)."""
import ast
import contextlib
import builtins
import sys
import types

from . import terms as t
from . import world
from .terms import T, mk
from .values import *  # noqa
from .engine import Engine, MISSING
from . import models, seqs

UNBOUND = object()
HEAPTYPE = 1 << 9     # class made by a class statement


def i_store(n):
    return ast.copy_location(ast.Name(n.id, ast.Store()), n)


def counting(s):
    """while i < len(xs): ...; i += 1 with neither i nor xs changed elsewhere in the body: a loop over range."""
    c = s.test
    if not (isinstance(c, ast.Compare) and len(c.ops) == 1 and isinstance(c.ops[0], ast.Lt) and isinstance(c.left, ast.Name)):
        return None
    n = c.comparators[0]
    if not (isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'len' and len(n.args) == 1 and isinstance(n.args[0], ast.Name)
            and not n.keywords):
        return None
    last = s.body[-1]
    i, xs = c.left.id, n.args[0].id
    if not (isinstance(last, ast.AugAssign) and isinstance(last.op, ast.Add) and isinstance(last.target, ast.Name) and last.target.id == i
            and isinstance(last.value, ast.Constant) and last.value.value == 1 and type(last.value.value) is int):
        return None
    for st in s.body[:-1]:
        for x in ast.walk(st):
            if isinstance(x, (ast.Continue, ast.FunctionDef, ast.Lambda, ast.Global, ast.Nonlocal)):
                return None
            if isinstance(x, ast.Name) and x.id == i and not isinstance(x.ctx, ast.Load):
                return None
            if isinstance(x, ast.Name) and x.id == xs:
                if not isinstance(x.ctx, ast.Load):
                    return None
        # xs may only be read as xs[...]
        reads = sum(1 for x in ast.walk(st) if isinstance(x, ast.Name) and x.id == xs)
        items = sum(1 for x in ast.walk(st) if isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Load) and isinstance(x.value, ast.Name) and x.value.id == xs)
        if reads != items:
            return None
    return s


class ReturnEx(BaseException):
    def __init__(self, value):
        self.value = value


class BreakEx(BaseException):
    pass


class ContinueEx(BaseException):
    pass


class Frame:
    __slots__ = ('env', 'parent', 'globs', 'klass', 'first', 'globals_', 'nonlocals', 'locals_', 'yields', 'cells', 'func')

    def __init__(self, globs, parent=None, klass=None):
        self.env = Env(self)
        self.parent = parent
        self.globs = globs
        self.klass = klass
        self.first = None
        self.globals_ = frozenset()
        self.nonlocals = frozenset()
        self.locals_ = frozenset()
        self.yields = None
        self.cells = None
        self.func = None


_scan_cache = {}


def scan(node):
    """Names assigned in a function body (its locals), its global/nonlocal names, whether it yields."""
    r = _scan_cache.get(node)
    if r is not None:
        return r
    loc, glob, nonl = set(), set(), set()
    isgen = [False]

    def visit(n, top):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)) and not top:
            loc.add(n.name)
            return
        if isinstance(n, ast.Lambda) and not top:
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for c in ast.walk(n):
                if isinstance(c, ast.NamedExpr):
                    loc.add(c.target.id)
            visit(n.generators[0].iter, False)
            return
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            loc.add(n.id)
        elif isinstance(n, ast.Global):
            glob.update(n.names)
        elif isinstance(n, ast.Nonlocal):
            nonl.update(n.names)
        elif isinstance(n, (ast.Yield, ast.YieldFrom)):
            isgen[0] = True
        elif isinstance(n, ast.ExceptHandler) and n.name:
            loc.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                loc.add((a.asname or a.name).split('.')[0])
        for c in ast.iter_child_nodes(n):
            visit(c, False)

    body = node.body if isinstance(node.body, list) else [node.body]
    for s in body:
        visit(s, False)
    a = node.args
    for x in a.posonlyargs + a.args + a.kwonlyargs:
        loc.add(x.arg)
    for x in (a.vararg, a.kwarg):
        if x:
            loc.add(x.arg)
    loc -= glob | nonl
    r = _scan_cache[node] = (frozenset(loc), frozenset(glob), frozenset(nonl), isgen[0])
    return r


class Interp:
    MAX_DEPTH = 120

    def __init__(self, eng):
        self.loops = []
        self.e = eng
        self.depth = 0
        self.contracts = {}       # real function -> handler(interp, args, kwargs) (call-site contract)
        self.called = set()       # package functions whose bodies were executed
        self.by_contract = set()
        models.setup(self)
        seqs.setup(self)

    # ================================================================ errors
    def throw(self, cls, *args):
        o = SObj(cls)
        o.attrs['args'] = SSeq('tuple', args)
        raise PyRaise(o)

    def unsupported(self, msg, node=None):
        raise Unsupported(msg + (' (line %d)' % node.lineno if node is not None and hasattr(node, 'lineno') else ''))

    # ================================================================ truth
    def truth(self, v):
        """Python truth value as a bool, forking when needed."""
        v = self.res(v)
        if v is None or isinstance(v, (bool, int, str, bytes, float)):
            return bool(v)
        if isinstance(v, T):
            if v.sort == 'I' and (v.op == 'len' and len(v.args) == 2 or v.op == 'add' and any(isinstance(a, T) and a.op == 'len' and len(a.args) == 2 for a in v.args)):
                v = seqs.cmp_len(self, v, 0)
                if not isinstance(v, T):
                    return bool(v)
            return self.e.branch(self.truth_term(v))
        if isinstance(v, (SSeq, SDict)):
            if isinstance(v, SSeq) and v.kind in ('gen', 'iter'):
                return True
            return self.nonempty(v)
        if isinstance(v, SObj):
            f = self.class_lookup(v.cls, '__bool__')
            if f is not None:
                return self.truth(self.call(self.bind(f, v, v.cls), [], {}))
            f = self.class_lookup(v.cls, '__len__')
            if f is not None:
                if v.entries is not None and f is list.__len__:
                    return self.nonempty(v)
                return self.truth(self.call(self.bind(f, v, v.cls), [], {}))
            return True
        if isinstance(v, SMatch):
            return self.e.branch(v.cond)
        if isinstance(v, STypeOf):
            return True
        if isinstance(v, (SFunc, SBound, SBuiltin, SGen, SIter, SSuper)):
            return True
        ov = self.real_view(v)
        if ov is not v:
            return self.truth(ov)
        return bool(v)

    def truth_term(self, v):
        if v.sort == 'B':
            return v
        if v.sort == 'I':
            return t.not_(t.eq(v, 0))
        if v.sort == 'S':
            return t.not_(t.eq(v, ''))
        if v.sort == 'V':
            tag = self.e.tag_of(v)
            if tag == 'none':
                return False
            if tag == 'bool':
                return t.bval(v)
            if tag == 'int':
                return t.not_(t.eq(t.ival(v), 0))
            if tag == 'str':
                return t.not_(t.eq(t.sval(v), ''))
            if tag in models.OPAQUE_TRUTHY:
                return mk('truthy', 'B', v)
            return self.truth(self.force(v))
        raise Unsupported('truth of %s' % v)

    def nonempty(self, c):
        lead = False
        for x in c.entries:
            if not isinstance(x, Seg):
                lead = True
        if lead:
            return True
        return self.e.branch(t.not_(t.eq(seqs.length(self, c.entries), 0)))

    # ================================================================ dynamic values
    def res(self, v):
        """Resolve a V-term whose tag is decided to its typed representation."""
        if isinstance(v, T) and v.sort == 'V':
            d = self.e.dom(v)
            if len(d) == 1:
                return models.materialise(self, v, next(iter(d)))
        return v

    def force(self, v):
        if isinstance(v, T) and v.sort == 'V':
            tag = self.e.tag_of(v)
            return models.materialise(self, v, tag)
        return v

    def real_view(self, v):
        """Symbolic copy of a real container if the program mutated it on this path."""
        if isinstance(v, (list, dict, set)):
            o = self.e.overlay.get(id(v))
            if o is not None:
                return o[1]
        return v

    def mutable(self, v):
        """Symbolic, mutable view of a real container (copy on first write, path local)."""
        if isinstance(v, (list, dict, set)):
            o = self.e.overlay.get(id(v))
            if o is None:
                if isinstance(v, dict):
                    s = SDict('OrderedDict' if type(v).__name__ == 'OrderedDict' else 'dict', list(v.items()))
                else:
                    s = SSeq(type(v).__name__, list(v))
                self.e.set_item(self.e.overlay, id(v), (v, s))
                return s
            return o[1]
        return v

    # ================================================================ classes
    def class_lookup(self, cls, name):
        for c in cls.__mro__:
            ov = self.e.cls_overlay.get((id(c), name), MISSING)
            if ov is not MISSING:
                return ov
            if name in c.__dict__:
                return c.__dict__[name]
        return None

    def class_lookup_after(self, cls, after, name):
        mro = cls.__mro__
        i = mro.index(after) + 1 if after in mro else 0
        for c in mro[i:]:
            if name in c.__dict__:
                return c.__dict__[name], c
        return None, None

    def bind(self, f, obj, cls):
        if isinstance(f, staticmethod):
            return f.__func__
        if isinstance(f, classmethod):
            return SBound(f.__func__, cls)
        if isinstance(f, (types.FunctionType, SFunc)):
            return SBound(f, obj) if obj is not None else f
        if isinstance(f, property):
            if obj is None:
                return f
            return self.call(f.fget, [obj], {})
        if isinstance(f, (types.WrapperDescriptorType, types.MethodDescriptorType, types.BuiltinFunctionType)):
            return SBuiltin(f.__name__, obj, getattr(f, '__objclass__', None))
        if isinstance(f, models.functools.partial):
            return f
        return f

    def getattr(self, o, name, default=MISSING):
        e = self.e
        o = self.res(o)
        if isinstance(o, T) and o.sort == 'V':
            o = self.force(o)
        if isinstance(o, SObj):
            if name == '__class__':
                return o.cls
            if name == '__dict__':
                return SDict('dict', list(o.attrs.items()))
            f = self.class_lookup(o.cls, name)
            if isinstance(f, property):
                return self.call(f.fget, [o], {})
            if isinstance(f, models.functools.cached_property):
                if name in o.attrs:
                    return o.attrs[name]
                r = self.call(f.func, [o], {})
                e.set_item(o.attrs, name, r)
                return r
            if name in o.attrs:
                return o.attrs[name]
            if name in models.unmodelled_state(o.cls):
                self.unsupported('attribute %s of an object known by its text only' % name)
            if f is not None:
                return self.bind(f, o, o.cls)
            g = self.class_lookup(o.cls, '__getattr__')
            if g is not None:
                return self.call(self.bind(g, o, o.cls), [name], {})
            if default is not MISSING:
                return default
            if issubclass(o.cls, BaseException) and name in ('args', '__traceback__', '__cause__'):
                return o.attrs.get(name)
            self.throw(AttributeError, name)
        if isinstance(o, SSuper):
            f, c = self.class_lookup_after(o.obj if isinstance(o.obj, type) else self.type_of(o.obj), o.cls, name)
            if f is None:
                if default is not MISSING:
                    return default
                self.throw(AttributeError, name)
            if isinstance(o.obj, type):
                return self.bind(f, None if not isinstance(f, classmethod) else o.obj, o.obj)
            return self.bind(f, o.obj, self.type_of(o.obj))
        if isinstance(o, type):
            if name in ('__name__', '__qualname__', '__module__', '__mro__', '__doc__', '__dict__'):
                return getattr(o, name)
            f = self.class_lookup(o, name)
            if f is None:
                r = getattr(type(o), name, MISSING)
                if r is not MISSING and default is MISSING:
                    return getattr(o, name)
                if default is not MISSING:
                    return default
                self.throw(AttributeError, name)
            if isinstance(f, (classmethod, staticmethod)):
                return self.bind(f, None, o)
            if isinstance(f, (types.WrapperDescriptorType, types.MethodDescriptorType)):
                return f
            if isinstance(f, types.ClassMethodDescriptorType):
                return getattr(o, name)
            return f
        if isinstance(o, types.ModuleType):
            ov = e.cls_overlay.get((id(o.__dict__), name), MISSING)
            if ov is not MISSING:
                return ov
            h = self.global_hook(o.__dict__, name)
            if h is not MISSING:
                return h
            r = getattr(o, name, MISSING)
            if r is MISSING:
                if default is not MISSING:
                    return default
                self.throw(AttributeError, name)
            return r
        if isinstance(o, STypeOf):
            o = self.force_type(o)
            return self.getattr(o, name, default)
        if isinstance(o, (SFunc, SBound, types.FunctionType)):
            f = o.func if isinstance(o, SBound) else o
            if name in ('__name__', '__qualname__'):
                return f.name if isinstance(f, SFunc) else getattr(f, name)
            if isinstance(o, SBound) and name == '__self__':
                return o.self
            if isinstance(o, SBound) and name == '__func__':
                return o.func
            if isinstance(f, SFunc):
                if name in f.attrs:
                    return f.attrs[name]
            elif hasattr(f, name):
                return getattr(f, name)
            if default is not MISSING:
                return default
            self.throw(AttributeError, name)
        # builtin values: methods
        cls = self.type_of(o)
        if name == '__class__':
            return cls
        f = self.class_lookup(cls, name)
        if f is None:
            if default is not MISSING:
                return default
            self.throw(AttributeError, name)
        if isinstance(o, (T, SSeq, SDict, SGen, SIter, SMatch)) or callable(f):
            if isinstance(f, (types.GetSetDescriptorType, types.MemberDescriptorType)):
                if not isinstance(o, (T, SSeq, SDict)):
                    return getattr(o, name)
                self.unsupported('attribute %s of %s' % (name, cls.__name__))
            if isinstance(f, (staticmethod, classmethod)):
                return getattr(cls, name)
            if isinstance(f, types.ClassMethodDescriptorType):
                return getattr(cls, name)
            if not isinstance(f, (types.WrapperDescriptorType, types.MethodDescriptorType, types.FunctionType)):
                return getattr(o, name)
            if isinstance(f, types.FunctionType):
                return SBound(f, o)
            return SBuiltin(name, o, cls)
        return getattr(o, name)

    def hasattr(self, o, name):
        o = self.res(o)
        if isinstance(o, T) and o.sort == 'V':
            dom = self.e.dom(o)
            yes = frozenset(tag for tag in dom if models.tag_hasattr(tag, name))
            return self.e.test_tag(o, yes) if yes else False
        if isinstance(o, (SObj,)):
            f = self.class_lookup(o.cls, name)
            if f is None or isinstance(f, property):
                try:
                    self.getattr(o, name)
                    return True
                except PyRaise as ex:
                    if issubclass(ex.exc.cls, AttributeError):
                        return False
                    raise
            return True
        if isinstance(o, (T, SSeq, SDict)):
            return hasattr(self.type_of(o), name)
        if isinstance(o, (SFunc, SBound, SGen, SIter, SMatch)):
            return self.getattr(o, name, None) is not None
        return hasattr(o, name)

    def setattr(self, o, name, v):
        e = self.e
        o = self.force(o)
        if isinstance(o, SObj):
            f = self.class_lookup(o.cls, name)
            if isinstance(f, property):
                if f.fset is None:
                    self.throw(AttributeError, name)
                self.call(f.fset, [o, v], {})
                return
            g = self.class_lookup(o.cls, '__setattr__')
            if isinstance(g, types.FunctionType):
                self.call(g, [o, name, v], {})
                return
            self.note_write(o)
            e.set_item(o.attrs, name, v)
            return
        if isinstance(o, type):
            e.set_item(e.cls_overlay, (id(o), name), v)
            return
        if isinstance(o, types.ModuleType):
            e.set_item(e.cls_overlay, (id(o.__dict__), name), v)
            return
        if isinstance(o, SFunc):
            e.set_item(o.attrs, name, v)
            return
        self.unsupported('setattr on %r' % (o,))

    def delattr(self, o, name):
        if isinstance(o, SObj) and name in o.attrs:
            self.note_write(o)
            self.e.del_item(o.attrs, name)
            return
        self.throw(AttributeError, name)

    def note_write(self, o):
        seqs.note_write(self, o)

    def type_of(self, o):
        o = self.res(o)
        if isinstance(o, T):
            if o.sort == 'V':
                return STypeOf(o)
            return {'S': str, 'I': int, 'B': bool}[o.sort]
        if isinstance(o, SObj):
            return o.cls
        if isinstance(o, SSeq):
            return {'list': list, 'tuple': tuple, 'set': set, 'frozenset': frozenset, 'range': range,
                    'gen': types.GeneratorType, 'view': type({}.items()), 'iter': type(iter([]))}[o.kind]
        if isinstance(o, SDict):
            return models.OrderedDict if o.kind == 'OrderedDict' else dict
        if isinstance(o, SGen):
            return types.GeneratorType
        if isinstance(o, SFunc):
            return types.FunctionType
        if isinstance(o, SBound):
            return types.MethodType
        if isinstance(o, models.SOpaque):
            return o.cls
        if isinstance(o, SMatch):
            return models.re.Match
        if isinstance(o, STypeOf):
            return type
        return type(o)

    def force_type(self, ty):
        if isinstance(ty, STypeOf):
            tag = self.e.tag_of(ty.v)
            return models.tag_class(tag)
        return ty

    # ================================================================ names
    def load(self, fr, name):
        f = fr
        while f is not None:
            if name in f.env:
                v = f.env[name]
                if v is seqs.POISON:
                    raise seqs.CarriedLocal('loop-carried local %s' % name, f.env, name)
                return v
            if f.locals_ and name in f.locals_ and name not in f.globals_ and name not in f.nonlocals:
                if f is fr or f.locals_:
                    self.throw(UnboundLocalError, name)
            if name in f.globals_:
                break
            if f.cells and name in f.cells:
                try:
                    return f.cells[name].cell_contents
                except ValueError:
                    self.throw(NameError, name)
            f = f.parent
        return self.load_global(fr.globs, name)

    def load_global(self, globs, name):
        ov = self.e.cls_overlay.get((id(globs), name), MISSING)
        if ov is not MISSING:
            return ov
        if name in globs:
            h = self.global_hook(globs, name)
            if h is not MISSING:
                return h
            return globs[name]
        b = getattr(builtins, name, MISSING)
        if b is not MISSING:
            return b
        self.throw(NameError, name)

    def global_hook(self, globs, name):
        h = self.e.hooks.get('global')
        if h is not None:
            return h(globs, name)
        return MISSING

    def store(self, fr, name, v):
        if name in fr.globals_:
            self.e.set_item(self.e.cls_overlay, (id(fr.globs), name), v)
            return
        if name in fr.nonlocals:
            f = fr.parent
            while f is not None:
                if name in f.env:
                    self.e.set_item(f.env, name, v)
                    return
                f = f.parent
            self.unsupported('nonlocal %s' % name)
        self.e.set_item(fr.env, name, v)

    # ================================================================ calls
    def call(self, f, args, kwargs, star=None):
        """args: list of values (may contain Seg entries), kwargs: dict or SDict-entries list for **."""
        self.e.check_deadline()
        if isinstance(f, T) and f.sort == 'V':
            f = self.force(f)
        if isinstance(f, SBound):
            return self.call(f.func, [f.self] + list(args), kwargs)
        if isinstance(f, SBuiltin):
            return models.call_method(self, f, args, kwargs)
        if isinstance(f, SFunc):
            return self.call_closure(f, args, kwargs)
        if isinstance(f, STypeOf):
            f = self.force_type(f)
        h = models.FUNCS.get(f) if isinstance(f, models.Hashable) else None
        if h is not None:
            return h(self, args, kwargs)
        if isinstance(f, type):
            return self.instantiate_class(f, args, kwargs)
        if isinstance(f, types.FunctionType):
            c = self.contracts.get(f)
            if c is not None:
                r = c(self, args, kwargs)
                if r is not NotImplemented:
                    return r
            return self.call_function(f, args, kwargs)
        if isinstance(f, types.MethodType):
            return self.call(f.__func__, [f.__self__] + list(args), kwargs)
        if isinstance(f, models.functools.partial):
            kw = dict(f.keywords)
            kw.update(kwargs)
            return self.call(f.func, list(f.args) + list(args), kw)
        if isinstance(f, (models.operator.attrgetter, models.operator.itemgetter, models.operator.methodcaller)):
            made = f.__reduce__()
            if made[0] is type(f):
                return self.call(self.call(made[0], list(made[1]), {}), args, kwargs)
        if isinstance(f, (types.WrapperDescriptorType, types.MethodDescriptorType)):
            if not args:
                self.throw(TypeError, 'unbound method')
            return models.call_method(self, SBuiltin(f.__name__, args[0], f.__objclass__), args[1:], kwargs)
        if isinstance(f, SObj):
            m = self.class_lookup(f.cls, '__call__')
            if m is not None:
                return self.call(self.bind(m, f, f.cls), args, kwargs)
            self.throw(TypeError, 'not callable')
        if isinstance(f, (types.BuiltinFunctionType, types.BuiltinMethodType)) or callable(f):
            return models.call_native(self, f, args, kwargs)
        if f is None or isinstance(f, (str, int, T, SSeq, SDict)):
            self.throw(TypeError, 'not callable')
        self.unsupported('call of %r' % (f,))

    def call_function(self, f, args, kwargs):
        node = world.node_of(f)
        if node is None:
            return models.call_native(self, f, args, kwargs)
        if world.in_package(f):
            self.called.add(f.__module__ + ':' + f.__qualname__)
        fr = Frame(f.__globals__)
        fr.func = f
        if f.__closure__:
            fr.cells = dict(zip(f.__code__.co_freevars, f.__closure__))
            if '__class__' in fr.cells:
                fr.klass = fr.cells['__class__'].cell_contents
        elif '.' in f.__qualname__:
            fr.klass = None
        return self.run(node, fr, args, kwargs, f.__defaults__ or (), f.__kwdefaults__ or {}, f.__name__)

    def call_closure(self, f, args, kwargs):
        fr = Frame(f.globs, parent=f.env, klass=f.klass)
        return self.run(f.node, fr, args, kwargs, f.defaults, f.kwdefaults, f.name)

    def run(self, node, fr, args, kwargs, defaults, kwdefaults, name):
        self.depth += 1
        if self.depth > self.MAX_DEPTH:
            self.depth -= 1
            raise Unsupported('recursion too deep in %s' % name)
        try:
            loc, glob, nonl, isgen = scan(node)
            fr.globals_, fr.nonlocals = glob, nonl
            fr.locals_ = loc
            self.bind_args(node.args, fr, list(args), kwargs, defaults, kwdefaults, name)
            names = [a.arg for a in node.args.posonlyargs + node.args.args]
            fr.first = fr.env.get(names[0]) if names else (None)
            if isinstance(node, ast.Lambda):
                return self.eval(node.body, fr)
            if isgen:
                fr.yields = SSeq('list', ())
                try:
                    self.block(node.body, fr)
                except ReturnEx:
                    pass
                return SSeq('gen', fr.yields.entries)
            try:
                self.block(node.body, fr)
            except ReturnEx as r:
                return r.value
            return None
        finally:
            self.depth -= 1

    def bind_args(self, a, fr, args, kwargs, defaults, kwdefaults, name):
        e = self.e
        env = fr.env
        pos = [x.arg for x in a.posonlyargs + a.args]
        posonly = {x.arg for x in a.posonlyargs}
        kwonly = [x.arg for x in a.kwonlyargs]
        # fill positionals
        i = 0
        args = list(args)
        while i < len(pos) and args:
            if isinstance(args[0], Seg):
                un = seqs.unfold(self, args)
                args = un
                if not args:
                    break
                if isinstance(args[0], Seg):
                    continue
            e.set_item(env, pos[i], args.pop(0))
            i += 1
        kw_entries = list(kwargs.items()) if isinstance(kwargs, dict) else list(kwargs)
        rest_kw = []
        for ent in kw_entries:
            if isinstance(ent, Seg) or isinstance(ent[0], T):
                for p in pos + kwonly:
                    # (no dictionary of keyword arguments has the key 'self': Python itself cannot pass it to a method)
                    if p not in posonly and p != 'self':
                        hit = models.seg_lookup(self, ent, p) is not MISSING if isinstance(ent, Seg) else self.truth(models.py_eq(self, ent[0], p))
                        if hit and p in env:
                            self.throw(TypeError, '%s() got multiple values for argument %r' % (name, p))
                        if hit:
                            self.unsupported('keyword argument among symbolic ones')
                rest_kw.append(ent)
                continue
            k, v = ent
            if isinstance(k, str) and (k in pos or k in kwonly) and k not in posonly:
                if k in env:
                    self.throw(TypeError, '%s() got multiple values for argument %r' % (name, k))
                e.set_item(env, k, v)
            else:
                rest_kw.append(ent)
        if a.vararg:
            e.set_item(env, a.vararg.arg, SSeq('tuple', args))
        elif args:
            if all(isinstance(x, Seg) for x in args):
                if self.e.branch(t.eq(seqs.length(self, args), 0)):
                    args = []
            if args:
                self.throw(TypeError, '%s() takes %d positional arguments' % (name, len(pos)))
        if a.kwarg:
            e.set_item(env, a.kwarg.arg, SDict('dict', rest_kw))
        elif rest_kw:
            if all(isinstance(x, Seg) for x in rest_kw):
                if self.e.branch(t.eq(seqs.length(self, rest_kw), 0)):
                    rest_kw = []
            if rest_kw:
                self.throw(TypeError, '%s() got an unexpected keyword argument' % name)
        nd = len(defaults)
        for k, n in enumerate(pos):
            if n not in env:
                di = k - (len(pos) - nd)
                if di >= 0:
                    e.set_item(env, n, defaults[di])
                else:
                    self.throw(TypeError, '%s() missing argument %s' % (name, n))
        for n in kwonly:
            if n not in env:
                if n in kwdefaults:
                    e.set_item(env, n, kwdefaults[n])
                else:
                    self.throw(TypeError, '%s() missing keyword argument %s' % (name, n))

    def instantiate_class(self, cls, args, kwargs):
        h = models.CLASSES.get(cls)
        if h is not None:
            return h(self, args, kwargs)
        if issubclass(cls, BaseException):
            o = SObj(cls)
            o.attrs['args'] = SSeq('tuple', args)
            init = self.class_lookup(cls, '__init__')
            if isinstance(init, types.FunctionType):
                self.call(init, [o] + list(args), kwargs)
            return o
        new = self.class_lookup(cls, '__new__')
        if isinstance(new, staticmethod):
            new = new.__func__
        if isinstance(new, types.FunctionType):
            o = self.call(new, [cls] + list(args), kwargs)
            if not (isinstance(o, SObj) and issubclass(o.cls, cls)):
                return o
        elif cls.__module__ == 'builtins' or not isinstance(cls, type):
            return models.call_native(self, cls, args, kwargs)
        elif not all(c.__flags__ & HEAPTYPE for c in cls.__mro__[:-1] if c not in (list, dict, set, tuple, str, int)):
            self.unsupported('instance of the library class %s' % cls.__qualname__)
        else:
            o = models.new_object(self, cls)
        init = self.class_lookup(cls, '__init__')
        if isinstance(init, types.FunctionType):
            self.call(init, [o] + list(args), kwargs)
        elif o.entries is not None and args:
            self.e.set_attr(o, 'entries', tuple(seqs.iter_entries(self, args[0])))
        elif (args or kwargs) and init is object.__init__ and not isinstance(new, types.FunctionType):
            self.throw(TypeError, '%s() takes no arguments' % cls.__name__)
        return o

    # ================================================================ statements
    def block(self, body, fr):
        for s in body:
            self.stmt(s, fr)

    def stmt(self, s, fr):
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            self.unsupported('statement %s' % type(s).__name__, s)
        m(s, fr)

    def s_Expr(self, s, fr):
        if isinstance(s.value, ast.Constant):
            return
        self.eval(s.value, fr)

    def s_Pass(self, s, fr):
        pass

    def s_Return(self, s, fr):
        raise ReturnEx(self.eval(s.value, fr) if s.value is not None else None)

    def s_Break(self, s, fr):
        raise BreakEx()

    def s_Continue(self, s, fr):
        raise ContinueEx()

    def s_Global(self, s, fr):
        pass

    def s_Nonlocal(self, s, fr):
        pass

    def s_Assign(self, s, fr):
        v = self.eval(s.value, fr)
        for tg in s.targets:
            self.assign(tg, v, fr)

    def s_AnnAssign(self, s, fr):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, fr), fr)

    def s_AugAssign(self, s, fr):
        tg = s.target
        if isinstance(tg, ast.Name):
            cur = self.load(fr, tg.id)
            v = self.aug(s.op, cur, self.eval(s.value, fr))
            self.store(fr, tg.id, v)
        elif isinstance(tg, ast.Attribute):
            o = self.eval(tg.value, fr)
            v = self.aug(s.op, self.getattr(o, tg.attr), self.eval(s.value, fr))
            self.setattr(o, tg.attr, v)
        elif isinstance(tg, ast.Subscript):
            o = self.eval(tg.value, fr)
            k = self.eval(tg.slice, fr)
            v = self.aug(s.op, models.getitem(self, o, k), self.eval(s.value, fr))
            models.setitem(self, o, k, v)
        else:
            self.unsupported('augmented assignment', s)

    def aug(self, op, a, b):
        a = self.res(a)
        if isinstance(op, ast.Add) and isinstance(a, (SSeq, list)) and (isinstance(a, list) or a.kind == 'list'):
            a = self.mutable(a)
            self.note_write(a)
            self.e.set_attr(a, 'entries', a.entries + tuple(seqs.iter_entries(self, b)))
            return a
        if isinstance(op, ast.BitOr) and isinstance(a, (SSeq, SDict, set, dict)):
            a = self.mutable(a)
            models.call_method(self, SBuiltin('update', a), [b], {})
            return a
        return models.binop(self, op, a, b)

    def assign(self, tg, v, fr):
        if isinstance(tg, ast.Name):
            self.store(fr, tg.id, v)
        elif isinstance(tg, ast.Attribute):
            self.setattr(self.eval(tg.value, fr), tg.attr, v)
        elif isinstance(tg, ast.Subscript):
            models.setitem(self, self.eval(tg.value, fr), self.eval(tg.slice, fr), v)
        elif isinstance(tg, (ast.Tuple, ast.List)):
            ents = list(seqs.iter_entries(self, v))
            n = len(tg.elts)
            star = [i for i, x in enumerate(tg.elts) if isinstance(x, ast.Starred)]
            if star:
                i = star[0]
                after = n - i - 1
                ents = seqs.expose(self, ents, i, after)
                if len(ents) < n - 1:
                    self.throw(ValueError, 'not enough values to unpack')
                for x, val in zip(tg.elts[:i], ents[:i]):
                    self.assign(x, val, fr)
                self.assign(tg.elts[i].value, SSeq('list', ents[i:len(ents) - after]), fr)
                for x, val in zip(tg.elts[i + 1:], ents[len(ents) - after:]):
                    self.assign(x, val, fr)
                return
            ents = seqs.exact(self, ents, n)
            if ents is None:
                self.throw(ValueError, 'wrong number of values to unpack')
            for x, val in zip(tg.elts, ents):
                self.assign(x, val, fr)
        else:
            self.unsupported('assignment target', tg)

    def s_Delete(self, s, fr):
        for tg in s.targets:
            if isinstance(tg, ast.Name):
                self.e.del_item(fr.env, tg.id)
            elif isinstance(tg, ast.Subscript):
                models.delitem(self, self.eval(tg.value, fr), self.eval(tg.slice, fr))
            elif isinstance(tg, ast.Attribute):
                self.delattr(self.eval(tg.value, fr), tg.attr)
            else:
                self.unsupported('del', s)

    def s_If(self, s, fr):
        if self.truth(self.eval(s.test, fr)):
            self.block(s.body, fr)
        else:
            self.block(s.orelse, fr)

    def s_Assert(self, s, fr):
        if not self.truth(self.eval(s.test, fr)):
            self.throw(AssertionError)

    def s_While(self, s, fr):
        f = counting(s)
        if f is not None and not isinstance(models.py_len(self, [self.eval(s.test.comparators[0].args[0], fr)], {}), int):
            i = s.test.left
            start = self.force(self.eval(i, fr))
            if isinstance(start, int) and not isinstance(start, bool) and start >= 0:
                end = self.eval(s.test.comparators[0], fr)
                xs = self.force(self.eval(s.test.comparators[0].args[0], fr))
                before = seqs.length(self, xs.entries) if isinstance(xs, SSeq) and xs.kind in ('list', 'tuple') else None
                it = models.range_of_len(self, [start, end])
                if it is not None and before is not None:
                    broke = seqs.run_loop(self, it, lambda x: (self.assign(i_store(i), x, fr), self.block(s.body[:-1], fr)), fr, s)
                    if t.eq(seqs.length(self, xs.entries), seqs.norm_len(self, before)) is not True:
                        self.unsupported('while loop over a list that changes', s)
                    if not broke:
                        self.assign(i_store(i), end, fr)
                        self.block(s.orelse, fr)
                    return
        n = 0
        while self.truth(self.eval(s.test, fr)):
            n += 1
            if n > 200:
                self.unsupported('while loop without concrete bound', s)
            try:
                self.block(s.body, fr)
            except BreakEx:
                return
            except ContinueEx:
                continue
        self.block(s.orelse, fr)

    def s_For(self, s, fr):
        it = self.eval(s.iter, fr)

        def body(x):
            self.assign(s.target, x, fr)
            self.block(s.body, fr)
        broke = seqs.run_loop(self, it, body, fr, s)
        if not broke:
            self.block(s.orelse, fr)

    def s_Raise(self, s, fr):
        if s.exc is None:
            cur = fr.env.get('%exc')
            if cur is None:
                f = fr.parent
                while f is not None and cur is None:
                    cur = f.env.get('%exc')
                    f = f.parent
            if cur is None:
                self.throw(RuntimeError, 'No active exception to reraise')
            raise PyRaise(cur)
        ex = self.force(self.eval(s.exc, fr))
        if isinstance(ex, type):
            ex = self.call(ex, [], {})
        if not isinstance(ex, SObj):
            self.unsupported('raise of %r' % (ex,), s)
        raise PyRaise(ex)

    def s_Try(self, s, fr):
        try:
            try:
                self.block(s.body, fr)
            except PyRaise as p:
                for h in s.handlers:
                    if h.type is None:
                        ok = True
                    else:
                        ok = self.exc_match(p.exc.cls, self.eval(h.type, fr))
                    if ok:
                        old = fr.env.get('%exc', MISSING)
                        self.e.set_item(fr.env, '%exc', p.exc)
                        if h.name:
                            self.store(fr, h.name, p.exc)
                        try:
                            self.block(h.body, fr)
                        finally:
                            if old is MISSING:
                                self.e.del_item(fr.env, '%exc')
                            else:
                                self.e.set_item(fr.env, '%exc', old)
                        break
                else:
                    raise
            else:
                self.block(s.orelse, fr)
        except (PathAbort, Unsupported):
            raise
        except BaseException:
            if s.finalbody:
                self.block(s.finalbody, fr)
            raise
        else:
            if s.finalbody:
                self.block(s.finalbody, fr)

    def exc_match(self, cls, spec):
        if isinstance(spec, SSeq):
            return any(self.exc_match(cls, x) for x in spec.entries)
        if isinstance(spec, tuple):
            return any(self.exc_match(cls, x) for x in spec)
        return issubclass(cls, spec)

    def s_FunctionDef(self, s, fr):
        f = self.make_func(s, fr, s.name)
        for d in reversed(s.decorator_list):
            f = self.call(self.eval(d, fr), [f], {})
        self.store(fr, s.name, f)

    def make_func(self, node, fr, name):
        a = node.args
        defaults = tuple(self.eval(d, fr) for d in a.defaults)
        kwd = {x.arg: self.eval(d, fr) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        return SFunc(node, fr, fr.globs, defaults, kwd, fr.klass, name)

    def s_Import(self, s, fr):
        import importlib
        for a in s.names:
            m = importlib.import_module(a.name)
            if a.asname:
                self.store(fr, a.asname, m)
            else:
                self.store(fr, a.name.split('.')[0], sys.modules[a.name.split('.')[0]])

    def s_ImportFrom(self, s, fr):
        import importlib
        pkg = fr.globs.get('__package__')
        m = importlib.import_module('.' * s.level + (s.module or ''), pkg)
        for a in s.names:
            if not hasattr(m, a.name):
                try:
                    importlib.import_module(m.__name__ + '.' + a.name)
                except ImportError:
                    self.throw(ImportError, a.name)
            self.store(fr, a.asname or a.name, self.getattr(m, a.name))

    def s_With(self, s, fr):
        item = s.items[0]
        if isinstance(item.context_expr, ast.Call) and item.optional_vars is None \
                and self.eval(item.context_expr.func, fr) is contextlib.suppress and not item.context_expr.keywords:
            names = self.elts(item.context_expr.args, fr)
            try:
                if len(s.items) > 1:
                    self.s_With(ast.copy_location(ast.With(s.items[1:], s.body), s), fr)
                else:
                    self.block(s.body, fr)
            except PyRaise as p:
                if not self.exc_match(p.exc.cls, tuple(names)):
                    raise
            return
        self.unsupported('with statement', s)

    def s_Match(self, s, fr):
        subject = self.eval(s.subject, fr)
        for case in s.cases:
            if self.matches(case.pattern, subject, fr) and (case.guard is None or self.truth(self.eval(case.guard, fr))):
                self.block(case.body, fr)
                return

    def matches(self, p, v, fr):
        kind = type(p).__name__
        if kind == 'MatchValue':
            return self.truth(models.py_eq(self, v, self.eval(p.value, fr)))
        if kind == 'MatchSingleton':
            return self.truth(models.py_is(self, v, p.value))
        if kind == 'MatchAs':
            if p.pattern is not None and not self.matches(p.pattern, v, fr):
                return False
            if p.name is not None:
                self.store(fr, p.name, v)
            return True
        if kind == 'MatchOr':
            return any(self.matches(q, v, fr) for q in p.patterns)
        if kind == 'MatchClass':
            cls = self.eval(p.cls, fr)
            if not isinstance(cls, type) or p.kwd_attrs and any(not isinstance(a, str) for a in p.kwd_attrs):
                self.unsupported('class pattern', p)
            if not self.truth(models.FUNCS[isinstance](self, [v, cls], {})):
                return False
            if p.patterns:
                if len(p.patterns) != 1 or cls not in (bool, bytearray, bytes, dict, float, frozenset, int, list, set, str, tuple):
                    self.unsupported('class pattern', p)
                if not self.matches(p.patterns[0], v, fr):
                    return False
            for a, q in zip(p.kwd_attrs, p.kwd_patterns):
                try:
                    x = self.getattr(v, a)
                except PyRaise as ex:
                    if issubclass(ex.exc.cls, AttributeError):
                        return False
                    raise
                if not self.matches(q, x, fr):
                    return False
            return True
        if kind == 'MatchSequence':
            if not self.truth(models.FUNCS[isinstance](self, [v, (list, tuple, range)], {})):
                return False
            stars = [i for i, q in enumerate(p.patterns) if isinstance(q, ast.MatchStar)]
            ents = seqs.iter_entries(self, v)
            if not stars:
                ents = seqs.exact(self, ents, len(p.patterns))
                return ents is not None and all(self.matches(q, x, fr) for q, x in zip(p.patterns, ents))
            i = stars[0]
            after = len(p.patterns) - i - 1
            ents = seqs.expose(self, ents, i, after)
            if sum(1 for x in ents if not isinstance(x, Seg)) < i + after:
                return False
            if any(isinstance(x, Seg) for x in ents[:i] + (ents[len(ents) - after:] if after else [])):
                self.unsupported('sequence pattern', p)
            end = len(ents) - after
            for q, x in zip(p.patterns[:i] + p.patterns[i + 1:], list(ents[:i]) + list(ents[end:])):
                if not self.matches(q, x, fr):
                    return False
            if p.patterns[i].name is not None:
                self.store(fr, p.patterns[i].name, SSeq('list', ents[i:end]))
            return True
        if kind == 'MatchMapping' and p.rest is None:
            if not self.truth(models.FUNCS[isinstance](self, [v, dict], {})):
                return False
            for k, q in zip(p.keys, p.patterns):
                ent = models.dict_find(self, self.force(v), self.eval(k, fr))
                if ent is MISSING or not self.matches(q, ent[1], fr):
                    return False
            return True
        self.unsupported('pattern %s' % kind, p)

    def s_ClassDef(self, s, fr):
        self.unsupported('nested class', s)

    # ================================================================ expressions
    def eval(self, n, fr):
        m = getattr(self, 'x_' + type(n).__name__, None)
        if m is None:
            self.unsupported('expression %s' % type(n).__name__, n)
        return m(n, fr)

    def x_Constant(self, n, fr):
        return n.value

    def x_Name(self, n, fr):
        return self.load(fr, n.id)

    def x_Attribute(self, n, fr):
        return self.getattr(self.eval(n.value, fr), n.attr)

    def x_Tuple(self, n, fr):
        return SSeq('tuple', self.elts(n.elts, fr))

    def x_List(self, n, fr):
        return SSeq('list', self.elts(n.elts, fr))

    def x_Set(self, n, fr):
        s = SSeq('set', ())
        for x in self.elts(n.elts, fr):
            models.set_add(self, s, x)
        return s

    def elts(self, elts, fr):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                out.extend(seqs.iter_entries(self, self.eval(x.value, fr)))
            else:
                out.append(self.eval(x, fr))
        return out

    def x_Dict(self, n, fr):
        d = SDict('dict', ())
        for k, v in zip(n.keys, n.values):
            if k is None:
                models.dict_update(self, d, self.eval(v, fr))
            else:
                kk = self.eval(k, fr)
                models.dict_set(self, d, kk, self.eval(v, fr))
        return d

    def x_BinOp(self, n, fr):
        a = self.eval(n.left, fr)
        b = self.eval(n.right, fr)
        return models.binop(self, n.op, a, b)

    def x_UnaryOp(self, n, fr):
        v = self.eval(n.operand, fr)
        if isinstance(n.op, ast.Not):
            v = self.res(v)
            if isinstance(v, T) and v.sort == 'B':
                return t.not_(v)
            return not self.truth(v)
        v = self.force(v)
        if isinstance(n.op, ast.USub):
            if isinstance(v, T) and v.sort == 'I':
                return t.neg(v)
            if isinstance(v, (int, float)):
                return -v
        if isinstance(n.op, ast.UAdd) and isinstance(v, (int, float)):
            return +v
        if isinstance(n.op, ast.Invert) and isinstance(v, int):
            return ~v
        self.unsupported('unary operator', n)

    def x_BoolOp(self, n, fr):
        isand = isinstance(n.op, ast.And)
        v = None
        for i, x in enumerate(n.values):
            v = self.eval(x, fr)
            if i == len(n.values) - 1:
                return v
            tv = self.truth(v)
            if isand and not tv:
                return self.settle_bool(v, tv)
            if not isand and tv:
                return self.settle_bool(v, tv)
        return v

    def settle_bool(self, v, tv):
        v = self.res(v)
        if isinstance(v, T) and v.sort == 'B':
            return tv
        if isinstance(v, SMatch):
            return v if tv else None
        return v

    def x_Compare(self, n, fr):
        left = self.eval(n.left, fr)
        for i, (op, c) in enumerate(zip(n.ops, n.comparators)):
            right = self.eval(c, fr)
            r = models.compare(self, op, left, right)
            if i == len(n.ops) - 1:
                return r
            if not self.truth(r):
                return self.settle_bool(r, False)
            left = right

    def x_IfExp(self, n, fr):
        return self.eval(n.body if self.truth(self.eval(n.test, fr)) else n.orelse, fr)

    def x_Lambda(self, n, fr):
        return self.make_func(n, fr, '<lambda>')

    def x_NamedExpr(self, n, fr):
        v = self.eval(n.value, fr)
        self.store(fr, n.target.id, v)
        return v

    def x_Starred(self, n, fr):
        self.unsupported('starred expression', n)

    def x_Subscript(self, n, fr):
        o = self.eval(n.value, fr)
        if isinstance(n.slice, ast.Slice):
            lo, hi, st = [None if x is None else self.eval(x, fr) for x in (n.slice.lower, n.slice.upper, n.slice.step)]
            return models.getslice(self, o, lo, hi, st)
        return models.getitem(self, o, self.eval(n.slice, fr))

    def x_Slice(self, n, fr):
        self.unsupported('slice object', n)

    def x_JoinedStr(self, n, fr):
        out = []
        for p in n.values:
            if isinstance(p, ast.Constant):
                out.append(p.value)
            else:
                v = self.eval(p.value, fr)
                spec = ''
                if p.format_spec is not None:
                    spec = self.eval(p.format_spec, fr)
                if p.conversion == ord('s'):
                    v = models.to_str(self, v)
                elif p.conversion == ord('r'):
                    v = models.to_repr(self, v)
                elif p.conversion == ord('a'):
                    self.unsupported('!a conversion', n)
                out.append(models.format_value(self, v, spec))
        return t.cat(*out)

    def x_Call(self, n, fr):
        # super()
        if isinstance(n.func, ast.Name) and n.func.id == 'super' and fr_lookup(fr, 'super') is None:
            if not n.args:
                k, first = fr.klass, fr.first
                f = fr
                while k is None and f.parent is not None:
                    f = f.parent
                    k, first = f.klass, f.first
                if isinstance(n.func, ast.Name) and fr.first is None:
                    f = fr
                    while f is not None and f.first is None:
                        f = f.parent
                    first = f.first if f is not None else None
                if k is None:
                    self.unsupported('super() outside a class', n)
                return SSuper(k, first)
            a = [self.eval(x, fr) for x in n.args]
            return SSuper(a[0], a[1])
        f = self.eval(n.func, fr)
        if f is builtins.locals or f is builtins.globals or f is builtins.vars and not n.args:
            if f is builtins.locals:
                return SDict('dict', [(k, v) for k, v in fr.env.items() if k[0] != '%'])
            self.unsupported('globals()', n)
        args = self.elts(n.args, fr)
        kwargs = {}
        segs = []
        for kw in n.keywords:
            if kw.arg is not None:
                kwargs[kw.arg] = self.eval(kw.value, fr)
            else:
                given = self.real_view(self.force(self.eval(kw.value, fr)))
                for ent in models.dict_view(self, given):
                    if isinstance(ent, Seg):
                        segs.append(ent)
                        continue
                    k, v = ent
                    k = self.force(k)
                    if isinstance(k, T):
                        segs.append((k, v))
                        continue
                    if not isinstance(k, str):
                        self.throw(TypeError, 'keywords must be strings')
                    if k in kwargs:
                        self.throw(TypeError, 'multiple values for keyword argument')
                    kwargs[k] = v
        if segs:
            kwargs = list(kwargs.items()) + segs
        return self.call(f, args, kwargs)

    def x_GeneratorExp(self, n, fr):
        first = self.eval(n.generators[0].iter, fr)
        return SGen(n, fr, first)

    def x_ListComp(self, n, fr):
        return SSeq('list', seqs.comp_entries(self, n, fr, self.eval(n.generators[0].iter, fr)))

    def x_SetComp(self, n, fr):
        s = SSeq('set', ())
        seqs.comp_entries(self, n, fr, self.eval(n.generators[0].iter, fr), lambda x: models.set_add(self, s, x))
        return s

    def x_DictComp(self, n, fr):
        d = SDict('dict', ())
        for x in seqs.comp_entries(self, n, fr, self.eval(n.generators[0].iter, fr)):
            models.dict_add_entry(self, d, x)
        return d

    def x_Yield(self, n, fr):
        v = self.eval(n.value, fr) if n.value is not None else None
        f = fr
        self.e.set_attr(f.yields, 'entries', f.yields.entries + (v,))
        return None

    def x_YieldFrom(self, n, fr):
        ents = tuple(seqs.iter_entries(self, self.eval(n.value, fr)))
        self.e.set_attr(fr.yields, 'entries', fr.yields.entries + ents)
        return None


def fr_lookup(fr, name):
    while fr is not None:
        if name in fr.env:
            return fr.env[name]
        fr = fr.parent
    return None
