"""Symbolic execution of harnesses: builds symbolic inputs, installs contracts, records obligations."""
import sys
import time
import traceback
import types

import vlib
from . import automata, terms as t
from . import models, seqs, interp, world
from .terms import T, mk
from .values import *  # noqa
from .engine import Engine, DOMAINS, Budget, MISSING

for _k, _v in vlib.DOMAINS.items():
    DOMAINS[_k] = frozenset(_v)

sys.setrecursionlimit(20000)


# ---------------------------------------------------------------- SQL objects of the contracts library
def _mk_sql(cls):
    def maker(ip, v):
        return SObj(cls, {'_text': mk('TEXT', 'S', v)})
    return maker


models.define_tag('sql', vlib.AnySql, _mk_sql(vlib.AnySql))
models.define_tag('select', vlib.AnySelect, _mk_sql(vlib.AnySelect))
models.define_tag('union', vlib.AnyUnion, _mk_sql(vlib.AnyUnion))
models.define_tag('foreign', vlib.ForeignSql, _mk_sql(vlib.ForeignSql))
models.define_tag('other', vlib.Other, lambda ip, v: SObj(vlib.Other))


# ---------------------------------------------------------------- symbolic inputs
def sym(ip, dom, name):
    if isinstance(dom, vlib.Dom):
        if dom.key == 'STR':
            return t.var(name, 'S')
        if dom.key == 'INT':
            return t.var(name, 'I')
        if dom.key == 'BOOL':
            return t.var(name, 'B')
        return mk('in', 'V', dom.key, name)
    if isinstance(dom, vlib.Seq):
        root = t.var(name, 'Q')
        if isinstance(dom.elem, vlib.Map) and dom.elem.some:
            seqs.add_allfact(ip, root, lambda i: t.not_(t.eq(mk('len', 'I', mk('sub', 'Q', root, '', i)), 0)))
        return SSeq(dom.kind, (seqs.base_seg(root, lambda i: elem(ip, dom.elem, root, i)),))
    if isinstance(dom, vlib.Tup):
        return SSeq('tuple', [sym(ip, d, '%s.%d' % (name, i)) for i, d in enumerate(dom.elems)])
    if isinstance(dom, vlib.Map):
        root = t.var(name, 'Q')
        note_keys(ip, dom, root)
        if dom.some:
            ip.e.add_fact(t.not_(t.eq(mk('len', 'I', root), 0)))
        return SDict('dict', (seqs.base_seg(root, lambda i: (elem(ip, dom.keys or vlib.STR, root, i, 'k'), elem(ip, dom.elem, root, i, 'v'))),))
    if isinstance(dom, vlib.Choice):
        return ip.e.fork(tuple(dom.options))
    raise TypeError(dom)


def note_keys(ip, dom, root):
    if dom.keys is None or dom.keys.key == 'STR':
        if root.op == 'sub':
            seqs.map_keys[root.args[:2]] = lambda r, i: elem(ip, vlib.STR, r, i, 'k')
        else:
            seqs.map_keys[root] = lambda i: elem(ip, vlib.STR, root, i, 'k')


def elem(ip, dom, root, i, slot=''):
    if isinstance(dom, vlib.Dom):
        v = mk('it', 'V', dom.key, mk('slot', 'Q', root, slot) if slot else root, i)
        if dom.key == 'STR':
            return t.sval(v)
        if dom.key == 'INT':
            return t.ival(v)
        if dom.key == 'BOOL':
            return t.bval(v)
        return v
    if isinstance(dom, vlib.Tup):
        return SSeq('tuple', [elem(ip, d, root, i, '%s.%d' % (slot, k)) for k, d in enumerate(dom.elems)])
    if isinstance(dom, vlib.Seq):
        r = mk('sub', 'Q', root, slot, i)
        return SSeq(dom.kind, (seqs.base_seg(r, lambda j: elem(ip, dom.elem, r, j)),))
    if isinstance(dom, vlib.Map):
        r = mk('sub', 'Q', root, slot, i)
        note_keys(ip, dom, r)
        return SDict('dict', (seqs.base_seg(r, lambda j: (elem(ip, dom.keys or vlib.STR, r, j, 'k'), elem(ip, dom.elem, r, j, 'v'))),))
    if isinstance(dom, vlib.Choice):
        raise Unsupported('choice inside a sequence')
    raise TypeError(dom)


# ---------------------------------------------------------------- backend cells
BACKEND_NAMES = ('sql', 'mysql', 'postgresql', 'sqlite')


def backend_cells():
    """Module globals (or class attributes) of the package that configure() changes."""
    sp = vlib.sqlpuzzle

    def snap():
        out = {}
        for mn, m in sorted(sys.modules.items()):
            if mn == 'sqlpuzzle' or mn.startswith('sqlpuzzle.'):
                if m is None:
                    continue
                for k, v in list(m.__dict__.items()):
                    out[(id(m.__dict__), k)] = v
                    if isinstance(v, type) and v.__module__.startswith('sqlpuzzle'):
                        for k2, v2 in list(v.__dict__.items()):
                            out[('c', id(v), k2)] = v2
        return out
    snaps = {}
    for n in BACKEND_NAMES:
        sp.configure(n)
        snaps[n] = snap()
    sp.configure('sql')
    cells = {}
    for key in snaps['sql']:
        vals = [snaps[n].get(key, MISSING) for n in BACKEND_NAMES]
        if any(v is not vals[0] for v in vals):
            cells[key] = dict(zip(BACKEND_NAMES, vals))
    return cells


class Run:
    """One symbolic run of one harness."""

    def __init__(self, h, rlimit=400000, budget=None, inline=()):
        self.h = h
        self.e = Engine(rlimit=rlimit, deadline=time.process_time() + budget if budget else None)
        self.ip = interp.Interp(self.e)
        self.oblig = []
        self.inline = set(inline)
        self.nocontracts = False
        self.cells = backend_cells()
        self.lazy = bool(self.cells) and all(k[0] != 'c' for k in self.cells)
        self.e.hooks['global'] = self.global_hook
        self.backend = {}
        self.install()

    # ------------------------------------------------ backend
    def global_hook(self, globs, name):
        c = self.cells.get((id(globs), name))
        if c is None:
            return MISSING
        return c[self.which_backend()]

    def which_backend(self):
        b = self.backend.get('b')
        if b is None:
            b = self.e.fork(BACKEND_NAMES)
            self.e.set_item(self.backend, 'b', b)
            self.e.set_item(self.e.facts, ('backend', b), True)
        return b

    def bkey(self):
        """Identity of the backend in force, for opaque renderings."""
        for key in self.cells:
            ov = self.e.cls_overlay.get(key, MISSING)
            if ov is not MISSING:
                for n, v in self.cells[key].items():
                    if v is ov:
                        return n
                raise Unsupported('unknown backend in force')
        return self.backend.get('b0', 'cur')

    # ------------------------------------------------ contracts
    def install(self):
        c = self.ip.contracts
        c[vlib.check] = self.c_check
        c[vlib.fresh_state] = lambda ip, a, k: None
        c[vlib.some_composition] = lambda ip, a, k: SObj(vlib.AnyCondition, {'_text': a[0]})
        c[vlib.check_eq] = self.c_check_eq
        c[vlib.assume] = self.c_assume
        c[vlib.unreachable] = self.c_unreachable
        c[vlib.VAL] = self.c_VAL
        c[vlib.REF] = self.c_REF
        c[vlib.current_backend] = lambda ip, a, k: self.c_current()
        c[vlib.configure] = self.c_configure
        c[vlib.lemma_same] = self.c_lemma_same
        c[vlib.closes_only_at_end] = self.c_closes
        c[vlib.decoded] = self.c_decoded
        c[vlib.is_reference_form] = self.c_reference_form
        c[vlib.refname] = lambda ip, a, k: self.render(ip, a[0], 'REF', True)
        c[vlib.is_ref_text] = self.c_is_ref_text
        self.depth = 0
        from sqlpuzzle._common import sqlvalue
        V = getattr(sqlvalue, 'SqlValue', None)
        R = getattr(sqlvalue, 'SqlReference', None)
        self.V, self.R = V, R
        if V is not None and isinstance(V.__dict__.get('__str__'), types.FunctionType) and 'SqlValue' not in self.inline:
            c[V.__str__] = self.c_sqlvalue_str
        from sqlpuzzle._backends.sql import SqlBackend
        if 'reference' not in self.inline:
            f = SqlBackend.__dict__.get('reference')
            if isinstance(f, classmethod):
                c[f.__func__] = self.c_reference
        if 'is_reference' not in self.inline:
            f = SqlBackend.__dict__.get('is_reference')
            if isinstance(f, classmethod):
                c[f.__func__] = self.c_is_reference

    def c_is_ref_text(self, ip, args, kw):
        if 'is_reference' not in self.inline:
            return mk('ISREF', 'B', self.bkey(), args[0])
        # definition of the predicate, as a regular expression
        from . import regex
        q = vlib.QUOTES[self.c_current()]
        ident = q + '(?:[^%s]|%s)+' % (q, q + q) + q
        s = models.str_method(ip, ip.res(args[0]), 'strip', [], {})
        if isinstance(s, str):
            return vlib.is_ref_text(s)
        return mk('inre', 'B', s, regex.register(ident + r'(?:\.(?:%s|[^%s. ]+)){0,2}$' % (ident, q), 0, 'match'))

    def c_closes(self, ip, args, kw):
        text, bs = ip.res(args[0]), ip.res(args[1])
        if isinstance(text, str):
            return vlib.closes_only_at_end(text, bs)
        if automata.accepts(automata.literal_automaton(bs), seqs.expand_joins(ip, text)):
            return True
        return mk('inlex', 'B', 'literal%d' % bs, text)

    def c_decoded(self, ip, args, kw):
        text = ip.res(args[0])
        if isinstance(text, str):
            return vlib.decoded(text)
        return automata.decode(text, vlib.decoded)

    def c_reference_form(self, ip, args, kw):
        text, q = ip.res(args[0]), ip.res(args[1])
        if isinstance(text, str):
            return vlib.is_reference_form(text, q)
        if automata.accepts(automata.reference_automaton(q), seqs.expand_joins(ip, text)):
            return True
        return mk('inlex', 'B', 'reference' + q, text)

    def c_current(self):
        for key in self.cells:
            ov = self.e.cls_overlay.get(key, MISSING)
            if ov is not MISSING:
                for n, v in self.cells[key].items():
                    if v is ov:
                        return n
        return self.which_backend()

    def c_configure(self, ip, args, kw):
        return ip.call(vlib.sqlpuzzle.configure, args, kw)

    # renderings -----------------------------------------------------------
    SEQ = frozenset(('list', 'tuple', 'set', 'frozenset', 'range', 'gen'))

    def render(self, ip, v, op, spec):
        """Text of a value (op VAL) or reference (op REF) position."""
        e = ip.e
        v = ip.res(v)
        if isinstance(v, T) and v.sort == 'V':
            seqtags = e.dom(v) & self.SEQ
            if op == 'VAL' and seqtags:
                if e.test_tag(v, seqtags):
                    return self.render(ip, ip.force(v), op, spec)
                v = ip.res(v)
        if isinstance(v, T):
            if v.sort == 'V':
                return mk(op, 'S', self.bkey(), v)
            if v.sort == 'I':
                return t.i2s(v)
            if v.sort == 'B':
                if op == 'REF':
                    return mk(op, 'S', self.bkey(), t.vbool(v))
                return mk(op, 'S', self.bkey(), t.vbool(v))
            return mk(op, 'S', self.bkey(), t.vstr(v))
        if v is None:
            return 'NULL' if op == 'VAL' else mk(op, 'S', self.bkey(), t.vnone())
        if isinstance(v, bool):
            return mk(op, 'S', self.bkey(), t.vbool(v))
        if isinstance(v, int):
            return str(v)
        if isinstance(v, str):
            if op == 'REF' and v == '*':
                return '*'
            return mk(op, 'S', self.bkey(), t.vstr(v))
        if isinstance(v, models.SOpaque):
            return mk(op, 'S', self.bkey(), v.term)
        v = ip.real_view(v)
        if isinstance(v, (SSeq, list, tuple)) and op == 'VAL':
            if not ip.truth(SSeq('list', models.entries_of(v))):
                if spec:
                    ip.throw(vlib.Invalid)
                from sqlpuzzle.exceptions import InvalidArgumentException
                ip.throw(InvalidArgumentException, 'Empty list is not allowed.')
            ents = seqs.norm(ip, models.entries_of(v))
            body = seqs.join(ip, ', ', seqs.map_entries(ip, ents, lambda x: self.render(ip, x, op, spec)), lambda s: s)
            return t.cat('(', body, ')')
        if isinstance(v, SObj):
            if issubclass(v.cls, (vlib.Select, vlib.Union)):
                return t.cat('(', models.to_str(ip, v), ')')
            if ip.hasattr(v, 'tosql'):
                return ip.call(ip.getattr(v, 'tosql'), [], {})
            return mk(op, 'S', self.bkey(), v.term) if v.term is not None else NotImplemented
        if isinstance(v, SDict):
            return mk(op, 'S', self.bkey(), v.term) if v.term is not None else NotImplemented
        return NotImplemented

    def c_VAL(self, ip, args, kw):
        return self.render(ip, args[0], 'VAL', True)

    def c_REF(self, ip, args, kw):
        return self.render(ip, args[0], 'REF', True)

    def c_sqlvalue_str(self, ip, args, kw):
        o = args[0]
        if not isinstance(o, SObj) or 'value' not in o.attrs:
            return NotImplemented
        if o.cls is self.V:
            op = 'VAL'
        elif o.cls is self.R:
            op = 'REF'
        else:
            return NotImplemented
        if self.depth < 1 and 'SqlValue.outer' in self.inline:
            self.depth += 1
            try:
                return ip.call_function(self.V.__str__, args, kw)
            finally:
                self.depth -= 1
        ip.by_contract.add('sqlpuzzle._common.sqlvalue:SqlValue.__str__')
        return self.render(ip, o.attrs['value'], op, False)

    def c_reference(self, ip, args, kw):
        cls, v = args[0], ip.res(args[1])
        if not self.is_current(cls) or self.depth == 0 and 'reference.outer' in self.inline:
            return NotImplemented
        if isinstance(v, str) or isinstance(v, T) and v.sort == 'S':
            ip.by_contract.add('sqlpuzzle._backends.sql:SqlBackend.reference')
            if v == '*':
                return '*'
            return mk('REF', 'S', self.bkey(), t.vstr(v))
        return NotImplemented

    def c_is_reference(self, ip, args, kw):
        cls, v = args[0], ip.res(args[1])
        if not self.is_current(cls):
            return NotImplemented
        if isinstance(v, str) or isinstance(v, T) and v.sort == 'S':
            ip.by_contract.add('sqlpuzzle._backends.sql:SqlBackend.is_reference')
            return mk('ISREF', 'B', self.bkey(), v)
        return NotImplemented

    def is_current(self, cls):
        for key, vals in self.cells.items():
            ov = self.e.cls_overlay.get(key, MISSING)
            if ov is not MISSING:
                return ov is cls
            b = self.backend.get('b')
            if b is not None:
                return vals[b] is cls
        return False

    # statements -----------------------------------------------------------
    def record(self, label, status, model=None, detail=''):
        self.oblig.append({'label': label, 'status': status, 'detail': detail,
                           'facts': len(self.e.fact_list), 'model': model,
                           'backend': self.backend.get('b')})

    def c_check(self, ip, args, kw):
        cond, label = args[0], args[1]
        c = ip.res(cond)
        if isinstance(c, T) and c.sort == 'B':
            st, m = self.e.prove(c)
        elif isinstance(c, SMatch):
            st, m = self.e.prove(c.cond)
        else:
            tv = ip.truth(c)
            st, m = ('proved', None) if tv else self.refute()
        self.finish(ip, label, st, m, c)

    def refute(self):
        return self.e.prove(False)

    def finish(self, ip, label, st, m, what):
        detail = ''
        if st != 'proved':
            detail = 'goal: %s\nunder: %s' % (what, '; '.join(str(f) for f in self.e.fact_list))
            cm = self.extract(m) if m is not None else None
        else:
            cm = None
        self.record(label, st, cm, detail)

    def c_check_eq(self, ip, args, kw):
        a, b, label = args
        a, b = ip.res(a), ip.res(b)
        if isinstance(a, T) and a.sort == 'V' or isinstance(b, T) and b.sort == 'V':
            a, b = ip.force(a), ip.force(b)
        ta, tb = ip.type_of(a), ip.type_of(b)
        if ta is not tb:
            st, m = self.refute()
        else:
            c = models.py_eq(ip, a, b)
            if isinstance(c, bool):
                st, m = ('proved', None) if c else self.refute()
            else:
                st, m = self.e.prove(c)
        self.finish(ip, label, st, m, '%s  ==  %s' % (a, b))

    def c_assume(self, ip, args, kw):
        c = ip.res(args[0])
        if isinstance(c, T) and c.sort == 'B':
            self.e.assume(c)
        elif not ip.truth(c):
            raise PathAbort()

    def c_unreachable(self, ip, args, kw):
        st, m = self.refute()
        self.finish(ip, args[0], st, m, 'unreachable')
        raise PathAbort()

    def c_lemma_same(self, ip, args, kw):
        from . import state
        r = state.same(ip, args[0], args[1])
        st = 'proved' if r is True or r is not False and self.e.valid(r) else 'unknown'
        self.finish(ip, args[2], st, None, 'same state')

    def extract(self, m):
        try:
            return {'z3': str(m)[:4000]}
        except Exception:   # pylint: disable=broad-except
            return None

    # ------------------------------------------------ driver
    def thunk(self):
        ip = self.ip
        n0 = len(self.oblig)
        b = self.h.opts.get('backend')
        args = []
        for name, dom in self.h.sym_params.items():
            if name == 'return':
                continue
            args.append(sym(ip, dom, name))
        try:
            ip.call_function(self.h.fn, args, {})
        except PyRaise as ex:
            if ex.exc.cls is vlib.Skip:
                raise PathAbort()
            st, m = self.refute()
            if st != 'proved':
                self.finish(ip, 'no-exception', st, m, 'raises %s%s' % (ex.exc.cls.__name__, describe(ex.exc)))
        if len(self.oblig) == n0:
            self.record('path-without-check', 'empty')
        return len(self.oblig) - n0

    def run(self):
        t0 = time.time()
        res = {'harness': self.h.name, 'error': None}
        try:
            outs = self.e.explore(self.thunk, max_paths=self.h.opts.get('max_paths', 6000))
            res['paths'] = len(outs)
        except Unsupported as ex:
            res['error'] = 'unsupported: %s' % ex
            res['trace'] = traceback.format_exc()
        except Budget as ex:
            res['error'] = 'budget: %s' % ex
        except RecursionError as ex:
            res['error'] = 'unsupported: recursion'
            res['trace'] = traceback.format_exc()
        except (PyRaise, AssertionError, KeyError, TypeError, AttributeError, IndexError, ValueError, NotImplementedError) as ex:
            res['error'] = 'internal: %r %s' % (ex, ex)
            res['trace'] = traceback.format_exc()
        res['oblig'] = self.oblig
        res['time'] = time.time() - t0
        res['solver_time'] = self.e.stats.solver_time
        res['solver_calls'] = self.e.stats.solver_calls
        res['called'] = sorted(self.ip.called)
        res['by_contract'] = sorted(self.ip.by_contract)
        return res


def describe(exc):
    a = exc.attrs.get('args') or exc.attrs.get('message')
    return ' %s' % (a,)


def main(argv):
    import contracts
    contracts.load()
    names = argv or sorted(vlib.HARNESSES)
    for n in names:
        h = vlib.HARNESSES[n]
        r = Run(h, budget=h.opts.get('budget', 120), inline=h.opts.get('inline', ())).run()
        bad = [o for o in r['oblig'] if o['status'] not in ('proved',)]
        print('%-40s paths=%s oblig=%d bad=%d %.1fs (solver %.1fs, %d calls) %s' % (
            n, r.get('paths'), len(r['oblig']), len(bad), r['time'], r['solver_time'], r['solver_calls'], r['error'] or ''))
        if r.get('trace') and '-v' not in argv:
            print(r['trace'][-2500:])
        for o in bad[:3]:
            print('   ', o['label'], o['status'], o['detail'][:1500])


if __name__ == '__main__':
    main(sys.argv[1:])
