"""Lexer predicates over symbolic strings, decided by running a finite automaton over the structure of the term.

`run` computes an over-approximation of the automaton states reachable after a symbolic string: a
homomorphic image of an unknown string is a loop whose invariant is the least fixed point of state sets
over the images of all characters (the characters the automaton distinguishes, the ones the homomorphism
changes, and one representative of all others); a join over a sequence of any length is a loop over its
element.
"""
from . import terms as t
from .terms import T
from .values import Unsupported

OTHER = '\U0001d7d8'   # representative of the characters nobody distinguishes


class Automaton:
    def __init__(self, start, accept, critical, step):
        self.start, self.accept, self.critical, self.step = start, frozenset(accept), critical, step


def literal_automaton(backslash):
    """One single-quoted literal and nothing else."""
    def step(q, c):
        if q == 'start':
            return 'in' if c == "'" else 'dead'
        if q == 'in':
            if backslash and c == '\\':
                return 'esc'
            return 'quote' if c == "'" else 'in'
        if q == 'esc':
            return 'in'
        if q == 'quote':
            return 'in' if c == "'" else 'dead'
        return 'dead'
    return Automaton('start', ('quote',), "'\\", step)


def reference_automaton(quote):
    """Dotted sequence, maybe empty, of * and quoted identifiers."""
    def step(q, c):
        if q in ('start', 'dot'):
            return 'star' if c == '*' else 'in' if c == quote else 'dead'
        if q == 'in':
            return 'quote' if c == quote else 'in'
        if q == 'quote':
            return 'in' if c == quote else 'dot' if c == '.' else 'dead'
        if q == 'star':
            return 'dot' if c == '.' else 'dead'
        return 'dead'
    return Automaton('start', ('start', 'quote', 'star'), quote + '.*', step)


def step_lit(a, qs, lit):
    for c in lit:
        qs = {a.step(q, c) for q in qs}
    return qs


def images(a, table):
    d = dict(table)
    out = {d.get(c, c) for c in a.critical}
    out |= set(d.values())
    out.add(OTHER)
    return out


def fix(a, qs, imgs):
    qs = set(qs)
    todo = list(qs)
    while todo:
        q = todo.pop()
        for im in imgs:
            for p in step_lit(a, {q}, im):
                if p not in qs:
                    qs.add(p)
                    todo.append(p)
    return qs


def known_literal(g, v):
    """v is a fixed string under guard g."""
    if not isinstance(g, T):
        return None
    for c in (g.args if g.op == 'and' else (g,)):
        if isinstance(c, T) and c.op == 'eq' and c.args[0] is v and isinstance(c.args[1], str):
            return c.args[1]
        if isinstance(c, T) and c.op == 'eq' and c.args[1] is v and isinstance(c.args[0], str):
            return c.args[0]
    return None


def run(a, s, qs, exclude=''):
    for p in t.parts(s):
        if isinstance(p, str):
            qs = step_lit(a, qs, p)
        elif p.op == 'hom':
            qs = fix(a, qs, images(a, p.args[0]))
        elif p.op in ('join', 'jpre', 'jsuf'):
            sep, _, tm = p.args
            pairs = [(tm.args[i], tm.args[i + 1]) for i in range(1, len(tm.args), 2)]
            vals = []
            for g, v in pairs:
                if isinstance(v, str) and v == '%SKIP':
                    continue
                lit = known_literal(g, v) if isinstance(v, T) else None
                vals.append(lit if lit is not None else v)

            def elem(states):
                out = set()
                for v in vals:
                    out |= run(a, v, states)
                return out

            if p.op == 'jsuf':
                body = lambda states: elem(run(a, sep, states))
                cur = set(qs)
            elif p.op == 'jpre':
                body = lambda states: run(a, sep, elem(states))
                cur = set(qs)
            else:
                body = lambda states: elem(run(a, sep, states))
                cur = elem(qs)
            while True:
                new = cur | body(cur)
                if new == cur:
                    break
                cur = new
            qs = cur | (set(qs) if p.op == 'join' else set())
        else:
            qs = fix(a, qs, images(a, ()))
    return qs


def accepts(a, s):
    """True if every string the term can stand for is accepted."""
    return run(a, s, {a.start}) <= a.accept


def decode(s, decoded):
    """Decoded content of a literal term, or Unsupported."""
    ps = list(t.parts(s))
    if len(ps) < 2 or not (isinstance(ps[0], str) and isinstance(ps[-1], str) and ps[0][:1] == "'" and ps[-1][-1:] == "'"):
        raise Unsupported('decoding of this text')
    a = literal_automaton(True)
    ps[0], ps[-1] = ps[0][1:], ps[-1][:-1]
    out = []
    for p in ps:
        if isinstance(p, str):
            if step_lit(a, {'in'}, p) != {'in'}:
                raise Unsupported('decoding of this text')
            out.append(decoded("'" + p + "'"))
        elif p.op == 'hom':
            d = dict(p.args[0])
            for c in set(d) | set(a.critical) | {OTHER}:
                im = d.get(c, c)
                if step_lit(a, {'in'}, im) != {'in'} or decoded("'" + im + "'") != c:
                    raise Unsupported('decoding of this text')
            out.append(p.args[1])
        else:
            raise Unsupported('decoding of this text')
    return t.cat(*out)
