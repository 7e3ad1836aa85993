"""Python regular expressions -> SMT regular expressions (subset), and models of the re module."""
import re
import sre_constants as sc
import sre_parse
import z3

_named = {}


def get(name):
    return _named[name]


class NoTranslation(Exception):
    pass


ALL = None


def allchar():
    return z3.AllChar(z3.ReSort(z3.StringSort()))


def ch(c):
    from .terms import zstr
    return z3.Re(zstr(chr(c)))


def charset(items):
    """-> (re, negated)"""
    neg = False
    alts = []
    for op, av in items:
        if op is sc.NEGATE:
            neg = True
        elif op is sc.LITERAL:
            alts.append(ch(av))
        elif op is sc.RANGE:
            from .terms import zstr
            alts.append(z3.Range(zstr(chr(av[0])), zstr(chr(av[1]))))
        else:
            raise NoTranslation(str(op))
    r = alts[0] if len(alts) == 1 else z3.Union(*alts)
    if neg:
        return z3.Intersect(allchar(), z3.Complement(r))
    return r


def seq(rs):
    if not rs:
        from .terms import zstr
        return z3.Re(zstr(''))
    return rs[0] if len(rs) == 1 else z3.Concat(*rs)


def conv(tree, dotall=False):
    out = []
    for op, av in tree:
        if op is sc.LITERAL:
            out.append(ch(av))
        elif op is sc.NOT_LITERAL:
            out.append(z3.Intersect(allchar(), z3.Complement(ch(av))))
        elif op is sc.IN:
            out.append(charset(av))
        elif op is sc.ANY:
            out.append(allchar() if dotall else z3.Intersect(allchar(), z3.Complement(ch(10))))
        elif op is sc.SUBPATTERN:
            out.append(conv(av[3], dotall))
        elif op is sc.BRANCH:
            out.append(z3.Union(*[conv(b, dotall) for b in av[1]]))
        elif op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
            lo, hi, sub = av
            r = conv(sub, dotall)
            if hi == sc.MAXREPEAT:
                out.append(z3.Star(r) if lo == 0 else z3.Plus(r) if lo == 1 else z3.Concat(z3.Loop(r, lo, lo), z3.Star(r)))
            else:
                out.append(z3.Loop(r, lo, hi) if hi > 0 else seq([]))
        else:
            raise NoTranslation(str(op))
    return seq(out)


def translate(pattern, flags=0, mode='match'):
    """SMT regex of the strings s for which re.<mode>(pattern, s) matches."""
    tree = list(sre_parse.parse(pattern, flags))
    start = end = None
    if tree and tree[0][0] is sc.AT and tree[0][1] in (sc.AT_BEGINNING, sc.AT_BEGINNING_STRING):
        tree = tree[1:]
        start = True
    tail_nl = False
    if tree and tree[-1][0] is sc.AT and tree[-1][1] in (sc.AT_END, sc.AT_END_STRING):
        tail_nl = tree[-1][1] is sc.AT_END
        tree = tree[:-1]
        end = True
    if any(op is sc.AT for op, _ in tree):
        raise NoTranslation('anchor')
    r = conv(tree, bool(flags & re.S))
    any_ = z3.Star(allchar())
    if mode == 'search' and not start:
        r = z3.Concat(any_, r)
    if mode == 'fullmatch':
        return r
    if end:
        if tail_nl:
            r = z3.Concat(r, z3.Option(ch(10)))
    else:
        r = z3.Concat(r, any_)
    return r


def register(pattern, flags, mode):
    name = '%s:%d:%s' % (mode, flags, pattern)
    if name not in _named:
        _named[name] = translate(pattern, flags, mode)
    return name


def separators(pattern, flags=0):
    """(separator, number of groups, [characters one of which every other match contains]) of a pattern which is one
    character or other alternatives; None if it is something else."""
    if flags:
        return None
    tree = sre_parse.parse(pattern, flags)
    groups = tree.state.groups - 1
    tree = list(tree)
    if len(tree) == 1 and tree[0][0] is sc.BRANCH:
        alternatives = [list(x) for x in tree[0][1][1]]
    else:
        alternatives = [tree]
    sep, needs = None, []
    for a in alternatives:
        if len(a) == 1 and a[0][0] is sc.LITERAL:
            if sep is not None:
                return None
            sep = chr(a[0][1])
            continue
        literals = [chr(v) for op, v in a if op is sc.LITERAL]
        if not literals:
            return None
        needs.append(literals)
    return None if sep is None else (sep, groups, needs)
