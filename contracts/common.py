"""Spec functions shared by the contracts."""
from vlib import *  # noqa


def default_operator(value):
    """Operator of a bare (scalar or SQL) condition value."""
    return 'IS' if value is None else '='


def cond_text(col, value):
    """Text of the condition (col, value) for a bare value that is not a sequence."""
    return REF(col) + ' ' + default_operator(value) + ' ' + VAL(value)


def rejects(exc, f, *args, **kwds):
    """f(*args) raises exc."""
    try:
        f(*args, **kwds)
    except exc:
        return True
    return False


def is_int(x):
    return isinstance(x, int) and not isinstance(x, bool)
