"""The code under verification: the real package, imported from the current tree, and its ASTs."""
import ast
import importlib
import os
import sys

REPO = os.environ.get('VERIF_REPO', '/repo')


def import_repo():
    sys.dont_write_bytecode = True
    sys.pycache_prefix = '/nonexistent-pycache'
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    import warnings
    warnings.simplefilter('ignore')
    mod = importlib.import_module('sqlpuzzle')
    if not os.path.abspath(mod.__file__).startswith(os.path.abspath(REPO) + os.sep):
        raise SystemExit('sqlpuzzle imported from %s, not from %s' % (mod.__file__, REPO))
    return mod


_files = {}


def _index(filename):
    idx = _files.get(filename)
    if idx is None:
        with open(filename, encoding='utf-8') as f:
            src = f.read()
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            tree = ast.parse(src, filename)
        idx = {}
        for node in ast.walk(tree):
            if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef)):
                line = min([node.lineno] + [d.lineno for d in node.decorator_list])
                idx.setdefault((line, node.name), []).append(node)
                idx.setdefault((node.lineno, node.name), []).append(node)
            elif isinstance(node, ast.Lambda):
                idx.setdefault((node.lineno, '<lambda>'), []).append(node)
        _files[filename] = idx
    return idx


def node_of(func):
    """AST of a real function object, or None."""
    code = getattr(func, '__code__', None)
    if code is None:
        return None
    try:
        cands = _index(code.co_filename).get((code.co_firstlineno, code.co_name), [])
    except OSError:
        return None
    uniq = []
    for c in cands:
        if c not in uniq:
            uniq.append(c)
    if len(uniq) > 1:
        names = code.co_varnames[:code.co_argcount]
        uniq = [c for c in uniq if tuple(a.arg for a in c.args.posonlyargs + c.args.args) == names]
        if len(uniq) > 1 and hasattr(code, 'co_positions'):
            cols = [p for p in code.co_positions() if p[0] is not None]
            span = (min((p[0], p[2]) for p in cols if p[2] is not None))
            uniq = [c for c in uniq if (c.body.lineno, c.body.col_offset) <= span <= (c.end_lineno, c.end_col_offset)][:1]
    return uniq[0] if uniq else None


def in_package(func):
    code = getattr(func, '__code__', None)
    return code is not None and os.path.abspath(code.co_filename).startswith(os.path.abspath(REPO) + os.sep)
