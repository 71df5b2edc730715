"""Driving the Python frontend: batches of programs through the real analysis.

parse() of the frontend runs mypy once per function.  To explore thousands of programs, one
mypy build is run over a whole batch of modules and `mypy.build.build` is replaced by a
stand-in that hands the frontend the module it asked for: the tree and the type map mypy
computed for that module.  conformance() compares the stand-in with the real call.
"""
import os

import mypy.build as mb
from mypy.modulefinder import BuildSource
from mypy.options import Options

_real_build = mb.build
_cache = {}
_types = {}
_base = {}


def _nodes(tree):
    """Every expression node of a module."""
    from mypy.traverser import ExtendedTraverserVisitor
    from mypy.nodes import Expression

    out = []

    class V(ExtendedTraverserVisitor):
        def visit(self, o):
            if isinstance(o, Expression):
                out.append(o)
            return True

    tree.accept(V())
    return out


class _Result:
    def __init__(self, graph, types, errors):
        self.graph, self.types, self.errors = graph, types, errors
        self.manager = None
        self.files = {}
        self.used_cache = False


def _standin(sources, options, *a, **k):
    src = sources[0]
    key = os.path.realpath(src.path) if src.path else None
    if len(sources) == 1 and key in _cache:
        st = _cache[key]
        return _Result({src.module: st}, {**_base, **_types[key]}, [])
    return _real_build(sources, options, *a, **k)


mb.build = _standin  # before the frontend is imported


def real_build(on):
    mb.build = _real_build if on else _standin
    import metalift.frontend.python as fp

    if getattr(fp, "build", None) is not mb:
        fp.build = mb.build if callable(getattr(fp, "build", None)) and not hasattr(fp.build, "build") else fp.build


def preload(paths):
    """One mypy build over all of paths; later parse() calls are answered from it."""
    o = Options()
    o.incremental = False
    o.cache_dir = os.devnull
    o.show_traceback = True
    o.preserve_asts = True
    o.export_types = True
    _cache.clear()
    srcs = [BuildSource(p, f"vm_{i}", None) for i, p in enumerate(paths)]
    r = _real_build(sources=srcs, options=o)
    from mypy.nodes import NameExpr

    own = set()
    _types.clear()
    _base.clear()
    for s in srcs:
        key = os.path.realpath(s.path)
        st = r.graph[s.module]
        _cache[key] = st
        t = _types[key] = {}
        for n in _nodes(st.tree):
            own.add(id(n))
            if n in r.types:
                t[n] = r.types[n]
    for n, ty in r.types.items():
        if isinstance(n, NameExpr) and id(n) not in own:
            _base[n] = ty
    return r


def no_grammar(*a):
    raise AssertionError("grammar is not needed")


def analyze(path, name, uninterp=()):
    """(driver, MetaliftFunc) for function `name` of file `path`."""
    from metalift.frontend.python import Driver

    d = Driver()
    d.uninterp_fns = list(uninterp)
    f = d.analyze(path, name, lambda: [], no_grammar, no_grammar, uninterp_fns=list(uninterp))
    return d, f


def objects(params):
    """IR objects for [(name, kind)] with kind in int, bool, list, set."""
    from metalift import ir

    mk = {
        "int": lambda n: ir.Int(n),
        "bool": lambda n: ir.Bool(n),
        "list": lambda n: ir.List(ir.Int, n),
        "set": lambda n: ir.Set(ir.Int, n),
    }
    return [mk[k](n) for n, k in params]
