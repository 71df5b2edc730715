"""P12: the Python text of every expression and function means what the IR means."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import env
from mc.env import Res, quiet

from metalift import ir  # noqa: E402
from mc import emit, exprs as X  # noqa: E402
from mc.irsem import Sem, Tup, Undef, div_agree, mod_agree  # noqa: E402

SKIP = {"nopy"}
SEM = dict(div=div_agree, mod=mod_agree, leftright=True)


def py(v):
    """A value as the Python programs see it."""
    if isinstance(v, Tup):
        return tuple(py(x) for x in v)
    if isinstance(v, tuple):
        return [py(x) for x in v]
    return v


def same(a, b):
    if type(a) != type(b):
        return False
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a == b


def ml(v):
    if isinstance(v, tuple):
        return Tup(ml(x) for x in v)
    if isinstance(v, list):
        return tuple(ml(x) for x in v)
    return v


def lift(f):
    return lambda *a: py(f(*[ml(x) for x in a]))


GLOBALS = {n: lift(f) for n, f in emit.REFERENCE.items()}


def compare(r, key, f, it, text):
    for row, want in it.reference(**SEM):
        r.add("transitions")
        want = py(want)
        try:
            got = f({n: py(v) for n, v in row.items()})
        except Exception as x:
            got = f"an error: {type(x).__name__}: {x}"
        if not same(got, want):
            r.bad(key, f"{text} with {row} is {got}, the expression means {want}")
            return
        r.outcome(str(want)[:20])


def run_expr(chunk):
    r = Res()
    for x in chunk:
        it = emit.item(x, r)
        if it is None:
            continue
        r.add("states")
        k = emit.key_of(x)
        try:
            with quiet():
                text = it.e.to_python()
        except Exception as ex:
            r.bad(f"emit:{k}", f"{type(ex).__name__}: {ex} from to_python of {it.e}")
            continue
        try:
            code = compile(text, "emitted", "eval")
        except SyntaxError as ex:
            r.bad(f"read:{k}", f"{ex}: {text}")
            continue
        compare(r, f"value:{k}", lambda row: eval(code, dict(GLOBALS, **row)), it, text)
    return r


PYTYPE = {"int": "int", "bool": "bool", "list": "list[int]", "matrix": "list[list[int]]"}


def fn_params(names):
    return [ir.Var(n, emit.X_type(n)) for n in names]


def run_fn(chunk):
    import typing

    r = Res()
    for x in chunk:
        it = emit.item(x, r)
        if it is None or any(emit.KIND[n] not in PYTYPE for n in it.names) or kind(it.e.type) not in PYTYPE:
            continue
        k = emit.key_of(x)
        for cls in (ir.FnDecl, ir.FnDeclRecursive):
            r.add("states")
            try:
                with quiet():
                    text = cls("defined", it.e.type, it.e, *fn_params(it.names)).to_python()
            except Exception as ex:
                r.bad(f"emit:{cls.__name__}:{k}", f"{type(ex).__name__}: {ex} from to_python of {cls.__name__} of {it.e}")
                continue
            ns = dict(GLOBALS, List=typing.List)
            try:
                exec(compile(text, "emitted", "exec"), ns)
                hints = typing.get_type_hints(ns["defined"], ns)
                f = ns["defined"]
            except Exception as ex:
                r.bad(f"read:{cls.__name__}:{k}", f"{type(ex).__name__}: {ex}: {text}")
                continue
            want = dict({n: emit.KIND[n] for n in it.names}, **{"return": kind(it.e.type)})
            if {n: hint(h) for n, h in hints.items()} != {n: PYTYPE[v] for n, v in want.items()}:
                r.bad(f"types:{cls.__name__}:{k}", f"{text} is annotated {hints}, expected {want}")
                continue
            compare(r, f"value:{cls.__name__}:{k}", lambda row: f(*[row[n] for n in it.names]), it, text)
    return r


def hint(h):
    import typing

    if h in (int, bool):
        return h.__name__
    return "list[" + hint(typing.get_args(h)[0]) + "]"


def kind(t):
    from mc.irsem import type_kind

    k = type_kind(t)
    return "tensor" if k == "tensor3d" else k


def run_wide(w):
    o, e, names, rows = w
    r = Res()
    ref = Sem(emit.REFERENCE, **SEM).compile(e)
    with quiet():
        text = e.to_python()
    code = compile(text, "emitted", "eval")
    r.add("states")
    for row in rows:
        try:
            want = py(ref(row))
        except Undef:
            continue
        r.add("transitions")
        try:
            got = eval(code, dict(GLOBALS, **{n: py(v) for n, v in row.items()}))
        except Exception as x:
            got = f"an error: {type(x).__name__}: {x}"
        if not same(got, want):
            r.bad(f"wide:{o.name}", f"{text} with {row} is {got}, the expression means {want}")
            break
    return r


def run_names(names):
    import builtins
    import typing

    r = Res()
    for n in names:
        if hasattr(builtins, n):
            continue
        for res, args, e in [c[1:] for c in emit.family_calls([n])]:
            f = emit.stand_in(res)
            r.add("states")
            with quiet():
                text = e.to_python()
            try:
                code = compile(text, "emitted", "eval")
            except SyntaxError as ex:
                r.bad(f"names:{n}", f"{ex}: {text}")
                continue
            compare(r, f"names:{n}", lambda row: eval(code, dict(GLOBALS, **{n: lift(f)}, **row)), emit.Plain(e, {n: f}), text)
        d, e, f = emit.recursive(n)
        r.add("states")
        with quiet():
            text = d.to_python()
        ns = dict(GLOBALS, List=typing.List)
        try:
            exec(compile(text, "emitted", "exec"), ns)
            code = compile(e.to_python(), "emitted", "eval")
        except Exception as ex:
            r.bad(f"names:{n}", f"{type(ex).__name__}: {ex}: {text}")
            continue
        compare(r, f"names:{n}", lambda row: eval(code, dict(ns, **row)), emit.Plain(e, {n: f}), text)
    return r


def body(chk):
    size = 6 if chk.tier == "thorough" else 5
    chk.pmap(run_expr, env.chunks(emit.items(size, SKIP), 500))
    chk.pmap(run_fn, env.chunks(emit.items(size - 2, SKIP), 200))
    chk.pmap(run_wide, emit.wide_calls(SKIP))
    chk.pmap(run_names, env.chunks(emit.family(), 12))
    chk.assume(
        "the operations to_python translates (no sets, Let, Implies, concatenation, transpose or column slices)",
        "domain where every backend agrees: indices and slice bounds inside the sequence, division and modulo of non-negative "
        "by positive numbers; function definitions over integers, booleans, lists and matrices")
    chk.finish(rule=f"every typed expression of at most {size} nodes over the operations with a Python form, evaluated by Python")


if __name__ == "__main__":
    env.main("P12", body)
