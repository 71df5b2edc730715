"""P11: the Rosette text of every expression and function means what the IR means, on the shipped runtime."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import env
from mc.env import Res, quiet

from metalift import ir  # noqa: E402
from mc import emit, exprs as X  # noqa: E402
from mc.irsem import Sem, Undef, div_agree, mod_agree  # noqa: E402
from mc.rkt import RktError, load_runtime, same  # noqa: E402
from mc.sexp import read_all, show  # noqa: E402

REF = emit.rosette_reference()
SEM = dict(div=div_agree, mod=mod_agree, leftright=True)


def wrap(f):
    return lambda *a: emit.plain(f(*a))


_RT = []


def runtime():
    if not _RT:
        r = load_runtime()
        for n, f in emit.REFERENCE.items():
            r.top[n] = wrap(f)
        _RT.append((r, dict(r.top)))
    r, top = _RT[0]
    r.top = dict(top)
    r.fuel = r.fuel0
    r.symbolic, r.other, r.defined = {}, [], []
    return r


def reader(text):
    t = read_all(text)
    if len(t) != 1:
        raise RktError(f"{len(t)} expressions: {text}")
    return t[0]


def compare(r, k, what, f, it, text):
    for row, want in it.reference(REF, **SEM):
        r.add("transitions")
        try:
            got = f({n: emit.plain(v) for n, v in row.items()})
        except RktError as x:
            got = f"an error: {x}"
        want = emit.plain(want)
        if not same(got, want):
            r.bad(f"value:{what}{k}", f"{text} with {row} is {got}, the expression means {want}")
            return
        r.outcome(str(want)[:20])


def run_expr(chunk):
    r = Res()
    rt = runtime()
    for x in chunk:
        it = emit.item(x, r)
        if it is None:
            continue
        r.add("states")
        k = emit.key_of(x)
        try:
            with quiet():
                text = it.e.to_rosette()
        except Exception as ex:
            r.bad(f"emit:{k}", f"{type(ex).__name__}: {ex} from to_rosette of {it.e}")
            continue
        try:
            f = rt.compile(reader(text))
        except Exception as ex:
            r.bad(f"read:{k}", f"{ex}: {text}")
            continue
        compare(r, k, "", f, it, text)
    return r


def run_fn(chunk):
    r = Res()
    for x in chunk:
        it = emit.item(x, r)
        if it is None:
            continue
        k = emit.key_of(x)
        params = [ir.Var(n, emit.X_type(n)) for n in it.names]
        for cls in (ir.FnDecl, ir.FnDeclRecursive):
            rt = runtime()
            r.add("states")
            try:
                with quiet():
                    text = cls("defined", it.e.type, it.e, *params).to_rosette()
            except Exception as ex:
                r.bad(f"emit:{cls.__name__}:{k}", f"{type(ex).__name__}: {ex} from to_rosette of {cls.__name__} of {it.e}")
                continue
            try:
                rt.load(text)
                f = rt.compile(read_all("(defined " + " ".join(it.names) + ")")[0])
                if "defined" not in rt.defined:
                    raise RktError("not a definition")
            except RktError as ex:
                r.bad(f"read:{cls.__name__}:{k}", f"{ex}: {text}")
                continue
            compare(r, k, cls.__name__ + ":", f, it, text)
    return r


def run_wide(w):
    """One operation of the runtime over a wide range of values."""
    o, e, names, rows = w
    r = Res()
    rt = runtime()
    ref = Sem(REF, **SEM).compile(e)
    with quiet():
        text = e.to_rosette()
    f = rt.compile(reader(text))
    r.add("states")
    for row in rows:
        try:
            want = emit.plain(ref(row))
        except Undef:
            continue
        r.add("transitions")
        try:
            got = f({n: emit.plain(v) for n, v in row.items()})
        except RktError as x:
            got = f"an error: {x}"
        if not same(got, want):
            r.bad(f"wide:{o.name}", f"{text} with {row} is {got}, the expression means {want}")
            break
    return r


def run_names(names):
    r = Res()
    for n in names:
        if n in runtime().top:
            continue
        for res, args, e in [c[1:] for c in emit.family_calls([n])]:
            f = emit.stand_in(res)
            rt = runtime()
            rt.top[n] = wrap(f)
            r.add("states")
            with quiet():
                text = e.to_rosette()
            try:
                g = rt.compile(reader(text))
            except Exception as ex:
                r.bad(f"names:{n}", f"{ex}: {text}")
                continue
            compare(r, n, "names:", g, emit.Plain(e, {n: f}), text)
        d, e, f = emit.recursive(n)
        rt = runtime()
        r.add("states")
        with quiet():
            text = d.to_rosette()
        try:
            rt.load(text)
            g = rt.compile(reader(e.to_rosette()))
        except Exception as ex:
            r.bad(f"names:{n}", f"{ex}: {text}")
            continue
        compare(r, n, "names:", g, emit.Plain(e, {n: f}), text)
    return r


TYPES = {"integer?": "int", "boolean?": "bool"}


def declarations(chk):
    """Uninterpreted functions are declared with the types of their parameters and result."""
    import itertools

    for cls in (ir.FnDecl, ir.FnDeclRecursive):
        for ar in (1, 2, 3):
            for ks in itertools.product(("int", "bool"), repeat=ar + 1):
                chk.add("states")
                with quiet():
                    text = cls("un", X.TYPE[ks[-1]], None, *[ir.Var(f"v{i}", X.TYPE[k]) for i, k in enumerate(ks[:-1])]
                               ).to_rosette(is_uninterp=True)
                rt = runtime()
                rt.load(text)
                t = rt.symbolic.get("un")
                got = [TYPES.get(str(a)) for a in t[1:]] if t and str(t[0]) == "~>" else None
                if got != list(ks):
                    chk.bad(f"declare:{cls.__name__}:{ks}", text)


def body(chk):
    size = 6 if chk.tier == "thorough" else 5
    # one check per kind of sequence keeps the largest spaces apart
    chk.pmap(run_expr, env.chunks(emit.items(size, ()), 500))
    chk.pmap(run_fn, env.chunks(emit.items(size - 2, ()), 200))
    chk.pmap(run_wide, emit.wide_calls())
    chk.pmap(run_names, env.chunks(emit.family(), 12))
    declarations(chk)
    chk.assume(
        "Racket and Rosette are not installed: the text runs on mc/rkt.py, an evaluator of the subset used, with concrete values; "
        "the shipped utils.rkt and bounded.rkt are loaded and run from the working tree",
        "domain where every backend agrees: indices and slice bounds inside the sequence, division and modulo of non-negative "
        "by positive numbers, no empty rows in a matrix",
        "sets are their sorted lists of elements and tuples are lists, as in the runtime")
    chk.finish(rule=f"every typed expression of at most {size} nodes over {len(X.OPS)} operations, as a term; up to two nodes less as "
                    "bodies of plain and bounded definitions")


if __name__ == "__main__":
    env.main("P11", body)
