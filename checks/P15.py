"""P15: the inputs declared for Rosette range over exactly the bounded values of each variable's type."""
import itertools
import os
import sys
import typing

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import env
from mc.env import Res, quiet

from metalift import ir  # noqa: E402
from metalift.rosette_translator import generate_vars  # noqa: E402
from mc.sexp import read_all  # noqa: E402
from mc.rkt import RktError, load_runtime  # noqa: E402

I, B = ir.Int, ir.Bool


def tup(*ts):
    return ir.Tuple[typing.Tuple[ts]]


# --- the domain each type has under a bound, given the values a symbolic integer may take
def lists(elems, n):
    return {t for k in range(n + 1) for t in itertools.product(elems, repeat=k)}


def domain(t, n, ints):
    """The set of values of the type: lists up to n elements, sets with at most n elements, matrices of up
    to n rows of n columns, tensors of up to n slabs of n rows of n columns."""
    if t is I:
        return set(ints)
    if t is B:
        return {False, True}
    args = typing.get_args(t)
    if ir.is_matrix_type(t):
        rows = list(itertools.product(sorted(domain(args[0], n, ints)), repeat=n))
        return lists(rows, n)
    if ir.is_tensor3d_type(t):
        rows = list(itertools.product(sorted(domain(args[0], n, ints)), repeat=n))
        return lists(list(itertools.product(rows, repeat=n)), n)
    if ir.is_list_type(t):
        return lists(sorted(domain(args[0], n, ints)), n)
    if ir.is_set_type(t):
        d = sorted(domain(args[0], n, ints))
        return {tuple(c) for k in range(min(n, len(d)) + 1) for c in itertools.combinations(d, k)}
    if ir.is_tuple_type(t):
        return set(itertools.product(*[domain(a, n, ints) for a in typing.get_args(args[0])]))
    raise KeyError(t)


def cost(t, n, k):
    """About how many assignments the declaration of a variable of the type has."""
    if t is I:
        return k
    if t is B:
        return 2
    args = typing.get_args(t)
    e = None if ir.is_tuple_type(t) else cost(args[0], n, k)
    if ir.is_tuple_type(t):
        p = 1
        for a in typing.get_args(args[0]):
            p *= cost(a, n, k)
        return p
    d = 2 if ir.is_matrix_type(t) else 3 if ir.is_tensor3d_type(t) else 1
    return (n + 2) * e ** (n ** d)


TYPES = {
    "Int": I, "Bool": B, "List[Int]": ir.List[I], "List[Bool]": ir.List[B], "Set[Int]": ir.Set[I],
    "Matrix[Int]": ir.Matrix[I], "Matrix[Bool]": ir.Matrix[B], "Tensor3D[Int]": ir.Tensor3D[I],
    "List[List[Int]]": ir.List[ir.List[I]], "Tuple[Int]": tup(I), "Tuple[Int,Bool]": tup(I, B), "Tuple[Bool,Int,Int]": tup(B, I, I),
    "Tuple[Int,List[Int]]": tup(I, ir.List[I]), "Tuple[Set[Int],Bool]": tup(ir.Set[I], B),
    "Tuple[Int,Tuple[Bool,Int]]": tup(I, tup(B, I)), "List[Tuple[Int,Int]]": ir.List[tup(I, I)],
    "Tuple[Matrix[Int],Int]": tup(ir.Matrix[I], I), "List[List[Bool]]": ir.List[ir.List[B]],
}


def declared(vars, n):
    with quiet():
        return generate_vars(vars, n)


def program(text):
    """(symbolic constants and their kinds, those that are lengths, defining forms)"""
    sym, forms, lens = {}, [], set()

    def scan(f):
        if isinstance(f, list):
            if len(f) == 3 and str(f[0]) == "take":
                lens.add(str(f[2]))
            for x in f:
                scan(x)

    for f in read_all(text):
        if str(f[0]) == "define-symbolic":
            for nm in f[1:-1]:
                if str(nm) in sym:
                    raise RktError(f"{nm} is declared twice")
                sym[str(nm)] = str(f[-1])
        else:
            forms.append(f)
            scan(f)
    return sym, lens & set(sym), forms


def run(forms, values):
    rk = _runtime()
    rk.top.update(values)
    for f in forms:
        rk.form(f)
    return rk.top


def evaluate(r, key, names, types, n, ints, text, listed):
    """Run the declarations under every assignment of the symbolic constants."""
    sym, lens, forms = program(text)
    if set(listed) != set(sym) or len(listed) != len(sym):
        r.bad(f"universal:{key}", f"universally quantified: {sorted(listed)}; declared: {sorted(sym)}")
        return
    # lengths outside the list stop the run
    doms = [(False, True) if k == "boolean?" else tuple(range(-1, n + 2)) if s in lens else ints for s, k in sym.items()]
    seen = set()
    for vals in itertools.product(*doms):
        r.add("transitions")
        try:
            top = run(forms, zip(sym, vals))
            seen.add(tuple(top[v] for v in names))
        except RktError:
            r.add("outside")
    want = set(itertools.product(*[domain(t, n, ints) for t in types]))
    miss, extra = want - seen, seen - want
    if miss or extra:
        r.bad(f"range:{key}", f"bound {n}, integers {ints}: values that no assignment gives: {sorted(miss, key=repr)[:3]}; values outside the type: "
              f"{sorted(extra, key=repr)[:3]}\n{text}")
    r.outcome(f"{key}:{len(seen)}")


_RT = []


def _runtime():
    if not _RT:
        _RT.append(load_runtime())
    return _RT[0]


def one(job):
    r = Res()
    combo, n, ints = job
    names = [f"v{'abc'[i]}" for i in range(len(combo))]
    types = [TYPES[c] for c in combo]
    key = ",".join(combo)
    r.add("states")
    try:
        text, listed = declared({ir.Var(v, t) for v, t in zip(names, types)}, n)
    except Exception as ex:
        r.bad(f"declare:{key}", f"{type(ex).__name__}: {ex} for a variable of type {key}, bound {n}")
        return r
    evaluate(r, key, names, types, n, ints, text, listed)
    r.sample(f"{key} bound {n}: {text.splitlines()[-1]}")
    return r


def layout(job):
    """Large bounds: with all constants different, every position must hold a constant of its own."""
    r = Res()
    c, n = job
    t = TYPES[c]
    r.add("states")
    text, listed = declared({ir.Var("va", t)}, n)
    sym, lens, forms = program(text)
    if set(listed) != set(sym) or len(listed) != len(sym):
        r.bad(f"universal:{c}", f"universally quantified: {sorted(listed)}; declared: {sorted(sym)}")
        return r
    vals = {s: 100 + i for i, s in enumerate(s for s in sym if s not in lens)}
    flat = lambda v: [y for x in v for y in flat(x)] if isinstance(v, tuple) else [v]
    shape = lambda v: tuple(shape(x) for x in v) if isinstance(v, tuple) else 0
    got = {}
    for k in range(n + 1):
        r.add("transitions")
        try:
            got[k] = run(forms, dict(vals, **{l: k for l in lens}))["va"]
        except RktError as ex:
            r.bad(f"layout:{c}", f"bound {n}, length {k}: {ex}\n{text}")
            return r
    depth = 1 if "Matrix" not in c and "Tensor" not in c else 2 if "Matrix" in c else 3
    for k, v in got.items():
        want = ()
        cell = 0
        for _ in range(depth - 1):
            cell = (cell,) * n
        want = (cell,) * k
        f = flat(v)
        if shape(v) != want or len(set(f)) != len(f):
            r.bad(f"layout:{c}", f"bound {n}, length {k}: {v}")
            return r
        if "Set" not in c and v != got[n][:k]:
            r.bad(f"layout:{c}", f"bound {n}: shorter values are not prefixes of longer ones: {v} and {got[n]}")
            return r
    r.outcome(f"layout:{c}:{n}")
    return r


def body(chk):
    limit = 3000000 if chk.tier == "thorough" else 300000
    ints = (0, 1, 2)
    jobs = []
    for n in (1, 2, 3, 4):
        for c in TYPES:
            for dom in ((0, 1, 2), (0, 1)):
                if cost(TYPES[c], n, len(dom)) <= limit:
                    jobs.append(((c,), n, dom))
                    break
        for c in itertools.combinations(TYPES, 2):
            if cost(TYPES[c[0]], n, 2) * cost(TYPES[c[1]], n, 2) <= limit // 40:
                jobs.append((c, n, (0, 1)))
    chk.pmap(one, jobs)
    chk.pmap(layout, [(c, n) for c in ("List[Int]", "Set[Int]", "Matrix[Int]", "Tensor3D[Int]") for n in range(1, 7)])
    chk.assume("sets contain integers; matrices and tensors of a bounded problem have rows of exactly the bound's width",
               "an assignment whose length constant lies outside 0..bound stops the program, as Racket's take does")
    chk.finish(rule=f"{len(TYPES)} variable types alone and in pairs, bounds 1..4, every assignment of the declared constants over small "
                    "integers and lengths -1..bound+1 (up to a cost limit); layout with distinct constants up to bound 6")


if __name__ == "__main__":
    env.main("P15", body)
