"""P30: the SMT prelude defines the sequence vocabulary and its axioms have a model: the sequences themselves."""
import itertools
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import env
from mc.env import Res

import importlib.resources as resources  # noqa: E402
from metalift import utils  # noqa: E402
from mc.irsem import BUILTIN, Tup, Undef  # noqa: E402
from mc.sexp import read_all, show  # noqa: E402
from mc.smt import Quant, Script, SortError, Unbound  # noqa: E402

FILES = ("tuples.smt", "integer-fn-axioms.smt", "list-axioms.smt")


def get(default):
    def f(l, i):
        if not l:
            return default
        return l[min(max(i, 0), len(l) - 1)] if i < len(l) else default
    return f


def clamp_tail(l, n):
    return l[max(n, 0):]


def clamp_take(l, n):
    return l[:max(n, 0)]


# total readings of the functions the prelude only constrains
TOTAL = {}
for _p, _d in (("list", 0), ("matrix", ())):
    TOTAL.update({
        f"{_p}_length": len, f"{_p}_append": lambda l, v: l + (v,), f"{_p}_prepend": lambda v, l: (v,) + l,
        f"{_p}_get_helper": get(_d), f"{_p}_get": get(_d), f"{_p}_tail": clamp_tail, f"{_p}_take": clamp_take,
        f"{_p}_concat": lambda a, b: a + b, f"{_p}_contains": lambda l, v: v in l, f"{_p}_empty": lambda: (),
    })


def text():
    return "\n".join(resources.read_text(utils, f) for f in FILES)


def values(sort, n):
    if sort == "Int":
        return list(range(-2, n + 3))
    if sort == "Bool":
        return [False, True]
    if sort == ("MLList", "Int"):
        return [t for k in range(n + 1) for t in itertools.product((0, 1) if n < 4 else (0, 1, 2), repeat=k)]
    if sort == ("MLList", ("MLList", "Int")):
        rows = [t for k in range(3) for t in itertools.product((0, 1), repeat=k)]
        return [t for k in range(min(n, 3) + 1) for t in itertools.product(rows, repeat=k)]
    raise KeyError(sort)


def load(bodies):
    s = Script(interp=TOTAL, use_bodies=bodies, fuel=200)
    for c in read_all(text()):
        s.command(c)
    return s


def run_axiom(job):
    i, n = job
    r = Res()
    s = load(True)
    f, t = s.asserts[i]
    if not isinstance(f, Quant):
        r.add("states")
        if f({}) is not True:
            r.bad(f"axiom:{show(t)[:80]}", f"{show(t)} is false")
        return r
    doms = [values(so, n) for _, so in f.bound]
    # an unused quantified variable needs one value only
    body = show(t)
    doms = [d if body.count(" " + nm) + body.count("(" + nm) > 1 else d[:1] for d, (nm, _) in zip(doms, f.bound)]
    r.add("states")
    for vs in itertools.product(*doms):
        r.add("transitions")
        try:
            ok = f.f(dict(zip([b[0] for b in f.bound], vs)))
        except Undef as u:
            ok = f"undefined: {u}"
        if ok is not True:
            r.bad(f"axiom:{show(t)[:80]}", f"{show(t)} fails ({ok}) at {dict(zip([b[0] for b in f.bound], vs))}")
            break
    r.outcome("axiom")
    return r


def diverges_ok(name):
    return name.startswith("integer_sqrt")  # see DESIGN.md: a tail call has a model even where it does not end


def run_def(job):
    name, n = job
    r = Res()
    s = load(True)
    args, res = s.sig[name]
    f = s.code[name]
    want = BUILTIN.get(name)
    r.add("states")
    for vs in itertools.product(*[values(a, n) for a in args]):
        r.add("transitions")
        s.depth = 0
        try:
            got = f(*vs)
        except (Undef, RecursionError) as u:
            got = f"no value: {u}"
            # the head of an empty list is an arbitrary value; only recursion without end is a contradiction
            if "head of nil" in str(u):
                got = None
        try:
            expect = want(*vs) if want else None
        except Undef:
            expect = None
        if isinstance(got, str) and not diverges_ok(name):
            r.bad(f"diverges:{name}", f"{name}{vs}: {got}")
            break
        if expect is not None and got != expect:
            r.bad(f"value:{name}", f"{name}{vs} is {got}, not {expect}")
            break
        r.outcome(name)
    return r


EXTRA = {
    "integer_exp": lambda n: 1 if n <= 0 else pow(3, n, 64),
    "firsts": lambda m: tuple(x[0] for x in m) if all(m) else None,
    "rests": lambda m: tuple(x[1:] for x in m) if m and len({len(x) for x in m}) == 1 and m[0] else None,
}


def tuples(chk):
    """tupleK_getI (tupleK v0 ... vK-1) = vI, for every tuple size with any component sorts."""
    s = load(True)
    comps = {"Int": "7", "Bool": "true", "(MLList Int)": "(cons 3 (as nil (MLList Int)))", "(Tuple2 Int Int)": "(tuple2 4 5)"}
    val = {"Int": 7, "Bool": True, "(MLList Int)": (3,), "(Tuple2 Int Int)": Tup((4, 5))}
    for k in range(1, 6):
        for sorts in itertools.product(comps, repeat=k) if k <= 4 else [("Int",) * k, ("Bool", "Int", "(MLList Int)", "Int", "Bool")]:
            chk.add("states")
            # distinct integers at integer positions tell the positions apart
            ts = [str(10 + i) if so == "Int" else comps[so] for i, so in enumerate(sorts)]
            vs = [10 + i if so == "Int" else val[so] for i, so in enumerate(sorts)]
            for i in range(k):
                chk.add("transitions")
                q = f"(tuple{k}_get{i} (tuple{k} {' '.join(ts)}))"
                try:
                    f, so = s.term(read_all(q)[0], {})
                    got = f({})
                except (SortError, Unbound, Undef) as x:
                    got = f"{type(x).__name__} {x}"
                if got != vs[i]:
                    chk.bad(f"tuple{k}_get{i}", f"{q} is {got}, not {vs[i]}")


def vocabulary(chk, s):
    """Every sequence operation the IR can emit is declared with the sorts it is emitted with."""
    sys.argv = [sys.argv[0]]
    from mc import exprs as X
    from checks import P10

    for o in X.seq_ops():
        if "nosmt" in o.tags or o.name[:2] in ("Eq", "It") or o.name == "list_eq":
            continue
        chk.add("states")
        want = ([s.sort(read_all(P10.SORT[k])[0]) for k in o.args], s.sort(read_all(P10.SORT[o.res])[0]))
        if s.sig.get(o.name) != want:
            chk.bad(f"vocabulary:{o.name}", f"{o.name} is declared as {s.sig.get(o.name)}, emitted as {want}")


def body(chk):
    n = 4 if chk.tier == "thorough" else 3
    try:
        s = load(True)
    except (SortError, Unbound) as x:
        chk.bad("load", str(x))
        chk.finish()
    chk.pmap(run_axiom, [(i, n) for i in range(len(s.asserts))])
    defs = [d for d in s.order]
    BUILTIN.update({k: _undef(f) for k, f in EXTRA.items()})
    chk.pmap(run_def, [(d, n) for d in defs])
    tuples(chk)
    vocabulary(chk, s)
    chk.add("axioms", len(s.asserts))
    chk.add("definitions", len(defs))
    chk.assume("selectors applied to the wrong constructor may take any value; tail of nil is nil, as the axioms require",
               "integer_sqrt is checked for having a model only (its recursion does not end for some arguments)")
    chk.finish(rule=f"every axiom and every definition of the prelude over all integers -2..{n + 2}, all lists of at most {n} elements, all "
                    f"matrices of at most {min(n, 3)} rows of at most 2")


def _undef(f):
    def g(*a):
        v = f(*a)
        if v is None:
            raise Undef("outside")
        return v

    return g


if __name__ == "__main__":
    env.main("P30", body)
