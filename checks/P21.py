"""P21: post-processing of synthesized functions (pruning, arbitrary choices, used names, lambda extraction) keeps what they mean."""
import itertools
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import env
from mc.env import Res, quiet

from metalift import ir  # noqa: E402
from metalift.ir import (Add, And, Bool, BoolLit, Call, CallValue, Choose, Eq, FnDecl, FnDeclRecursive, Gt, Int, IntLit, Ite, Lambda,  # noqa: E402
                         Let, Not, Or, Sub, TupleExpr, TupleGet, Var)
from metalift.synthesis_common import generate_types, get_used_fn_names, parse_candidates, prune_fn_decls  # noqa: E402
from mc import emit, exprs as X  # noqa: E402
from mc.irsem import Sem, Undef, free_vars  # noqa: E402

x, y, b = Var("x", Int), Var("y", Int), Var("b", Bool)


def table(cls):
    """Functions whose bodies are constant, and others that are not."""
    return {
        "yes": cls("yes", Bool, BoolLit(True)), "no": cls("no", Bool, BoolLit(False)),
        "yes1": cls("yes1", Bool, BoolLit(True), Var("x", Int)), "no2": cls("no2", Bool, BoolLit(False), Var("x", Int), Var("y", Int)),
        "pos": cls("pos", Bool, Gt(Var("x", Int), IntLit(0)), Var("x", Int)),
        "one": cls("one", Int, IntLit(1)), "later": cls("later", Bool, Call("yes", Bool)),
        "ext": cls("ext", Int, None, Var("x", Int)),
    }


def conds(deep):
    base = [BoolLit(True), BoolLit(False), b, Call("yes", Bool), Call("no", Bool), Call("yes1", Bool, x), Call("no2", Bool, x, y),
            Call("pos", Bool, x), Call("later", Bool), Not(Call("yes", Bool)), Eq(Call("one", Int), IntLit(1)), Gt(x, y),
            Call("opaque", Bool, x)]
    if deep:
        small = base[:8]
        base = base + [And(p, q) for p, q in itertools.product(small, repeat=2)] + [Or(p, q) for p, q in itertools.product(small, repeat=2)] \
            + [Ite(p, q, r) for p, q, r in itertools.product(small, repeat=3)]
    return base


def bodies(tier):
    C = conds(True)
    c = conds(False)
    for p in C:
        yield Ite(p, x, y)
        yield Ite(p, IntLit(1), IntLit(0))
        yield Add(Ite(p, x, y), y)
        yield Call("ext", Int, Ite(p, x, y))
        yield TupleExpr(Ite(p, x, y), y)
        yield Ite(p, b, BoolLit(True))
        yield p
    for p, q in itertools.product(c, repeat=2):
        yield Ite(p, Ite(q, x, y), IntLit(5))
        yield Ite(p, IntLit(5), Ite(q, x, y))
        yield Ite(p, Add(Ite(q, x, y), x), IntLit(5))
        yield Ite(Ite(p, q, b), x, y)
        yield Add(Ite(p, x, y), Ite(q, y, IntLit(3)))
        yield And(Ite(p, q, BoolLit(False)), b)
        yield Let(Var("w", Int), Ite(p, x, y), Add(Var("w", Int), Ite(q, Var("w", Int), x)))
    for p, q, s in itertools.product(c if tier == "thorough" else c[:8], repeat=3):
        yield Ite(p, Ite(q, x, y), Ite(s, IntLit(7), x))
        yield Ite(p, Ite(q, Ite(s, x, y), IntLit(6)), IntLit(5))


FNS = {"opaque": lambda v: v == 1, "ext": lambda v: 2 * v + 3}
ROWS = [dict(zip("xyb", r)) for r in itertools.product((0, 1, -2), (0, 1), (True, False))]


def run_prune(chunk):
    r = Res()
    params = [Var("x", Int), Var("y", Int), Var("b", Bool)]
    for cls, e in chunk:
        r.add("states")
        fns = dict(table(cls), target=cls("target", e.type, e, *params))
        before = {n: str(f) for n, f in fns.items()}
        out = prune_fn_decls(dict(fns))
        if list(out) != list(fns):
            r.bad("names", f"pruning {list(fns)} returned {list(out)}")
            continue
        if {n: str(f) for n, f in fns.items()} != before:
            r.bad("changed", f"pruning changed its input {before['target']}")
        a, z = Sem(FNS), Sem(FNS)
        for n in fns:
            f, g = fns[n], out[n]
            if type(f) is not type(g) or f.name() != g.name() or f.return_type() != g.return_type() \
                    or [(v.name(), v.type) for v in f.arguments()] != [(v.name(), v.type) for v in g.arguments()]:
                r.bad("signature", f"{f} became {g}")
            if f.body() is not None:
                a.declare(f), z.declare(g)
        for row in ROWS:
            r.add("transitions")
            args = [row[p.name()] for p in params]
            want, got = a.fns["target"](*args), z.fns["target"](*args)
            if type(want) != type(got) or want != got:
                r.bad(f"prune:{type(e).__name__}", f"{e} is {want} with {row}; pruned to {out['target'].body()} it is {got}")
                break
            r.outcome(str(want))
    return r


def called(e):
    if not isinstance(e, ir.Expr):
        return set()
    s = {e.args[0]} if isinstance(e, Call) else set()
    for a in e.args:
        s |= called(a)
    return s


def chosen(e):
    """All expressions e stands for."""
    if isinstance(e, Choose):
        return [v for a in e.args for v in chosen(a)]
    if isinstance(e, ir.Expr) and not isinstance(e, (Var, ir.Lit)):
        parts = [chosen(a) for a in e.args]
        return [("node", type(e).__name__, *p) for p in itertools.product(*parts)]
    if isinstance(e, ir.Expr):
        return [(type(e).__name__, *e.args)]
    return [e]


def run_space(chunk):
    """Names and traversals over the general expression space."""
    r = Res()
    for t in chunk:
        e = X.build(t)
        r.add("states")
        d = FnDecl("defined", e.type, e, Var("x", Int))
        d2 = FnDeclRecursive("other", Int, Add(x, Call("extra", Int, x)), Var("x", Int))
        for ds in ([d], [d, d2], [d2]):
            want = set().union(*[called(f.body()) for f in ds])
            got = get_used_fn_names(ds)
            r.add("transitions")
            if set(got) != want:
                r.bad(f"used:{type(e).__name__}", f"{[str(f.body()) for f in ds]} call {sorted(want)}, get_used_fn_names says {sorted(got)}")
        same = e.map_args(lambda a: a)
        if same != e or type(same) is not type(e) or same.type != e.type:
            r.bad(f"map_args:{type(e).__name__}", f"{e} mapped with the identity is {same}")
        names = list(n for n in free_vars(e) if n != "fun")
        for n in names:  # substitution
            new = {"int": IntLit(1), "bool": BoolLit(False)}.get(kind(free_vars(e)[n]))
            if new is None or "Let" in str(e) or "(Var" in str(e):
                continue
            out = e.rewrite({n: new})
            f, g = Sem(emit.REFERENCE).compile(e), Sem(emit.REFERENCE).compile(out)
            for row in X.envs(names):
                row = dict(row, **{n: new.args[0]})
                r.add("transitions")
                try:
                    want = f(row)
                except Undef:
                    continue
                if g({k: v for k, v in row.items() if k != n}) != want:
                    r.bad(f"rewrite:{type(e).__name__}", f"{e} with {n} := {new} is {out}")
                    break
    return r


def kind(t):
    from mc.irsem import type_kind

    return type_kind(t)


def grammars():
    base = [x, y, IntLit(1), Choose(x, y), Choose(x), Choose(IntLit(0), Choose(y, x)), Choose(Choose(x))]
    one = base + [Add(p, q) for p, q in itertools.product(base, repeat=2)] + [Ite(Choose(Gt(p, q), b), p, q) for p, q in itertools.product(base, repeat=2)]
    for g in one:
        yield g
    for p, q in itertools.product(one[:40], base):
        yield Sub(p, q)
        yield Call("f", Int, p, q)
        yield TupleExpr(p, q)
        yield TupleGet(TupleExpr(p, q), IntLit(0))
        yield Choose(p, q)
        yield CallValue(Var("h", ir.make_fn_type(Int, Int)), p)


def run_choose(_):
    r = Res()
    for g in grammars():
        r.add("states")
        out = g.chooseArbitrarily()
        if "Choose" in str(out) or chosen(out)[0] not in chosen(g) or out.type != g.type:
            r.bad(f"choose:{type(g).__name__}", f"{out} is not a candidate of {g}")
        r.outcome(type(out).__name__)
    return r


F1 = ir.make_fn_type(Int, Int)
F2 = ir.make_fn_type(Int, Int, Int)


def lambdas():
    z, w = Var("z", Int), Var("w", Int)
    one = [Lambda(Int, Add(z, IntLit(k)), z) for k in (1, 2)] + [Lambda(Int, z, z), Lambda(Int, Ite(Gt(z, IntLit(0)), z, IntLit(0)), z)]
    two = [Lambda(Int, Sub(z, w), z, w), Lambda(Int, Sub(w, z), z, w)]
    named = [Var("inc", F1)]
    for f in one + named:
        yield Call("apply1", Int, x, f)
    for f in two + [Var("sub", F2)]:
        yield Call("apply2", Int, x, y, f)
    for f, g in itertools.product(one + named, repeat=2):
        yield Add(Call("apply1", Int, x, f), Call("apply1", Int, y, g))
        yield Call("apply1", Int, Call("apply1", Int, x, f), g)
        yield Call("both", Int, x, f, g)
    for f, g in itertools.product(one, two):
        yield Call("apply2", Int, Call("apply1", Int, x, f), y, g)
        yield Lambda_in(f, g)


def Lambda_in(f, g):
    z = Var("z", Int)
    return Call("apply1", Int, x, Lambda(Int, Call("apply2", Int, z, z, g), z))


HO = {"apply1": lambda v, f: f(v), "apply2": lambda v, w, f: f(v, w), "both": lambda v, f, g: g(f(v)), "inc": lambda v: v + 1,
      "sub": lambda v, w: v - w}


class LSem(Sem):
    def compile(self, e):
        if isinstance(e, Lambda):
            names = [p.name() for p in e.arguments()]
            f = self.compile(e.body())
            return lambda env: lambda *v: f({**env, **dict(zip(names, v))})
        return super().compile(e)


def run_lambdas(_):
    r = Res()
    known = [FnDecl("inc", Int, Add(x, IntLit(1)), x), FnDecl("sub", Int, Sub(x, y), x, y)]
    ftypes = dict({"inc": F1, "sub": F2}, apply1=ir.make_fn_type(Int, Int, F1), apply2=ir.make_fn_type(Int, Int, Int, F2))
    assert known
    for e in lambdas():
        r.add("states")
        ex, before = [], str(e)
        out, (ins, calls) = parse_candidates(e, [], ftypes, [], ex, "here")
        if "Lambda" in str(out):
            r.bad("lambda", f"{e} still has a lambda: {out}")
            continue
        if str(e) != before:
            r.bad("lambda-changed", f"{before} became {e}")
        z = LSem(HO)
        for d in ex:
            if "Lambda" in str(d.body()) or d.return_type() != Int:
                r.bad("lambda-decl", f"{e} extracts {d}")
            z.declare(d)
        if len({d.name() for d in ex}) != len(ex) or {d.name() for d in ex} & (set(HO) | {"x", "y"}):
            r.bad("lambda-names", f"{e} extracts {[d.name() for d in ex]}")
        f, g = LSem(HO).compile(e), z.compile(out)
        for row in ROWS:
            r.add("transitions")
            if f(row) != g(row):
                r.bad("lambda-value", f"{e} is {f(row)} with {row}, {out} is {g(row)}")
                break
        want_in = {(c.name(), a.name()) for c in calls_of(out) for a in c.arguments() if ir.is_fn_decl_type(a.type)}
        for d in ex:
            want_in |= {(c.name(), a.name()) for c in calls_of(d.body()) for a in c.arguments() if ir.is_fn_decl_type(a.type)}
        if set(ins) != want_in:
            r.bad("lambda-calls", f"{e}: function arguments recorded {sorted(set(ins))}, passed {sorted(want_in)}")
        if not {d.name() for d in ex} <= set(calls):
            r.bad("lambda-fncalls", f"{e}: extracted {[d.name() for d in ex]} but recorded {calls}")
    return r


def calls_of(e):
    if not isinstance(e, ir.Expr):
        return []
    return ([e] if type(e) is Call else []) + [c for a in e.args for c in calls_of(a)]


def body(chk):
    chk.pmap(run_prune, env.chunks([(c, e) for e in bodies(chk.tier) for c in (FnDecl, FnDeclRecursive)], 200))
    size = 5 if chk.tier == "thorough" else 4
    chk.pmap(run_space, env.chunks(X.Space(X.OPS).all(size), 1000))
    chk.pmap(run_choose, [0])
    chk.pmap(run_lambdas, [0])
    chk.finish(rule=f"every body built from the listed conditions (two or three nested ifs) and every expression of at most {size} nodes")


if __name__ == "__main__":
    env.main("P21", body)
