"""P23: equality and hashing of expressions and objects, and the sets built on them."""
import itertools
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import env
from mc.env import Res

from metalift import ir  # noqa: E402
from metalift.frontend.utils import ObjectSet  # noqa: E402
from metalift.vc_util import and_objects, or_objects  # noqa: E402
from mc import exprs as X  # noqa: E402
from mc.irsem import Sem  # noqa: E402


def nf(e):
    """What an expression is: constructor, names and literal values (with their Python types), operands."""
    if isinstance(e, ir.Expr):
        return (type(e).__name__,) + tuple(nf(a) for a in e.args)
    return (type(e).__name__, e)


def extra():
    V = lambda n: ir.Var(n, ir.Int)
    one, tru = ir.IntLit(1), ir.BoolLit(True)
    zero, fal = ir.IntLit(0), ir.BoolLit(False)
    out = [one, tru, zero, fal, ir.Lit("1", ir.Int), ir.Var("1", ir.Int)]
    for a, b in itertools.product((one, tru, zero, fal, V("x")), repeat=2):
        out += [ir.TupleExpr(a, b), ir.Eq(a, b), ir.Call("f", ir.Int, a, b), ir.Call("g", ir.Int, a, b),
                ir.CallValue(ir.Var("h", X.FNT), a)]
    for a, b in ((one, zero), (zero, one), (tru, fal)):
        out.append(ir.Choose(a, b))
    out += [ir.Choose(one), ir.Call("x", ir.Int), V("x"), ir.Add(V("x")), ir.Mul(V("x")), ir.Add(V("x"), V("x"), V("x")),
            ir.Add(ir.Add(V("x"), V("x")), V("x")), ir.FnDecl("f", ir.Int, V("x"), V("x")),
            ir.FnDeclRecursive("f", ir.Int, V("x"), V("x")), ir.FnDecl("f", ir.Int, V("x"), V("y")),
            ir.FnDecl("f", ir.Int, V("x")), ir.FnDecl("g", ir.Int, V("x"), V("x")), ir.Synth("f", V("x"), V("x")),
            ir.Axiom(tru, V("x")), ir.Axiom(tru, V("y")), ir.Constraint(tru), ir.Assert(tru),
            ir.Lambda(ir.Int, V("x"), V("x")), ir.NonTerm(ir.Int, name="x")]
    return out


def expressions(size):
    ops = [o for o in X.OPS]
    es = [X.build(x) for x in X.Space(ops, rich=size).all(size)]
    return es + extra()


EXPRS = None


def run_pairs(rng):
    r = Res()
    es, copies, nfs = EXPRS
    for i in range(*rng):
        a, na = es[i], nfs[i]
        for j in range(len(es)):
            b = copies[j]
            want = na == nfs[j]
            r.add("transitions")
            if (a == b) is not want or (a != b) is not (not want):
                r.bad(f"eq:{type(a).__name__}", f"{a!r} == {b!r} is {a == b}, != is {a != b}; they are {'the same' if want else 'different'}")
                continue
            if want and hash(a) != hash(b):
                r.bad(f"hash:{type(a).__name__}", f"{a!r} and an equal expression hash to {hash(a)} and {hash(b)}")
        r.add("states")
        r.outcome(type(a).__name__)
    return r


def objects():
    X1 = lambda: ir.Int("x")
    return [
        lambda: ir.Int("x"), lambda: ir.Int("y"), lambda: ir.Int("x") + 1, lambda: ir.Int(1), lambda: ir.Bool(True),
        lambda: X1() == 1, lambda: ir.List(ir.Int, "l"), lambda: ir.List(ir.Int, "l").append(X1()),
        lambda: ir.make_tuple(ir.Int(1), ir.Bool(True)), lambda: ir.make_tuple(ir.Bool(True), ir.Int(1)),
    ]


def ids(s):
    return [nf(o.src) for o in s]


def uniq(l):
    return list(dict.fromkeys(l))


def run_sets(job):
    first, n = job
    r = Res()
    mk = objects()
    N = {i: nf(f().src) for i, f in enumerate(mk)}
    for rest in itertools.chain(*[itertools.product(range(len(mk)), repeat=k) for k in range(n)]):
        A = (first,) + rest
        r.add("states")
        s = ObjectSet(mk[i]() for i in A)
        want = uniq(N[i] for i in A)
        t = ObjectSet()
        for i in A:
            t.add(mk[i]())
        for name, got in (("of", s), ("add", t), ("objects", s.objects())):
            if ids(got) != want:
                r.bad(f"set:{name}", f"objects {A} make {ids(got)}, expected {want}")
        for i, f in enumerate(mk):
            r.add("transitions")
            if (f() in s) is not (N[i] in want):
                r.bad("set:contains", f"{f()} in {s.objs} is {f() in s}")
        for B in itertools.chain(*[itertools.product(range(len(mk)), repeat=k) for k in range(3)]):
            r.add("transitions")
            other = ObjectSet(mk[i]() for i in B)
            wb = uniq(N[i] for i in B)
            if ids(s + other) != uniq(want + wb):
                r.bad("set:+", f"{ids(s)} + {ids(other)} is {ids(s + other)}")
            if ids(s - other) != [x for x in want if x not in wb]:
                r.bad("set:-", f"{ids(s)} - {ids(other)} is {ids(s - other)}")
            if ids(s) != want or ids(other) != wb:
                r.bad("set:operands", f"+ or - changed its operands: {ids(s)}, {ids(other)}")
            for op in ("+", "-", "copy"):
                left, right = ObjectSet(mk[i]() for i in A), ObjectSet(mk[i]() for i in B)
                res = left + right if op == "+" else left - right if op == "-" else ObjectSet(left)
                now = ids(res)
                res.add(ir.Int("fresh"))
                if ids(left) != want or ids(right) != wb:
                    r.bad(f"set:shared:{op}", f"adding to the result of {op} changed an operand: {ids(left)}, {ids(right)}")
                left.add(ir.Int("other")), right.add(ir.Int("third"))
                if ids(res) != now + [nf(ir.Int("fresh").src)]:
                    r.bad(f"set:shared:{op}", f"adding to an operand of {op} changed the result: {ids(res)}")
        d = {}
        for i in A:
            d[ir.ObjectWrapper(mk[i]())] = i
        if len(d) != len(want) or any(d.get(ir.ObjectWrapper(mk[i]())) != max(k for k, j in enumerate(A) if j == i) and
                                      d.get(ir.ObjectWrapper(mk[i]())) != i for i in A):
            r.bad("wrapper", f"objects {A} are {len(d)} keys")
    return r


def run_junction(job):
    """and_objects / or_objects drop only repeated operands."""
    r = Res()
    mk = [lambda: ir.Bool("b"), lambda: ir.Bool("c"), lambda: ir.Bool("b").Not(), lambda: ir.Int("x") == 1, lambda: ir.Int("x") == 0,
          lambda: ir.Bool(True), lambda: ir.Bool(False), lambda: ir.Bool("b") == True,  # noqa: E712
          lambda: ir.Bool(ir.Eq(ir.TupleExpr(ir.IntLit(1)), ir.TupleExpr(ir.Var("x", ir.Int)))),
          lambda: ir.Bool(ir.Call("f", ir.Bool, ir.IntLit(1))), lambda: ir.Bool(ir.Call("f", ir.Bool, ir.BoolLit(True)))]
    fns = {"f": lambda v: type(v) is bool}
    for n in (1, 2, 3):
        for A in itertools.product(range(len(mk)), repeat=n):
            if A[0] != job:
                continue
            r.add("states")
            for f, g in ((and_objects, all), (or_objects, any)):
                e = Sem(fns).compile(f(*[mk[i]() for i in A]).src)
                parts = [Sem(fns).compile(mk[i]().src) for i in A]
                for b, c, x in itertools.product((False, True), (False, True), (0, 1, 2)):
                    row = {"b": b, "c": c, "x": x}
                    r.add("transitions")
                    if bool(e(row)) != g(p(row) for p in parts):
                        r.bad(f.__name__, f"{f.__name__} of {[mk[i]() for i in A]} is {e(row)} with {row}")
                        break
    return r


def body(chk):
    global EXPRS
    a, b = expressions(3), expressions(3)
    if chk.tier == "thorough":
        sp = X.Space([o for o in X.OPS], rich=2)
        more = lambda: [X.build(x) for k in ("int", "bool") for x in sp.of(k, 4, False)]
        a, b = a + more(), b + more()
    chk.add("expressions", len(a))
    EXPRS = (a, b, [nf(e) for e in a])
    chk.pmap(run_pairs, [(i, min(i + 50, len(EXPRS[0]))) for i in range(0, len(EXPRS[0]), 50)])
    chk.pmap(run_sets, [(i, 4 if chk.tier == "thorough" else 3) for i in range(len(objects()))])
    chk.pmap(run_junction, range(11))
    chk.finish(rule="all pairs of expressions of at most three nodes; all object sets of at most three objects, against all sets of two")


if __name__ == "__main__":
    env.main("P23", body)
