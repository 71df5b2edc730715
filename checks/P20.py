"""P20: simplification keeps the value of a condition, equality elimination keeps its validity."""
import itertools
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import env
from mc.env import Res

from metalift import ir  # noqa: E402
from metalift.ir import And, Bool, BoolLit, Call, Eq, Implies, Int, IntLit, Ite, Lt, Not, Or, Var  # noqa: E402
from mc import exprs as X  # noqa: E402
from mc.irsem import Sem, Undef, free_vars  # noqa: E402

D = (0, 1, 2)
# two finite structures: any equality reasoning has to be right in both
STRUCTURES = [
    {"f": lambda a: (1, 2, 1)[a], "p": lambda a, b: (a, b) in {(0, 1), (1, 1), (2, 0)}, "q": lambda a: a != 1},
    {"f": lambda a: (0, 0, 2)[a], "p": lambda a, b: (a, b) in {(0, 0), (1, 0), (2, 2), (2, 1)}, "q": lambda a: a == 2},
]


def V(n):
    return Var(n, Int)


def atoms(tier):
    x, y, z = V("x"), V("y"), V("z")
    f = lambda a: Call("f", Int, a)
    p = lambda a, b: Call("p", Bool, a, b)
    q = lambda a: Call("q", Bool, a)
    c, d = Var("b", Bool), Var("d", Bool)
    o = [Eq(x, y), Eq(y, x), Eq(x, z), Eq(y, z), Eq(x, x), Eq(x, IntLit(1)), Eq(IntLit(2), x), Eq(y, IntLit(1)), Eq(x, f(y)),
         Eq(f(x), y), Eq(x, f(x)), Eq(y, f(x)), Eq(f(x), f(y)), Eq(z, f(x)), q(x), q(y), p(x, y), p(y, x), p(x, z), Lt(x, y), Lt(x, IntLit(2)),
         Not(q(x)), Not(Eq(x, y)), c, Eq(c, q(x)), Eq(c, d)]
    return o


def few():
    x, y = V("x"), V("y")
    q = lambda a: Call("q", Bool, a)
    return [Eq(x, y), Eq(x, IntLit(1)), Eq(y, Call("f", Int, x)), q(x), q(y), Call("p", Bool, x, y), Eq(x, IntLit(2)), Not(Eq(x, y))]


def conditions(tier):
    A, F = atoms(tier), few()
    deep = tier == "thorough"
    for h, c in itertools.product(A, repeat=2):
        yield Implies(h, c)
    for h, g, c in itertools.product(A, repeat=3):
        yield Implies(And(h, g), c)
    for h, g, c in itertools.product(F if not deep else A, F, F):
        yield Implies(h, Implies(g, c))
        yield Implies(Implies(h, g), c)
        yield Implies(Or(h, g), c)
        yield Implies(h, Or(g, c))
        yield Implies(h, And(g, c))
        yield Implies(h, Or(Not(g), c))
        yield Not(And(h, Implies(g, c)))
        yield Or(Implies(h, g), c)
        yield Implies(Not(Implies(h, g)), c)
        yield Implies(Ite(h, g, BoolLit(True)), c)
        yield And(h, Implies(g, c))
        yield Eq(h, Implies(g, c))
        yield Ite(h, Implies(g, c), BoolLit(True))
        yield Ite(Implies(h, g), c, BoolLit(True))
    for h, g, k, c in itertools.product(F, repeat=4):
        yield Implies(And(h, g, k), c)
        yield And(Implies(h, g), Implies(k, c))
        yield Implies(h, Implies(And(g, k), c))
        yield Implies(And(h, And(g, k)), c)
        yield Implies(And(h, Implies(g, k)), c)
        if deep:
            yield Implies(And(h, g), Or(Not(k), c))
            yield Implies(Implies(Implies(h, g), k), c)
            yield And(Implies(And(h, g), k), c)
            yield Or(Not(h), Not(g), Implies(k, c))
            yield Implies(Or(h, And(g, k)), c)
    if deep:
        for h, g, k, l, c in itertools.product(F, repeat=5):
            yield Implies(And(h, g, k, l), c)
            yield And(Implies(And(h, g), k), Implies(l, c))
            yield Implies(And(h, g), Implies(And(k, l), c))


TWO = (False, True)


def rows(e):
    names = free_vars(e)
    names = {n: t for n, t in names.items()}
    doms = [D if t == Int else TWO for t in names.values()]
    for r in itertools.product(*doms):
        yield dict(zip(names, r))


def refute(e, s):
    f = Sem(s).compile(e)
    for row in rows(e):
        if not f(row):
            return row
    return None


def eliminate(e):
    """As the synthesizers do it under optimize_vc_equality."""
    fresh, prev = set(), e.toSMT()
    for _ in range(50):
        counts = {}
        e.count_variable_uses(counts)
        e = e.optimize_useless_equality(counts, fresh)
        if e.toSMT() == prev:
            return e, fresh
        prev = e.toSMT()
    return None, fresh


def run_elim(chunk):
    r = Res()
    for e in chunk:
        r.add("states")
        before = str(e)
        try:
            out, fresh = eliminate(e)
        except Exception as x:
            r.bad(f"crash:{type(x).__name__}:{shape(e)}", f"{type(x).__name__}: {x} while eliminating equalities from {e}")
            continue
        if out is None:
            r.bad(f"loop:{shape(e)}", f"eliminating equalities from {e} does not end")
            continue
        if str(e) != before:
            r.bad(f"changed:{shape(e)}", f"{before} became {e}")
        known = {n: t for n, t in free_vars(e).items()}
        new = {v.name(): v.type for v in fresh}
        for n, t in free_vars(out).items():
            if known.get(n, new.get(n)) != t or n in known and n in new:
                r.bad(f"vars:{shape(e)}", f"{out} (from {e}) uses {n}, which is neither one of its variables nor a reported new one")
        for s in STRUCTURES:
            r.add("transitions", 2)
            a, b = refute(e, s), refute(out, s)
            if (a is None) != (b is None):
                r.bad(f"validity:{shape(e)}", f"{e} is {'valid' if a is None else f'refuted by {a}'}, but after equality elimination "
                      f"{out} is {'valid' if b is None else f'refuted by {b}'}")
                break
            r.outcome("valid" if a is None else "refutable")
    return r


def shape(e):
    return type(e).__name__ + "(" + ",".join(type(a).__name__ for a in e.args if isinstance(a, ir.Expr)) + ")"


def run_simplify(chunk):
    r = Res()
    for x in chunk:
        e = X.build(x)
        before = str(e)
        r.add("states")
        try:
            s = e.simplify()
        except Exception as ex:
            r.bad(f"simplify:{shape(e)}", f"{type(ex).__name__}: {ex} while simplifying {e}")
            continue
        if str(e) != before:
            r.bad(f"simplify-changed:{shape(e)}", f"{before} became {e}")
        if s.type != e.type:
            r.bad(f"simplify-type:{shape(e)}", f"{e} : {e.type} became {s} : {s.type}")
        f, g = Sem(FNS).compile(e), Sem(FNS).compile(s)
        for row in X.envs(list(n for n in free_vars(e) if n not in FNS)):
            r.add("transitions")
            try:
                want = f(row)
            except Undef:
                continue
            try:
                got = g(row)
            except Exception as ex:
                got = f"{type(ex).__name__}: {ex}"
            if type(got) != type(want) or got != want:
                r.bad(f"simplify:{shape(e)}", f"{e} is {want} with {row}, simplified to {s} it is {got}")
                break
    return r


from mc import emit  # noqa: E402

FNS = emit.REFERENCE


def junctions():
    """Nested And / Or / Not / Implies over literals and a variable, deeper than the general space."""
    b, t, f = Var("b", Bool), BoolLit(True), BoolLit(False)
    level = [b, t, f]
    prev = level
    for _ in range(2):
        nxt = list(level)
        for n in (1, 2, 3):
            for a in itertools.product(prev[:14], repeat=n):
                nxt.append(And(*a))
                if n < 3:
                    nxt.append(Or(*a))
        for a in prev[:14]:
            nxt.append(Not(a))
            for c in prev[:14]:
                nxt.append(Implies(a, c))
        prev = nxt
    return prev


def body(chk):
    chk.pmap(run_elim, env.chunks(conditions(chk.tier), 400))
    sp = X.Space(X.OPS)
    size = 5 if chk.tier == "thorough" else 4
    chk.pmap(run_simplify, env.chunks(itertools.chain(sp.all(size), junctions()), 1000))
    chk.assume("validity is judged in two structures of three elements with fixed function and predicate tables",
               "conditions without let-bound variables for the equality elimination")
    chk.finish(rule="every condition built from the atoms by the listed connectives (up to three hypotheses; thorough four) and every "
               f"expression of at most {size} nodes")


if __name__ == "__main__":
    env.main("P20", body)
