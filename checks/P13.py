"""P13: the SMT file written to verify candidates says that the condition holds for exactly those candidates."""
import copy
import itertools
import os
import subprocess
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import env
from mc.env import Res, from_repo, quiet

from metalift import ir  # noqa: E402
from metalift.ir import (Add, And, Axiom, Call, CallValue, Eq, FnDecl, FnDeclRecursive, Gt, Implies, Int, IntLit, Ite, Lambda, Le, Lt,  # noqa: E402
                         Mul, Not, Or, Sub, Var)
from metalift.synthesis_common import generate_types, verify_synth_result  # noqa: E402
from mc import exprs as X  # noqa: E402
from mc.irsem import BUILTIN, Undef, type_kind  # noqa: E402
from mc.smt import Quant, Script, SortError, Unbound  # noqa: E402
from mc.world import World  # noqa: E402
from checks.P21 import LSem  # noqa: E402

I1, I2 = ir.make_fn_type(Int, Int), ir.make_fn_type(Int, Int, Int)
x, y, i, r_ = Var("x", Int), Var("y", Int), Var("i", Int), Var("r", Int)
l = Var("l", X.LI)
f1, f2 = Var("f", I1), Var("f", I2)
one, two = IntLit(1), IntLit(2)
LISTS = [t for n in range(4) for t in itertools.product((0, 1, 3), repeat=n)][:25]
DOM = {"int": (-1, 0, 1, 2), "bool": (False, True), "list": LISTS, "set": (frozenset(), frozenset({1}), frozenset({0, 2})),
       "tuple": X.VALUES["t"]}


def ln(e):
    return Call("list_length", Int, e)


def get(e, k):
    return Call("list_get", Int, e, k)


def tail(e):
    return Call("list_tail", X.LI, e, one)


EMPTY = Call("list_empty", X.LI)


def rows(vs, cap=220):
    doms = [DOM[type_kind(v.type)] for v in vs]
    out = [dict(zip([v.name() for v in vs], c)) for c in itertools.product(*doms)]
    step = max(1, len(out) // cap)
    return out[::step] if step > 1 else out


class Problem:
    def __init__(self, key, lang, cands, vc, vs, interp=None, extra=()):
        self.ask_cvc5 = False
        self.key, self.lang, self.cands, self.vc, self.vs, self.interp, self.extra = key, lang, cands, vc, vs, interp or {}, extra


# --- first-order problems: dependencies between functions, candidates, axioms, uninterpreted functions
def first_order():
    """Every dependency graph over three functions, every order of listing, recursion, every kind of definition."""
    names = ["fa", "fb", "fc"]
    pairs = [(0, 1), (0, 2), (1, 2)]
    for deps in itertools.product((0, 1), repeat=3):
        for kinds in itertools.product((FnDecl, FnDeclRecursive), repeat=3):
            decls = []
            for k, n in enumerate(names):
                body = Add(Mul(x, IntLit(k + 2)), IntLit(k))
                for (a, b), d in zip(pairs, deps):
                    if d and b == k:
                        body = Add(body, Call(names[a], Int, Sub(x, IntLit(a))))
                if kinds[k] is FnDeclRecursive:
                    body = Ite(Le(x, IntLit(0)), IntLit(k), Add(body, Call(n, Int, Sub(x, one))))
                decls.append(kinds[k](n, Int, body, x))
            for perm in itertools.permutations(decls):
                for used in ((0,), (1, 2), (0, 1, 2)):
                    ps = FnDeclRecursive("test_ps", ir.Bool, Eq(r_, Add(*[Call(names[u], Int, x) for u in used]) if len(used) > 1 else Call(names[used[0]], Int, x)), r_, x)
                    vc = Implies(Eq(r_, Add(x, y)), Call("test_ps", ir.Bool, r_, x))
                    yield Problem(f"deps:{deps}:{[k.__name__ for k in kinds]}", list(perm), [ps], vc, [x, y, r_])


def candidates_order():
    """Candidates that call each other and helper functions that are synthesized, in every order."""
    h = FnDeclRecursive("helper", Int, Add(x, IntLit(3)), x)
    inv = FnDeclRecursive("inv0", ir.Bool, And(Le(i, ln(l)), Eq(r_, Call("helper", Int, i))), r_, i, l)
    ps = FnDeclRecursive("ps", ir.Bool, Or(Eq(r_, Call("helper", Int, ln(l))), Call("inv0", ir.Bool, r_, ln(l), l)), r_, l)
    hole = FnDecl("helper", Int, None, x)
    g = FnDecl("gg", Int, Mul(x, two), x)
    useg = FnDeclRecursive("helper2", Int, Call("gg", Int, Call("helper", Int, x)), x)
    hole2 = FnDecl("helper2", Int, None, x)
    top = FnDecl("top", Int, Add(Call("helper", Int, x), one), x)
    vc = And(Implies(Call("inv0", ir.Bool, r_, i, l), Call("ps", ir.Bool, r_, l)), Call("inv0", ir.Bool, IntLit(3), IntLit(0), l))
    for cands in itertools.permutations([h, inv, ps]):
        for lang in itertools.permutations([hole, g]):
            yield Problem("cands", list(lang), list(cands), vc, [r_, i, l], extra=[hole])
    vc2 = And(Eq(Call("helper2", Int, x), y), vc)
    for cands in itertools.permutations([h, inv, ps, useg]):
        for lang in ([hole, hole2, g], [g, hole2, hole]):
            yield Problem("cands2", list(lang), list(cands), vc2, [r_, i, l, x, y], extra=[hole, hole2])
    # a target function that calls a synthesized one
    ps3 = FnDeclRecursive("ps", ir.Bool, Eq(r_, Call("top", Int, x)), r_, x)
    for cands in itertools.permutations([h, ps3]):
        for lang in itertools.permutations([hole, top, g]):
            yield Problem("target-calls-candidate", list(lang), list(cands), Call("ps", ir.Bool, r_, x), [r_, x], extra=[hole])


def uninterpreted():
    un = {"un": lambda a, b: 10 * a + b, "flag": lambda a: a > 0}
    for cls in (FnDecl, FnDeclRecursive):
        u = cls("un", Int, None, x, y)
        v = cls("flag", ir.Bool, None, x)
        g = FnDecl("gg", Int, Ite(Call("flag", ir.Bool, x), Call("un", Int, x, one), x), x)
        ps = FnDeclRecursive("ps", ir.Bool, Eq(r_, Add(Call("un", Int, x, x), Call("gg", Int, y))), r_, x, y)
        vc = Implies(Eq(r_, Call("un", Int, x, x)), Call("ps", ir.Bool, r_, x, y))
        for lang in itertools.permutations([u, v, g]):
            yield Problem(f"uninterpreted:{cls.__name__}", list(lang), [ps], vc, [x, y, r_], interp=un)
    vc = And(Eq(Call("un", Int, x, y), Call("un", Int, y, x)), Call("ps", ir.Bool, r_, x, y))
    ps = FnDeclRecursive("ps", ir.Bool, Eq(r_, Call("un", Int, x, y)), r_, x, y)
    for cls in (FnDecl, FnDeclRecursive):
        yield Problem(f"uninterpreted-vc:{cls.__name__}", [cls("un", Int, None, x, y)], [ps], vc, [x, y, r_], interp=un)


def axioms():
    g = FnDeclRecursive("gg", Int, Ite(Le(x, IntLit(0)), IntLit(0), Add(two, Call("gg", Int, Sub(x, one)))), x)
    h = FnDecl("hh", ir.Bool, Eq(Call("gg", Int, x), y), x, y)
    a1 = Axiom(Implies(Gt(x, IntLit(0)), Eq(Call("gg", Int, x), Mul(two, x))), x)
    a2 = Axiom(Implies(Call("hh", ir.Bool, x, y), Or(Le(x, IntLit(0)), Eq(y, Mul(two, x)))), x, y)
    a3 = Axiom(Eq(ln(Call("list_append", X.LI, l, x)), Add(ln(l), one)), l, x)
    ps = FnDeclRecursive("ps", ir.Bool, Eq(r_, Call("gg", Int, x)), r_, x)
    for lang in itertools.permutations([g, h, a1, a2, a3]):
        yield Problem("axioms", list(lang), [ps], Implies(And(Eq(r_, Mul(two, x)), Gt(x, IntLit(0))), Call("ps", ir.Bool, r_, x)), [x, r_])


# --- functions that take functions
def mapf(name="mapf"):
    return FnDeclRecursive(name, X.LI, Ite(Eq(ln(l), IntLit(0)), EMPTY,
                                           Call("list_prepend", X.LI, CallValue(f1, get(l, IntLit(0))), Call(name, X.LI, tail(l), f1))), l, f1)


def foldf():
    return FnDeclRecursive("foldf", Int, Ite(Eq(ln(l), IntLit(0)), IntLit(0),
                                             CallValue(f2, get(l, IntLit(0)), Call("foldf", Int, tail(l), f2))), l, f2)


def twice():
    return FnDecl("twice", Int, CallValue(f1, CallValue(f1, x)), x, f1)


def outer():
    """calls a function with its function parameter"""
    return FnDeclRecursive("outer", Int, Add(ln(Call("mapf", X.LI, l, f1)), Call("twice", Int, ln(l), f1)), l, f1)


def outer1():
    return FnDeclRecursive("outer1", Int, Ite(Eq(ln(l), IntLit(0)), IntLit(0),
                                              Add(get(Call("mapf", X.LI, l, f1), IntLit(0)), Call("outer1", Int, tail(l), f1))), l, f1)


def outer2(name, inner, k):
    """calls another function that takes functions, once, without recursion"""
    return FnDecl(name, Int, Add(Mul(Call(inner, Int, x, f1), IntLit(k)), IntLit(k)), x, f1)


def higher_order():
    lm = Var("lm", I1)
    lr = Var("lr", I2)
    gv = Var("gg", I1)
    lmh, lrh = FnDecl("lm", Int, None, x), FnDecl("lr", Int, None, x, y)
    LM = [FnDeclRecursive("lm", Int, b, x) for b in (Add(x, one), Mul(x, x))]
    LR = [FnDeclRecursive("lr", Int, b, x, y) for b in (Add(x, y), Sub(x, y))]
    gg = FnDecl("gg", Int, Sub(IntLit(5), x), x)
    M = lambda e, f: Call("mapf", X.LI, e, f)
    F = lambda e, f: Call("foldf", Int, e, f)
    exprs = {  # name -> (expression, functions of the language, synthesized)
        "map": (get(M(Call("list_append", X.LI, l, i), lm), IntLit(0)), [mapf(), lmh], [LM]),
        "twice": (Call("twice", Int, i, lm), [twice(), lmh], [LM]),
        "reduce": (F(l, lr), [foldf(), lrh], [LR]),
        "mapreduce": (F(M(l, lm), lr), [mapf(), foldf(), lmh, lrh], [LM, LR]),
        "mapmap": (F(M(M(l, lm), lm), lr), [mapf(), foldf(), lmh, lrh], [LM, LR]),
        "twicetwice": (Call("twice", Int, Call("twice", Int, i, lm), lm), [twice(), lmh], [LM]),
        "target": (Call("twice", Int, i, gv), [twice(), gg], []),
        "two": (Add(Call("twice", Int, i, gv), Call("twice", Int, i, lm)), [twice(), gg, lmh], [LM]),
        "twomaps": (F(M(M(l, gv), lm), lr), [mapf(), foldf(), gg, lmh, lrh], [LM, LR]),
        "call-and-pass": (Add(Call("lm", Int, i), Call("twice", Int, i, lm)), [twice(), lmh], [LM]),
        "nested": (Call("outer1", Int, l, lm), [mapf(), outer1(), lmh], [LM]),
        "nested-and-inner": (Add(Call("outer1", Int, l, lm), F(M(l, lm), lr)), [mapf(), outer1(), foldf(), lmh, lrh], [LM, LR]),
        "nested-only": (Call("outer1", Int, l, lm), [outer1(), mapf(), lmh], [LM]),
        "both": (Call("outer", Int, l, lm), [mapf(), twice(), outer(), lmh], [LM]),
        # several functions that pass their function parameter on to the same one, at one or two levels
        "two-outers": (Add(Call("twice", Int, i, lm), Mul(two, Call("oa", Int, i, lm)), Call("ob", Int, i, lm)), [twice(), outer2("oa", "twice", 2), outer2("ob", "twice", 3), lmh], [LM]),
        "chain": (Add(Call("twice", Int, i, lm), Call("oa", Int, i, lm), Call("ob", Int, i, lm)), [twice(), outer2("oa", "twice", 2), outer2("ob", "oa", 3), lmh], [LM]),
        "outer-two-fns": (Add(Call("twice", Int, i, lm), Call("twice", Int, i, gv), Call("oa", Int, i, lm), Mul(two, Call("oa", Int, i, gv))), [twice(), outer2("oa", "twice", 2), gg, lmh], [LM]),
        # in the language, but nothing calls them
        "unused": (F(l, lr), [mapf(), twice(), outer(), foldf(), lrh], [LR]),
        "none-used": (ln(l), [mapf(), foldf(), outer()], []),
        "other-target": (Add(Call("user", Int, i), Call("twice", Int, i, lm)), [FnDecl("user", Int, Call("twice", Int, x, gv), x), twice(), gg, lmh], [LM]),
    }
    for name, (e, lang, pools) in exprs.items():
        for choice in itertools.product(*pools):
            ps = lambda: FnDeclRecursive("ps", ir.Bool, Eq(r_, e), r_, i, l)
            inv = lambda: FnDeclRecursive("inv0", ir.Bool, Or(Gt(i, ln(l)), Le(r_, e)), r_, i, l)
            vc = And(Call("ps", ir.Bool, r_, i, l), Or(Call("inv0", ir.Bool, r_, i, l), Lt(r_, IntLit(4))))
            orders = list(itertools.permutations(lang))
            for k, perm in enumerate(orders):
                cands = [ps(), inv(), *choice]
                if k % 2:
                    cands.reverse()
                yield Problem(f"ho:{name}", list(perm), cands, vc, [r_, i, l])


def clashes():
    """Parameters and variables named like functions."""
    ga = FnDecl("ga", Int, Add(Var("gb", Int), one), Var("gb", Int))
    gb = FnDecl("gb", Int, Mul(Call("ga", Int, Var("gc", Int)), two), Var("gc", Int))
    gc = FnDecl("gc", Int, Ite(Lt(Var("ps", Int), one), Call("gb", Int, Var("ps", Int)), Var("inv0", Int)), Var("ps", Int), Var("inv0", Int))
    for a, b in (("ga", "gb"), ("inv0", "gc"), ("ps", "ga"), ("gc", "ps")):
        va, vb = Var(a, Int), Var(b, Int)
        ps = FnDeclRecursive("ps", ir.Bool, Eq(va, Add(one, vb)), va, vb)
        inv = FnDeclRecursive("inv0", ir.Bool, Or(Le(va, vb), Eq(Mul(two, va), vb)), va, vb)
        vc = And(Call("ps", ir.Bool, x, y), Call("inv0", ir.Bool, y, x), Eq(Call("gc", Int, x, y), Call("gb", Int, x)))
        for lang in itertools.permutations([ga, gb, gc]):
            for cands in ([ps, inv], [inv, ps]):
                yield Problem(f"clash:{a},{b}", list(lang), cands, vc, [x, y])


def problems():
    for g in (first_order, candidates_order, uninterpreted, axioms, higher_order, clashes):
        yield from g()


PRELUDE = []


def base_script(interp):
    return Script(interp=dict(BUILTIN, **interp), use_bodies=True)


def show_decl(d):
    return f"{type(d).__name__} {d.name()}({', '.join(a.name() for a in d.arguments())}) = {d.body()}"


def snapshot(p):
    return [str(e) for e in (*p.lang, *p.cands, p.vc)] + [[id(e) for e in p.lang], [id(e) for e in p.cands]]


def write(p):
    """The text handed to the verifier, and what verify_synth_result answers for each verifier answer."""
    seen = []

    def verifier(argv):
        seen.append(open(argv[-1]).read())
        return 0, b"unsat\n", b""

    w = World(lambda proc: [], (), verifier)
    d = {c.name(): c.body() for c in p.cands}
    with w, quiet():
        ans, _ = verify_synth_result("job", p.lang, set(p.vs), [], p.vc, p.cands, "cvc5", "./", p.cands, d,
                                     generate_types([*p.lang, *p.cands]), 0)
    if len(seen) != 1 or ans != "unsat":
        raise AssertionError(f"the verifier was called {len(seen)} times, the answer is {ans}")
    return seen[0]


def reference(p):
    s = LSem(dict(p.interp))
    for d in (*p.lang, *p.cands):
        if not isinstance(d, Axiom) and d.body() is not None:
            s.declare(d)
    return s


def probes(p, ref):
    """Assignments in which the result variable is what a candidate says it is, or next to it."""
    out = []
    for c in p.cands:
        b = c.body()
        if type(b) is Eq and isinstance(b.args[0], Var) and b.args[0].name() in {v.name() for v in p.vs}:
            e, n = ref.compile(b.args[1]), b.args[0].name()
            for row in rows([v for v in p.vs if v.name() != n], 60):
                try:
                    v = e({**row, n: 0})
                except Undef:
                    continue
                if type(v) is int:
                    out += [{**row, n: w} for w in (v, v + 1)]
    return out


def run(chunk):
    res = Res()
    os.chdir(env.scratch())
    for p in chunk:
        res.add("states")
        ref = reference(p)
        want_vc = ref.compile(p.vc)
        rs = rows(p.vs) + probes(p, ref)
        wants = []
        for row in rs:
            try:
                wants.append(bool(want_vc(row)))
            except Undef:
                wants.append(None)
        axs = [(a, ref.compile(a.e())) for a in p.lang if isinstance(a, Axiom)]
        before = snapshot(p)
        describe = "; ".join(show_decl(d) if not isinstance(d, Axiom) else str(d) for d in (*p.lang, *p.cands))
        try:
            text = write(p)
        except Exception as ex:
            if not from_repo(ex):
                raise
            res.bad(f"write:{p.key}", f"{type(ex).__name__}: {ex} for {describe}")
            continue
        if snapshot(p) != before:
            res.bad(f"changes-input:{p.key}", f"writing the file changed {[b for a, b in zip(before, snapshot(p)) if a != b][:2]} from {[a for a, b in zip(before, snapshot(p)) if a != b][:2]}")
        try:
            sc = base_script(p.interp).load(text)
        except (SortError, Unbound) as ex:
            res.bad(f"ill-formed:{p.key}", f"{ex} for {describe}\n{text[-1500:]}")
            continue
        cmds = [str(c[0]) for c in sc.commands if str(c[0]) == "check-sat"]
        if cmds != ["check-sat"]:
            res.bad(f"commands:{p.key}", f"{sc.commands}")
        if sorted(v for v in sc.vars if sc.vars[v] is not None and v in {q.name() for q in p.vs}) != sorted(q.name() for q in p.vs):
            res.bad(f"vars:{p.key}", f"{sorted(sc.vars)}")
        goal, _ = sc.asserts[-1]
        if p.ask_cvc5:
            ask_cvc5(p, text, any(w is False for w in wants), describe, res)
        for row, want in zip(rs, wants):
            if want is None:
                continue
            res.add("transitions")
            try:
                got = goal(row)
            except Undef:
                continue
            except RecursionError:
                got = "endless recursion"
            if got is want or got not in (True, False):
                res.bad(f"value:{p.key}", f"at {row} the condition is {want} but the file asserts {got}: {describe}\n{text[-1800:]}")
                break
        # the axioms of the problem: the last quantified asserts before the goal
        mine = [a for a in sc.asserts[:-1]][-len(axs):] if axs else []
        for a, f in axs:
            vs = a.vars()
            if not any(isinstance(q, Quant) and [n for n, _ in q.bound] == [v.name() for v in vs] and agrees(q.f, f, rows(vs, 60)) for q, _ in mine):
                res.bad(f"axiom:{p.key}", f"no axiom of the file means {a}: {describe}\n{text[-1500:]}")
        res.outcome(p.key.split(":")[0])
    return res


def ask_cvc5(p, text, refuted, describe, res):
    """The real verifier accepts the file, and does not prove a condition that fails on some input."""
    d = env.scratch()
    f = os.path.join(d, "q.smt")
    with open(f, "w") as o:
        o.write(text)
    q = subprocess.run(["cvc5", "--lang=smt", "--tlimit=1000", f], capture_output=True, text=True, timeout=60)
    out = (q.stdout + q.stderr).strip()
    res.add("traces")
    first = out.split("\n")[0] if out else ""
    res.outcome("cvc5:" + (first if first in ("sat", "unsat", "unknown") else "timeout" if "timeout" in out else "other"))
    errors = [t for t in out.split("\n") if "rror" in t and "Cannot get model" not in t and "interrupted" not in t]
    if errors:
        res.bad(f"cvc5-rejects:{p.key}", f"{out[:500]} for {describe}")
    elif first == "unsat" and refuted and not p.interp:
        res.bad(f"cvc5-proves:{p.key}", f"the condition fails on an input, cvc5 answers unsat: {describe}")


def agrees(got, want, rs):
    n = 0
    for row in rs:
        try:
            a, b = got(row), want(row)
        except Undef:
            continue
        n += 1
        if a is not b:
            return False
    return n > 0


def body(chk):
    ps = list(problems())
    per = 3 if chk.tier == "quick" else 10**9
    count = {}
    for p in ps:
        count[p.key] = count.get(p.key, 0) + 1
        p.ask_cvc5 = count[p.key] <= (per if not p.key.startswith("deps") else per // 3)
    chk.assume("functions as values: names of first-order functions passed to functions calling them; lambdas left in candidates are not supported by the SMT file",
               "no mutual recursion between target functions (the file has no define-funs-rec)",
               "cvc5 itself runs on a fixed number of files per family (one second each); the other files are judged by the evaluator alone")
    chk.pmap(run, env.chunks(ps, max(1, len(ps) // 64)))
    chk.finish(rule="every first-order dependency graph over three functions in every order; candidates and helpers in every order; every listed use of functions as values")


if __name__ == "__main__":
    env.main("P13", body)
