"""P17: what cvc5 prints for a candidate is read back as the function it means."""
import itertools
import os
import subprocess
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import env
from mc.env import Res, from_repo, quiet

from metalift import ir  # noqa: E402
from metalift import synthesize_cvc5 as SC  # noqa: E402
from mc import emit, exprs as X  # noqa: E402
from mc.irsem import Sem, Undef  # noqa: E402
from mc.sexp import Sym, read_all, show  # noqa: E402

KINDS = ("int", "bool", "set", "t1", "t2")
USER = {n: v for n, v in X.USER.items() if {v[0], *v[1]} <= set(KINDS)}
USER.update({"tuple_sum": ("int", ("t2",), lambda t: t[0] + 10 * t[1]), "tuple2_get7": ("int", ("int",), lambda a: a + 70),
             "set_size": ("int", ("set",), lambda s: len(s)), "lets": ("int", ("int", "int"), lambda a, b: 5 * a - b),
             "tuplet": ("t2", ("int", "int"), lambda a, b: X.Tup((b + 1, a)))})
FN = dict({n: f for n, (r, a, f) in USER.items()}, konst=lambda: 5, flag=lambda: True, **{f"tuple{n}": lambda *a: X.Tup(a) for n in (1, 2)})
NOT = {"make2", "Tuple3", "apply", "ite"}


def ops():
    base = X.core_ops() + [o for o in X.set_ops()] + [o for o in X.tuple_ops() if o.name.startswith(("Tuple", "Get", "EqT", "IteT"))]
    base += [X.C(n, r, *a) for n, (r, a, _) in USER.items()]
    base += [X.Op("nullary", "int", (), lambda: ir.Call("konst", X.Int)), X.Op("nullaryB", "bool", (), lambda: ir.Call("flag", X.Bool))]
    return [o for o in base if o.name not in NOT and {o.res, *o.args} <= set(KINDS)]


def lang():
    out = [ir.FnDecl(n, X.TYPE[r], None, *[ir.Var(f"a{i}", X.TYPE[k]) for i, k in enumerate(a)]) for n, (r, a, _) in USER.items()]
    return out + [ir.FnDecl("konst", ir.Int, None), ir.FnDecl("flag", ir.Bool, None)]


FUNS, RETS = SC.extractFuns(lang())
ARGS = [ir.Var(n, emit.X_type(n)) for n in ("x", "y", "b", "c", "s", "t")]
SYM = {ir.Add: "+", ir.Sub: "-", ir.Mul: "*", ir.Div: "div", ir.Mod: "mod", ir.Eq: "=", ir.Lt: "<", ir.Le: "<=", ir.Gt: ">", ir.Ge: ">=",
       ir.And: "and", ir.Or: "or", ir.Not: "not", ir.Implies: "=>", ir.Ite: "ite"}
SETS = {"set-singleton": "set.singleton", "set-insert": "set.insert", "set-union": "set.union", "set-minus": "set.minus",
        "set-member": "set.member", "set-subset": "set.subset"}


def term(e):
    """The SMT-LIB term of an expression, as nested lists (this printer is the harness's own)."""
    if isinstance(e, ir.Lit):
        v = e.args[0]
        if isinstance(v, bool):
            return Sym("true" if v else "false")
        return v if v >= 0 else [Sym("-"), -v]
    if isinstance(e, ir.Var):
        return Sym(e.args[0])
    if isinstance(e, ir.Let):
        return [Sym("let"), [[Sym(e.args[0].args[0]), term(e.args[1])]], term(e.args[2])]
    if isinstance(e, ir.TupleExpr):
        return [Sym(f"tuple{len(e.args)}"), *map(term, e.args)]
    if isinstance(e, ir.TupleGet):
        return [Sym(f"tuple{len(ir.get_tuple_element_types(e.args[0].type))}_get{e.args[1].args[0]}"), term(e.args[0])]
    if isinstance(e, ir.Call):
        if e.args[0] == "set-create":
            return [Sym("as"), Sym("set.empty"), [Sym("Set"), Sym("Int")]]
        if len(e.args) == 1:
            return Sym(e.args[0])
        return [Sym(SETS.get(e.args[0], e.args[0])), *map(term, e.args[1:])]
    return [Sym(SYM[type(e)]), *map(term, e.args)]


def freeze(t):
    return tuple(map(freeze, t)) if isinstance(t, list) else (type(t).__name__, t)


def leaf(t):
    return not isinstance(t, list) or str(t[0]) in ("as",) or (str(t[0]) == "-" and len(t) == 2)


def count(t, acc):
    if leaf(t) or str(t[0]) == "let":
        return
    acc[freeze(t)] = acc.get(freeze(t), 0) + 1
    for a in t[1:]:
        count(a, acc)


def shared(t, everything):
    """cvc5's dag form: repeated subterms (or all of them) are bound by nested lets, innermost first."""
    acc, binds, names = {}, [], {}
    count(t, acc)

    def go(u, top=False):
        if leaf(u) or str(u[0]) == "let":
            return u
        f = freeze(u)
        if f in names:
            return names[f]
        v = [u[0], *[go(a) for a in u[1:]]]
        if not top and (acc[f] > 1 or everything):
            n = names[f] = Sym(f"_let_{len(names) + 1}")
            binds.append((n, v))
            return n
        return v

    body = go(t, True)
    return body, binds


def nested(body, binds):
    for n, v in reversed(binds):
        body = [Sym("let"), [[n, v]], body]
    return body


def parallel(body, binds):
    """Bindings that do not use each other share one let."""
    level = {}

    def uses(v):
        if isinstance(v, list):
            return max(map(uses, v), default=-1)
        return level.get(str(v), -1)

    for n, v in binds:
        level[str(n)] = uses(v) + 1
    for k in range(max(level.values(), default=-1), -1, -1):
        body = [Sym("let"), [[n, v] for n, v in binds if level[str(n)] == k], body]
    return body


def flat(t):
    """Associative operators written n-ary."""
    if leaf(t):
        return t
    if str(t[0]) == "let":
        return [t[0], [[n, flat(v)] for n, v in t[1]], flat(t[2])]
    args = [flat(a) for a in t[1:]]
    if str(t[0]) in ("+", "*", "and", "or"):
        args = [b for a in args for b in (a[1:] if isinstance(a, list) and a[0] == t[0] else [a])]
    return [t[0], *args]


def forms(t):
    out = {"plain": t, "flat": flat(t)}
    for name, everything in (("shared", False), ("bound", True)):
        body, binds = shared(t, everything)
        if binds:
            out[name] = nested(body, binds)
            out[name + "-parallel"] = parallel(body, binds)
            out[name + "-flat"] = flat(nested(body, binds))
    return {k: show(v) for k, v in out.items()}


def differs(got, want, rows, e):
    try:
        g = Sem(FN).compile(got)
    except Exception as ex:
        return f"it has no meaning: {type(ex).__name__}: {ex}"
    for row, w in zip(rows, want):
        if w is None:
            continue
        try:
            v = g(row)
        except Exception as ex:
            v = f"{type(ex).__name__}: {ex}"
        if type(v) is not type(w) or v != w:
            return f"at {row} it is {v}, not {w}"
    if repr(got.type) != repr(e.type):
        return f"its type is {got.type}, not {e.type}"
    return None


def values(e, rows):
    f = Sem(FN).compile(e)
    out = []
    for row in rows:
        try:
            out.append(f(row))
        except Undef:
            out.append(None)
    return out


def read(line, synths):
    with quiet():
        return SC.generateCandidates(synths, line, FUNS, RETS)


def run_terms(chunk):
    r = Res()
    for x in chunk:
        it = emit.item(x, r)
        if it is None:
            continue
        e = it.e
        want = values(e, it.rows)
        key = emit.key_of(x)
        r.add("states")
        for form, text in forms(term(e)).items():
            r.add("transitions", len(it.rows))
            line = f"(sygus-candidate (cand {text}))\n"
            try:
                decls, exprs = read(line, [ir.Synth("cand", e, *ARGS)])
            except Exception as ex:
                if not from_repo(ex):
                    raise
                r.bad(f"read:{form}:{key}", f"{type(ex).__name__}: {ex} reading {line}")
                continue
            r.outcome(form)
            if [d.name() for d in decls] != ["cand"] or list(exprs) != ["cand"]:
                r.bad(f"candidates:{form}", f"{decls} read from {line}")
                continue
            d = differs(decls[0].body(), want, it.rows, e) or differs(exprs["cand"], want, it.rows, e)
            if d:
                r.bad(f"read:{form}:{key}", f"{line} was read as {decls[0].body()}: {d}")
    return r


# --- lines with several functions
def run_lines(chunk):
    r = Res()
    i = ir.IntLit
    x, y, s = ir.Var("x", X.Int), ir.Var("y", X.Int), ir.Var("s", X.SI)
    for names, order, listed in chunk:
        bodies = [ir.Eq(ir.Add(x, i(1)), y), x, ir.Var(names[0], X.Int)]
        args = [[x, y], [x, s], [ir.Var(names[0], X.Int), x]]
        decls = [ir.Synth(n, b, *a) for n, b, a in zip(names, bodies, args)]
        line = "(sygus-candidate " + "".join(f"({names[k]} {show(term(bodies[k]))})" for k in order) + ")\n"
        r.add("states")
        r.outcome("lines")
        try:
            got, exprs = read(line, [decls[k] for k in listed])
        except Exception as ex:
            if not from_repo(ex):
                raise
            r.bad("line:crash", f"{type(ex).__name__}: {ex} reading {line}")
            continue
        want = {names[k]: (str(bodies[k]), [str(a) for a in args[k]], repr(bodies[k].type)) for k in listed}
        have = {d.name(): (str(d.body()), [str(a) for a in d.arguments()], repr(d.return_type())) for d in got}
        if have != want or len(got) != len(listed):
            r.bad("line:functions", f"{line} was read as {have}, not {want}")
        if {k: str(v) for k, v in exprs.items()} != {k: v[0] for k, v in want.items()}:
            r.bad("line:bodies", f"{line} was read as {exprs}")
    return r


def lines():
    pool = ["inv0", "inv01", "ps", "test_ps", "sygus", "candidate", "sygus-candidate", "c", "f", "let", "x0", "cand"]
    for names in itertools.permutations(pool, 3):
        for order in itertools.permutations(range(3)):
            yield names, order, (0, 1, 2)
        yield names, (0, 1, 2), (2, 0, 1)


# --- cvc5 itself
SORT = {"int": "Int", "bool": "Bool", "set": "(Set Int)", "t1": "(Tuple1 Int)", "t2": "(Tuple2 Int Int)"}
KIND_OF = {repr(X.TYPE[k]): k for k in KINDS}
PRE = """(declare-datatypes ((Tuple1 1)) ((par (T0) ((tuple1 (tuple1_get0 T0))))))
(declare-datatypes ((Tuple2 2)) ((par (T0 T1) ((tuple2 (tuple2_get0 T0) (tuple2_get1 T1))))))
"""
DEFAULT = {"int": "0", "bool": "true", "set": "(as set.empty (Set Int))", "t2": "(tuple2 0 0)", "t1": "(tuple1 0)"}


def run_cvc5(chunk):
    """Each term is the only member of a grammar; what cvc5 prints for it is read back."""
    r = Res()
    its = [it for it in (emit.item(x, r) for x in chunk) if it is not None]
    text = ["(set-logic ALL)", PRE]
    for n, (res, args, _) in USER.items():
        text.append(f"(define-fun {n} ({' '.join(f'(a{i} {SORT[k]})' for i, k in enumerate(args))}) {SORT[res]} {DEFAULT[res]})")
    text.append("(define-fun konst () Int 5)\n(define-fun flag () Bool true)")
    params = " ".join(f"({v.args[0]} {SORT[KIND_OF[repr(v.type)]]})" for v in ARGS)
    uses = " ".join(v.args[0] for v in ARGS)
    for v in ARGS:
        text.append(f"(declare-var {v.args[0]} {SORT[KIND_OF[repr(v.type)]]})")
    for k, it in enumerate(its):
        so = SORT[KIND_OF[repr(it.e.type)]]
        text.append(f"(synth-fun cand{k} ({params}) {so} ((rv {so})) ((rv {so} ({show(term(it.e))}))))")
        text.append(f"(constraint (or (= (cand{k} {uses}) (cand{k} {uses})) (< x 0)))" if k else f"(constraint (or (= (cand0 {uses}) {DEFAULT[KIND_OF[repr(it.e.type)]]}) (not (= (cand0 {uses}) {DEFAULT[KIND_OF[repr(it.e.type)]]})) (< x 0)))")
    text.append("(check-synth)")
    p = os.path.join(env.scratch(), "q.sl")
    open(p, "w").write("\n".join(text))
    q = subprocess.run(["cvc5", "--lang=sygus2", "--output=sygus", "--no-sygus-pbe", "--tlimit=60000", p], capture_output=True, text=True, timeout=100)
    ls = [l for l in q.stdout.split("\n") if "sygus-candidate" in l]
    if not ls:
        raise AssertionError(f"cvc5 printed no candidate: {(q.stdout + q.stderr)[:400]}")
    synths = [ir.Synth(f"cand{k}", it.e, *ARGS) for k, it in enumerate(its)]
    # one function at a time, so that one unreadable term does not hide the others
    asts = read_all(ls[-1])[0][1:]
    for k, it in enumerate(its):
        mine = [a for a in asts if str(a[0]) == f"cand{k}"]
        if not mine:
            continue
        r.add("traces")
        line = f"(sygus-candidate {show(mine[0])})\n"
        try:
            decls, _ = read(line, [synths[k]])
        except Exception as ex:
            if not from_repo(ex):
                raise
            r.bad(f"cvc5:{emit.key_of(it.x)}", f"{type(ex).__name__}: {ex} reading {line} for {it.e}")
            continue
        d = differs(decls[0].body(), values(it.e, it.rows), it.rows, it.e) if decls else "nothing"
        r.outcome("cvc5")
        if d:
            r.bad(f"cvc5:{emit.key_of(it.x)}", f"{line} for {it.e} was read as {decls}: {d}")
    return r


def body(chk):
    sp = X.Space(ops())
    size = 4 if chk.tier == "quick" else 5
    xs = list(sp.all(size, KINDS))
    chk.pmap(run_terms, env.chunks(xs, 2000))
    if chk.tier == "quick":  # size five over the operators that matter for sharing
        few = X.Space([o for o in ops() if o.name in ("Add", "Mul", "And", "Or", "Lt", "Not", "Ite", "Let", "g", "Tuple2", "Get2.1", "set-insert")], rich=1)
        chk.pmap(run_terms, env.chunks([x for k in ("int", "bool") for x in few.of(k, 5, False)], 2000))
    chk.pmap(run_lines, env.chunks(lines(), 300))
    real = [x for x in sp.all(3 if chk.tier == "quick" else 4, KINDS) if not isinstance(x, ir.Lit)]
    chk.pmap(run_cvc5, env.chunks(real, 60))
    chk.assume("integers, booleans, sets of integers and tuples of integers: SyGuS files have no list functions; empty sets are sets of integers")
    chk.finish(rule=f"all terms of at most {size} nodes in every printed form (plain, n-ary, shared by nested or parallel lets); all lines of three functions over twelve names")


if __name__ == "__main__":
    env.main("P17", body)
