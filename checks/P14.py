"""P14: the grammars written for Rosette and for SyGuS derive exactly the expressions of the Choose tree."""
import os
import subprocess
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import env
from mc.env import Res, quiet

from metalift import ir  # noqa: E402
from metalift.ir import Choose  # noqa: E402
from mc import emit, exprs as X, grammar as G  # noqa: E402
from mc.irsem import free_vars  # noqa: E402
from mc.sexp import read_all  # noqa: E402
from mc.smt import Script, SortError, Unbound  # noqa: E402
from checks import P10  # noqa: E402

Op = X.Op
CH = [Op(f"pick{n}{k}", k, (k,) * n, Choose, {"choose"}) for k in ("int", "bool", "list", "t2", "set") for n in (1, 2)]
CH += [Op("pick3int", "int", ("int",) * 3, Choose, {"choose"})]
BY = {o.name: o for o in X.OPS}
RICH = ["Add", "Sub", "Lt", "And", "Not", "Ite", "Eq", "g", "pair_of", "Tuple2", "Get2.0", "list_get", "list_length", "list_tail",
        "list_append", "Let", "apply", "set-insert", "set-member", "EqS", "EqL", "Implies", "And3", "Mul", "Or"]
FEW = ["Add", "Lt", "Ite", "g", "Not"]


class Space(X.Space):
    """Expressions with at least one choice; the leaves are few."""

    def __init__(self, ops, leaf):
        super().__init__(ops, rich=0)
        self.leaf = leaf


def trees(ops, size):
    sp = X.Space([BY[n] for n in ops] + CH, rich=1)
    for x in sp.all(size, ("int", "bool", "list", "t2", "set")):
        if "choose" in X.used_tags(x):
            yield x


def swap_leaves(e, m):
    """Rename variables."""
    if isinstance(e, ir.Var):
        return ir.Var(m.get(e.name(), e.name()), e.type)
    if isinstance(e, ir.Expr) and not isinstance(e, ir.Lit):
        return G.rebuild(e, [swap_leaves(a, m) if isinstance(a, ir.Expr) else a for a in e.args])
    return e


def params_of(e, extra=()):
    vs = dict(free_vars(e))
    for n, t in extra:
        vs.setdefault(n, t)
    return [ir.Var(n, t) for n, t in vs.items()]


def escapes(e, bound=()):
    """Whether an alternative uses a variable that a Let around the choice binds (no grammar can say that)."""
    if isinstance(e, Choose):
        return bool(set(bound) & set(free_vars(e))) or any(escapes(a, bound) for a in e.args)
    if isinstance(e, ir.Let):
        return escapes(e.args[1], bound) or escapes(e.args[2], tuple(bound) + (e.args[0].name(),))
    return isinstance(e, ir.Expr) and any(escapes(a, bound) for a in e.args if isinstance(a, ir.Expr))


def free_types(e, out=None, bound=()):
    out = {} if out is None else out
    if isinstance(e, ir.Var):
        if e.name() not in bound:
            out.setdefault(e.name(), e.type)
    elif isinstance(e, ir.Let):
        free_types(e.args[1], out, bound)
        free_types(e.args[2], out, tuple(bound) + (e.args[0].name(),))
    elif isinstance(e, ir.Expr):
        for a in e.args:
            free_types(a, out, bound)
    return out


def explore(r, key, e, smt_script):
    if G.count(e) > 400:
        r.add("too_many_words")
        return
    if escapes(e):
        return
    fv = free_types(e)
    args = [ir.Var(n, t) for n, t in fv.items()] + [ir.Var("unused", X.Int)]
    r.add("states")
    with quiet():
        exps = list(G.expansions(e))
        syn = ir.Synth("candidate", e, *args)
    # Rosette
    try:
        with quiet():
            text = syn.to_rosette({})
            want = {G.freeze(read_all(x.to_rosette())[0]) for x in exps}
        name, params, start, rules, words = G.rosette(text)
    except G.GrammarError as ex:
        r.bad(f"rosette:{key}", f"{ex}: {text}")
        return
    except G.TooMany:
        r.add("too_many_words")
        return
    except Exception as ex:
        r.bad(f"rosette:{key}", f"{type(ex).__name__}: {ex} from to_rosette of {syn}")
        return
    got = set(words)
    r.add("transitions", len(got))
    if name != "candidate_gram" or params != [a.name() for a in args]:
        r.bad(f"rosette-head:{key}", text)
    if got != want:
        r.bad(f"rosette:{key}", f"missing {sorted(want - got, key=repr)[:3]}, too many {sorted(got - want, key=repr)[:3]}\n{text}")
    r.outcome(f"{len(got)} words")
    # SyGuS
    if smt_script is None:
        return
    try:
        with quiet():
            text = syn.toSMT()
            want = {G.freeze(read_all(x.toSMT())[0]) for x in exps}
        s = smt_script()
        s.command(read_all(text)[0])
        nm, ps, res, start, prods = s.synths[-1]
        words = G.sygus(start, prods)
    except (SortError, Unbound, G.GrammarError) as ex:
        r.bad(f"sygus:{key}", f"{ex}: {text}")
        return
    except G.TooMany:
        return
    except Exception as ex:
        r.bad(f"sygus:{key}", f"{type(ex).__name__}: {ex} from toSMT of {syn}")
        return
    got = set(words)
    r.add("transitions", len(got))
    if nm != "candidate" or [p for p, _ in ps] != [a.name() for a in args] or [s_ for _, s_ in ps] != [s.sort(read_all(P10.SORT[k])[0]) for k in kinds(args)]:
        r.bad(f"sygus-head:{key}", text)
    if got != want:
        r.bad(f"sygus:{key}", f"missing {sorted(want - got, key=repr)[:3]}, too many {sorted(got - want, key=repr)[:3]}\n{text}")


def kinds(args):
    from mc.irsem import type_kind

    for a in args:
        k = type_kind(a.type)
        yield {"tuple": "t2"}.get(k, k)


def script():
    return P10.base()


def fresh_script():
    """A script with the prelude but without the variables (they are the parameters)."""
    from mc.irsem import BUILTIN

    s = Script(interp=dict(BUILTIN, **emit.REFERENCE), use_bodies=False)
    if not _B:
        _B.append(read_all(P10.prelude() + P10.header()))
    for c in _B[0]:
        if str(c[0]) != "assert":
            s.command(c)
    return s


_B = []


class Reuse:
    """One script for many synth-funs: the function is forgotten after each."""

    def __init__(self):
        self.s = fresh_script()

    def __call__(self):
        self.s.sig.pop("candidate", None)
        self.s.synths.clear()
        return self.s


def run_tree(chunk):
    r = Res()
    sc = Reuse()
    for x in chunk:
        e = X.build(x)
        fn = any(o == "apply" for o in P10.used(x))
        explore(r, emit.key_of(x), e, None if fn else sc)
    return r


NAMES = ["v0", "v1", "v2", "v", "rv", "_v0", "v00", "V0", "v0_", "candidate_gram", "vv0", "__v0", "rv0"]


def run_names(job):
    """Parameters and called functions named like the grammar's own symbols."""
    r = Res()
    a, b = job
    x, y = ir.Var(a, X.Int), ir.Var(b, X.Int)
    inner = Choose(x, ir.IntLit(1))
    bodies = {
        "top": Choose(x, y), "shared": ir.Add(inner, Choose(y, inner)), "nested": Choose(ir.Add(Choose(x, y), x), Choose(y, ir.IntLit(2))),
        "cond": ir.Ite(Choose(ir.Lt(x, y), ir.Eq(x, y)), Choose(x, ir.IntLit(0)), y),
        "let": ir.Let(ir.Var(b, X.Int), Choose(x, ir.IntLit(3)), ir.Add(ir.Var(b, X.Int), Choose(x, ir.IntLit(5)))),
    }
    for k, e in bodies.items():
        explore(r, f"names:{k}:{a},{b}", e, fresh_script)
    if a == b:
        def sc():
            s = fresh_script()
            s.load(f"(declare-fun {a} (Int) Int)")
            return s

        z = ir.Var("x", X.Int)
        e = Choose(ir.Call(a, X.Int, Choose(z, ir.IntLit(1))), z)
        explore(r, f"names:call:{a}", e, sc)
    return r


def conformance(chk, size):
    """cvc5 must accept the synth-fun commands."""
    out = ["(set-logic ALL)"]
    from metalift import utils
    import importlib.resources as resources

    out.append(resources.read_text(utils, "tuples.smt"))
    from mc.smt import Script  # noqa: F811

    for n, (rk, a, _) in X.USER.items():
        if n in ("g", "pair_of"):
            ps = " ".join(f"(a{i} {P10.SORT[k]})" for i, k in enumerate(a))
            out.append(f"(define-fun {n} ({ps}) {P10.SORT[rk]} {'a0' if n == 'g' else '(tuple2 a0 a1)'})")
    n = 0
    for x in trees([o for o in RICH if not o.startswith("list") and o not in ("apply", "EqL")], size):
        if {"list_length"} & set(P10.used(x)) or any(t.endswith("list") for t in P10.used(x)):
            continue
        e = X.build(x)
        if escapes(e):
            continue
        args = [ir.Var(nm, t) for nm, t in free_types(e).items()]
        if any(nm == "l" for nm in free_types(e)):
            continue
        with quiet():
            t = ir.Synth(f"candidate{n}", e, *args).toSMT()
        out.append(t)
        n += 1
    d = env.scratch()
    p = os.path.join(d, "q.sl")
    open(p, "w").write("\n".join(out) + "\n(check-synth)\n")
    q = subprocess.run(["cvc5", "--lang=sygus2", "--parse-only", p], capture_output=True, text=True, timeout=300)
    chk.add("traces", n)
    if q.returncode != 0 or "error" in (q.stdout + q.stderr).lower():
        chk.bad("cvc5-rejects", (q.stdout + q.stderr)[:600])


def body(chk):
    th = chk.tier == "thorough"
    xs = list(trees(RICH, 7 if th else 6))
    chk.pmap(run_tree, env.chunks(xs, 500))
    xs = [x for x in trees(FEW, 9 if th else 8)]
    chk.pmap(run_tree, env.chunks(xs, 500))
    chk.pmap(run_names, [(a, b) for a in NAMES for b in NAMES])
    conformance(chk, 6 if th else 5)
    chk.assume("grammars with at most 400 words; names that are neither Racket, Rosette nor SMT-LIB vocabulary")
    chk.finish(rule="every Choose tree of the size bound over two operation sets (all kinds of nodes; deep sharing); parameter names from a "
                    "family that resembles the generated symbols; the derivation language is enumerated and compared as a set")


if __name__ == "__main__":
    env.main("P14", body)
