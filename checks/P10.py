"""P10: the SMT-LIB text of every expression and function is well-sorted and means what the IR means."""
import os
import subprocess
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import env
from mc.env import Res, quiet

from metalift import ir, utils  # noqa: E402
import importlib.resources as resources  # noqa: E402
from mc import emit, exprs as X  # noqa: E402
from mc.irsem import BUILTIN, Tup, Undef, type_kind  # noqa: E402
from mc.sexp import read_all, show  # noqa: E402
from mc.smt import Script, SortError, Unbound  # noqa: E402

PRELUDE = ("tuples.smt", "integer-fn-axioms.smt", "list-axioms.smt")
SORT = {"int": "Int", "bool": "Bool", "list": "(MLList Int)", "matrix": "(MLList (MLList Int))", "set": "(Set Int)",
        "t2": "(Tuple2 Int Int)", "t3": "(Tuple3 Int (MLList Int) Bool)"}
SKIP = {"nosmt"}


def prelude():
    return "\n".join(resources.read_text(utils, p) for p in PRELUDE)


def header():
    out = []
    for n, (r, a, _) in X.USER.items():
        out.append(f"(declare-fun {n} ({' '.join(SORT[k] for k in a)}) {SORT[r]})")
    out.append("(declare-fun fun (Int) Int)")
    out.append("(declare-const konst Int)")
    return "\n".join(out)


def variables(vars=emit.KIND):
    return "\n".join(f"(declare-const {n} {SORT[k]})" for n, k in emit.KIND.items() if k in SORT)


_BASE = []


def base(extra=""):
    s = Script(interp=dict(BUILTIN, **emit.REFERENCE), use_bodies=False)
    if not _BASE:
        _BASE.append((read_all(prelude() + header()), read_all(variables())))
    for c in _BASE[0][0]:
        if str(c[0]) != "assert":
            s.command(c)
    if extra:
        s.load(extra)
    for c in _BASE[0][1]:
        s.command(c)
    return s


def consts(row):
    return dict(row, konst=5)


def run_expr(chunk):
    r = Res()
    s = base()
    for x in chunk:
        it = emit.item(x, r)
        if it is None:
            continue
        r.add("states")
        k = emit.key_of(x)
        try:
            with quiet():
                text = it.e.toSMT()
        except Exception as ex:
            r.bad(f"emit:{k}", f"{type(ex).__name__}: {ex} from toSMT of {it.e}")
            continue
        try:
            terms = read_all(text)
            if len(terms) != 1:
                raise SortError(f"{len(terms)} terms")
            f, sort = s.term(terms[0], {})
        except (SortError, Unbound) as ex:
            r.bad(f"sort:{k}", f"{ex}: {text}")
            continue
        for row, want in it.reference():
            r.add("transitions")
            try:
                got = f(consts(row))
            except Undef as u:
                got = f"undefined ({u})"
            if type(got) != type(want) or got != want:
                r.bad(f"value:{k}", f"{text} with {row} is {got}, the expression means {want}")
                break
            r.outcome(str(want)[:20])
    return r


def run_fn(chunk):
    """Function definitions around every small expression, plain and recursive, plus declarations."""
    r = Res()
    for x in chunk:
        it = emit.item(x, r)
        if it is None:
            continue
        k = emit.key_of(x)
        params = [ir.Var(n, emit.X_type(n)) for n in it.names]
        for cls in (ir.FnDecl, ir.FnDeclRecursive):
            if not params and cls is ir.FnDeclRecursive:
                continue
            r.add("states")
            try:
                with quiet():
                    text = cls("defined", it.e.type, it.e, *params).toSMT()
            except Exception as ex:
                r.bad(f"emit:{cls.__name__}:{k}", f"{type(ex).__name__}: {ex} from toSMT of {cls.__name__} of {it.e}")
                continue
            try:
                s = base(text)
            except (SortError, Unbound) as ex:
                r.bad(f"sort:{cls.__name__}:{k}", f"{ex}: {text}")
                continue
            if s.sig.get("defined", [None])[0] is None or len(s.sig["defined"][0]) != len(params):
                r.bad(f"define:{cls.__name__}:{k}", text)
                continue
            for row, want in it.reference():
                r.add("transitions")
                try:
                    f, _ = s.term(read_all("defined" if not params else f"(defined {' '.join(it.names)})")[0], {})
                    got = f(dict(row, konst=5))
                except Undef as u:
                    got = f"undefined ({u})"
                if type(got) != type(want) or got != want:
                    r.bad(f"value:{cls.__name__}:{k}", f"{text} at {row} is {got}, not {want}")
                    break
    return r


def run_names(names):
    """User functions with names that resemble the library's: calls, and a recursive definition."""
    r = Res()
    for n in names:
        if n in base().sig:
            continue
        for res, args, e in [c[1:] for c in emit.family_calls([n])]:
            f = emit.stand_in(res)
            it = emit.Plain(e, {n: f})
            r.add("states")
            with quiet():
                text = e.toSMT()
            s = base()
            s.interp[n] = f
            s.load(f"(declare-fun {n} ({' '.join(SORT[k] for k in args)}) {SORT[res]})")
            compare_text(r, f"names:{n}", s, text, it)
        d, e, f = emit.recursive(n)
        r.add("states")
        with quiet():
            text = d.toSMT()
        try:
            s = base(text)
        except (SortError, Unbound) as ex:
            r.bad(f"names:{n}", f"{ex}: {text}")
            continue
        compare_text(r, f"names:{n}", s, e.toSMT(), emit.Plain(e, {n: f}))
    return r


def compare_text(r, key, s, text, it):
    try:
        f, sort = s.term(read_all(text)[0], {})
    except (SortError, Unbound) as ex:
        r.bad(key, f"{ex}: {text}")
        return
    for row, want in it.reference():
        r.add("transitions")
        try:
            got = f(consts(row))
        except Undef as u:
            got = f"undefined ({u})"
        if type(got) != type(want) or got != want:
            r.bad(key, f"{text} with {row} is {got}, the expression means {want}")
            break


def declarations(chk):
    """Uninterpreted functions and axioms over every combination of argument sorts."""
    import itertools

    kinds = list(SORT)
    n = 0
    for cls in (ir.FnDecl, ir.FnDeclRecursive):
        for res in kinds:
            for ar in (0, 1, 2):
                for ks in itertools.product(kinds, repeat=ar):
                    n += 1
                    chk.add("states")
                    chk.add("transitions")
                    what = f"{cls.__name__} ({' '.join(ks)}) {res}"
                    try:
                        with quiet():
                            text = cls("un", X.TYPE[res], None, *[ir.Var(f"v{i}", X.TYPE[k]) for i, k in enumerate(ks)]).toSMT()
                        s = base(text)
                    except (SortError, Unbound) as ex:
                        chk.bad(f"declare:{what}", f"{ex}: {text}")
                        continue
                    t = base()
                    want = ([t.sort(read_all(SORT[k])[0]) for k in ks], t.sort(read_all(SORT[res])[0]))
                    if s.sig.get("un") != want:
                        chk.bad(f"declare:{what}", f"{text} declares {s.sig.get('un')}, not {want}")
    # axioms: the asserted formula must be the universal closure over exactly the given variables
    from mc.smt import Quant

    for ks in itertools.product([k for k in kinds], repeat=2):
        vs = [ir.Var(f"v{i}", X.TYPE[k]) for i, k in enumerate(ks)]
        body = ir.And(*[ir.Eq(v, v) for v in vs])
        with quiet():
            text = ir.Axiom(body, *vs).toSMT()
        chk.add("states")
        try:
            s = base(text)
            (f, _), = s.asserts
            ok = isinstance(f, Quant) and f.kind == "forall" and [b[0] for b in f.bound] == ["v0", "v1"] and [
                b[1] for b in f.bound] == [s.sort(read_all(SORT[k])[0]) for k in ks]
        except (SortError, Unbound, ValueError) as ex:
            ok, f = False, ex
        if not ok:
            chk.bad(f"axiom:{ks}", f"{text}: {f}")


# --- the evaluator against cvc5
def lit(v, kind=None):
    if isinstance(v, bool):
        return "true" if v else "false"
    if isinstance(v, int):
        return str(v) if v >= 0 else f"(- {-v})"
    if isinstance(v, frozenset):
        t = "(as set.empty (Set Int))"
        for i in sorted(v):
            t = f"(set.union (set.singleton {lit(i)}) {t})"
        return t
    if isinstance(v, Tup):
        return f"(tuple{len(v)} {' '.join(lit(i) for i in v)})"
    t = "(as nil (MLList Int))" if not (kind == "matrix" or v and isinstance(v[0], tuple)) else "(as nil (MLList (MLList Int)))"
    for i in reversed(v):
        t = f"(cons {lit(i)} {t})"
    return t


def cvc5(text, chk, what, timeout=200):
    d = env.scratch()
    p = os.path.join(d, "q.smt2")
    with open(p, "w") as f:
        f.write(text)
    q = subprocess.run(["cvc5", "--lang", "smt", "--produce-models", "--tlimit", str(timeout * 1000), p], capture_output=True,
                       text=True, timeout=timeout + 20)
    return q.stdout + q.stderr


def conformance(chk, size):
    """cvc5 itself must accept every emitted term, and agree on the values of the list-free ones."""
    items = [x for x in emit.items(size, SKIP)]
    texts = []
    for x in items:
        try:
            it = emit.Item(x)
            with quiet():
                texts.append((it, it.e.toSMT()))
        except Exception:
            pass  # reported by the exploration
    out = ["(set-option :incremental true)", "(set-logic ALL)", prelude(), header(), variables()]
    for i, (it, t) in enumerate(texts):
        out.append(f"(push 1)\n(assert (= {t} {t}))\n(pop 1)")
    ans = cvc5("\n".join(out), chk, "parse")
    chk.add("traces", len(texts))
    if "error" in ans.lower():
        chk.bad("cvc5-rejects", ans[:800])
        return
    # values
    plain = [(it, t) for it, t in texts if not (set(used(it.x)) & LISTY)]
    out = ["(set-logic ALL)", resources.read_text(utils, "tuples.smt"),
           "(declare-datatypes ((MLList 1)) ((par (T) ((cons (head T) (tail (MLList T))) (nil)))))",
           "(define-fun list_empty () (MLList Int) (as nil (MLList Int)))",
           "(define-fun matrix_empty () (MLList (MLList Int)) (as nil (MLList (MLList Int))))"]
    out += ["(define-fun g ((a Int)) Int (+ (* 3 a) 1))", "(define-fun pair_of ((a Int) (b Int)) (Tuple2 Int Int) (tuple2 b a))",
            "(define-fun integer_half ((a Int)) Int (+ a 5))", "(define-fun invert ((a Int)) Int (- a))",
            "(define-fun psum ((a Int) (b Int)) Int (- (* 2 a) b))", "(define-fun item ((a Int)) Bool (> a 0))",
            "(define-fun tensor3d_weight ((a Int)) Int (* a 5))", "(define-fun fun ((a Int)) Int (+ (* a a) 1))",
            "(define-fun konst () Int 5)"]
    n = 0
    wants = []
    for it, t in plain:
        for row, want in it.reference()[:3]:
            b = " ".join(f"({k} {lit(v)})" for k, v in row.items())
            out.append(f"(push 1)\n(assert (not (= {f'(let ({b}) {t})' if b else t} {lit(want, type_kind(it.e.type))})))\n(check-sat)\n(pop 1)")
            wants.append((t, row, want))
    out[0:1] = ["(set-option :incremental true)", "(set-logic ALL)"]
    ans = cvc5("\n".join(out), chk, "values").split("\n")
    ans = [a for a in ans if a.strip()]
    chk.add("traces", len(wants))
    if len(ans) != len(wants):
        chk.bad("cvc5-answers", f"{len(ans)} answers for {len(wants)} queries: {ans[-3:]}")
        return
    for a, (t, row, want) in zip(ans, wants):
        if a.strip() != "unsat":
            chk.bad("cvc5-disagrees", f"cvc5 does not agree ({a}) that {t} with {row} is {want}")
            return


LISTY = {"EqM"} | {o.name for o in X.seq_ops() if o.name not in ("EqL", "IteL")} | {"list_total", "vec_first", "matrix_rows",
                                                                                     "setter", "mapper"}


def used(x):
    if isinstance(x, tuple):
        yield x[0].name
        for a in x[1]:
            yield from used(a)


def body(chk):
    size = 6 if chk.tier == "thorough" else 5
    its = emit.items(size, SKIP)
    chk.pmap(run_expr, env.chunks(its, 400))
    small = emit.items(size - 1, SKIP)
    chk.pmap(run_fn, env.chunks(small, 60))
    chk.pmap(run_names, env.chunks(emit.family(), 12))
    declarations(chk)
    conformance(chk, 4 if chk.tier == "thorough" else 3)
    chk.assume(
        "sequence operations inside their domain (indices and slice bounds within the sequence); division and modulo by non-zero",
        "values: integers 0..3 and literals -1, 0, 2; lists up to three elements; set and tuple variables over two or three values")
    chk.finish(rule=f"every typed expression of at most {size} nodes over {len(X.OPS)} operations (Let, calls, tuples, sets, lists, "
                    "matrices, user functions with builtin-like names), each as a term, and up to one node less as function bodies")


if __name__ == "__main__":
    env.main("P10", body)
