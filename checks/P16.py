"""P16: what Rosette prints for a solution is read back as the expression it means."""
import itertools
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import env
from mc.env import Res, from_repo, quiet

from metalift import ir  # noqa: E402
from metalift import synthesize_rosette as SR  # noqa: E402
from metalift.ir import Choose  # noqa: E402
from metalift.synthesis_common import generate_types  # noqa: E402
from mc import emit, exprs as X, grammar as G  # noqa: E402
from mc.irsem import Sem, Undef, type_kind  # noqa: E402
from mc.sexp import Sym, read_all, show  # noqa: E402
from mc.world import World, outputs  # noqa: E402
from checks import P14  # noqa: E402
from checks.P10 import used  # noqa: E402

REF = emit.rosette_reference()


def fns():
    out = [ir.FnDecl(n, X.TYPE[r], None, *[ir.Var(f"a{i}", X.TYPE[k]) for i, k in enumerate(a)]) for n, (r, a, _) in X.USER.items()]
    return out + [ir.FnDecl("konst", ir.Int, None)]


FT = generate_types(fns())
VT = generate_types([ir.Var(n, emit.X_type(n)) for n in emit.KIND] + [ir.Var("unused", X.Int)])


def printed(e):
    """The text Racket's printer gives for an emitted expression."""
    with quiet():
        return show(read_all(e.to_rosette())[0])


def kind(t):
    return repr(t)


def same(got, e, rows):
    """None, or how the two expressions differ."""
    f = Sem(REF).compile(e)
    try:
        g = Sem(REF).compile(got)
    except Exception as ex:
        return f"it has no meaning: {type(ex).__name__}: {ex}"
    for row in rows:
        try:
            w = f(row)
        except Undef:
            continue
        try:
            v = g(row)
        except Exception as ex:
            v = f"{type(ex).__name__}: {ex}"
        if type(v) is not type(w) or v != w:
            return f"at {row} it is {v}, not {w}"
    if kind(got.type) != kind(e.type):
        return f"its type is {got.type}, not {e.type}"
    return None


def read(text, choices):
    with quiet():
        return SR.to_expr(SR.generate_ast(text)[0], FT, VT, choices)


def run_terms(chunk):
    r = Res()
    for x in chunk:
        it = emit.item(x, r)
        if it is None:
            continue
        for e in [it.e, *emit.shadowed(it.e)]:
            r.add("states")
            key = emit.key_of(x)
            try:
                t = printed(e)
                got = read(f"(define (candidate x) {t})", {})
            except Exception as ex:
                if not from_repo(ex):
                    raise
                r.bad(f"read:{key}", f"{type(ex).__name__}: {ex} reading the emitted {e}")
                continue
            r.add("transitions", len(it.rows))
            d = same(got, e, it.rows)
            r.outcome(e.type.__name__ if hasattr(e.type, "__name__") else str(e.type))
            if d:
                r.bad(f"read:{key}", f"{t} was read as {got}: {d}")
    return r


# --- solutions of grammars: non-terminals and chooses without a decision stay in what is printed
def variants(rules, start, limit):
    """{word: [texts a printer may give]}: a non-terminal that derives one word may stay, so may a one-armed choose."""
    by = {k: v for k, v in rules.items()}

    def lang(t, keep):
        # [(word, printed form)]
        if isinstance(t, list):
            if t and str(t[0]) == "choose":
                if len(t) == 2:
                    one = lang(t[1], keep)
                    if keep == "choose" and len(one) == 1:
                        return [(w, [Sym("choose"), f]) for w, f in one]
                    return one
                return [p for x in t[1:] for p in lang(x, keep)]
            if len(t) == 1 and str(t[0]) in by:
                ps = lang(by[str(t[0])], keep)
                if len(ps) == 1 and keep == "nonterminals":
                    return [(ps[0][0], [Sym(str(t[0]))])]
                return ps
            parts = [lang(x, keep) for x in t]
            n = 1
            for p in parts:
                n *= len(p)
            if n > limit:
                raise G.TooMany()
            return [(tuple(w for w, _ in c), [f for _, f in c]) for c in itertools.product(*parts)]
        return [(G.freeze(t), t)]

    out = {}
    for keep in ("", "choose", "nonterminals"):
        for w, f in lang(by[start], keep):
            if keep and f == [Sym(start)]:
                continue
            out.setdefault(w, []).append(show(f))
    return out


def run_trees(chunk):
    r = Res()
    for x in chunk:
        e = X.build(x)
        if G.count(e) > 60 or P14.escapes(e):
            continue
        fv = P14.free_types(e)
        explore(r, emit.key_of(x), e, [ir.Var(n, t) for n, t in fv.items()])
    return r


def explore(r, key, e, args):
    with quiet():
        exps = {G.freeze(read_all(y.to_rosette())[0]): y for y in G.expansions(e)}
    choices = {}
    try:
        with quiet():
            text = ir.Synth("candidate", e, *args).to_rosette(choices)
        _, _, start, rules, _ = G.rosette(text)
        vs = variants(rules, start, 400)
    except (G.GrammarError, G.TooMany):
        return  # P14's business
    r.add("states")
    rows = X.envs([a.name() for a in args])
    for w, texts in vs.items():
        want = exps.get(w)
        if want is None:
            continue
        for t in dict.fromkeys(texts):
            r.add("transitions")
            try:
                got = read(f"(define (candidate {' '.join(a.name() for a in args)}) {t})", choices)
            except Exception as ex:
                if not from_repo(ex):
                    raise
                r.bad(f"tree:{key}", f"{type(ex).__name__}: {ex} reading {t} of {text}")
                return
            d = same(got, want, rows)
            r.outcome("tree:full" if t == texts[0] else "tree:kept")
            if d:
                r.bad(f"tree:{key}", f"{t} of {text} was read as {got}: {d}")
                return


def chains():
    """Chains of non-terminals without decisions, shared so that each becomes a non-terminal."""
    x, y = ir.Var("x", X.Int), ir.Var("y", X.Int)
    wraps = {"id": lambda e: e, "add": lambda e: ir.Add(e, e), "call": lambda e: ir.Call("g", X.Int, e), "ite": lambda e: ir.Ite(ir.Lt(e, x), e, y)}
    for depth in (1, 2, 3, 4):
        for ws in itertools.product(wraps, repeat=depth):
            for top in ("sum", "choice", "single"):
                e = Choose(x)
                for w in ws:
                    e = Choose(wraps[w](e))
                if top == "sum":
                    yield (ws, top), ir.Add(e, e)
                elif top == "choice":
                    yield (ws, top), Choose(ir.Add(e, e), ir.Sub(e, Choose(x, y)))
                else:
                    yield (ws, top), Choose(e)


def run_chains(chunk):
    r = Res()
    for (ws, top), e in chunk:
        explore(r, f"chain:{'-'.join(ws)}:{top}", e, [ir.Var("x", X.Int), ir.Var("y", X.Int)])
    return r


# --- whole solution files through synthesize
def layouts(form, n):
    """Every way the pretty printer may break a form at its spaces (all subsets for the first n spaces, or all of them);
    it never breaks right after define."""
    parts = form.split(" ")
    parts[:2] = [" ".join(parts[:2])]
    gaps = len(parts) - 1
    masks = set()
    for m in itertools.product((0, 1), repeat=min(gaps, n)):
        masks.add(tuple(m) + (0,) * (gaps - len(m)))
    masks.add((1,) * gaps)
    for m in sorted(masks):
        yield parts[0] + "".join(("\n  " if b else " ") + p for b, p in zip(m, parts[1:]))


def fdecl(name):
    return ir.FnDecl(name, X.Int, None, ir.Var("p", X.Int), ir.Var("q", X.Int))


def problems():
    """name -> (target language, synths, [texts printed by Rosette for each function], {function: expected expression})"""
    x, y, l, b = ir.Var("x", X.Int), ir.Var("y", X.Int), ir.Var("l", X.LI), ir.Var("b", X.Bool)
    one, two = ir.IntLit(1), ir.IntLit(2)
    g = ir.FnDeclRecursive("g", X.Int, ir.Add(ir.Mul(ir.IntLit(3), x), one), x)

    def syn(name, alts, *args):
        return ir.Synth(name, Choose(*alts), *args)

    out = {}
    # names that are prefixes and suffixes of each other, in every order of definition and printing
    names = ["inv0", "inv01", "inv", "t_inv0"]
    for k, perm in enumerate(itertools.permutations(names, 3)):
        synths = [syn(n, [ir.Add(x, ir.IntLit(10 + i)), ir.Sub(x, ir.IntLit(i))], x) for i, n in enumerate(perm)]
        want = {n: ir.Add(x, ir.IntLit(10 + i)) if i != 1 else ir.Sub(x, ir.IntLit(i)) for i, n in enumerate(perm)}
        out[f"names{k}"] = ([], synths, [want], perm if k % 2 else perm[::-1])
    # the same variable with different types in different functions
    out["types"] = ([], [syn("f", [ir.Call("list_get", X.Int, ir.Var("v", X.LI), ir.Var("i", X.Int)), one], ir.Var("v", X.LI), ir.Var("i", X.Int)),
                         syn("h", [ir.Add(ir.Var("v", X.Int), one), ir.Var("v", X.Int)], ir.Var("v", X.Int)),
                         syn("k", [ir.Not(ir.Var("v", X.Bool)), ir.Var("v", X.Bool)], ir.Var("v", X.Bool))],
                    [{"f": ir.Call("list_get", X.Int, ir.Var("v", X.LI), ir.Var("i", X.Int)), "h": ir.Add(ir.Var("v", X.Int), one),
                      "k": ir.Not(ir.Var("v", X.Bool))}], ("f", "h", "k"))
    # functions without a choice are not printed
    fixed = ir.Ite(ir.Lt(x, y), ir.Add(x, one), ir.Call("g", X.Int, y))
    eqs = ir.And(ir.Call("list_eq", X.Bool, l, ir.Call("list_tail", X.LI, l, one)), b)
    out["fixed"] = ([g], [ir.Synth("f", fixed, x, y), syn("h", [x, one], x), ir.Synth("k", eqs, l, b), ir.Synth("m", Choose(Choose(fixed)), x, y)],
                    [{"f": fixed, "h": one, "k": eqs, "m": fixed}, {"f": fixed, "h": x, "k": eqs, "m": fixed}], ("h",))
    out["allfixed"] = ([g], [ir.Synth("f", fixed, x, y)], [{"f": fixed}], ())
    # an uninterpreted target function, calls between functions, no parameters, tuples
    p2 = ir.TupleExpr(x, ir.Add(y, one))
    out["calls"] = ([g, fdecl("un")], [syn("f", [ir.Call("un", X.Int, ir.Call("g", X.Int, x), y), y], x, y), syn("c", [ir.IntLit(7), ir.IntLit(-7)]),
                                       syn("t", [p2, ir.TupleExpr(y, x)], x, y),
                                       syn("inv0", [ir.And(ir.Lt(x, y), ir.Eq(ir.Call("g", X.Int, x), ir.IntLit(-3))), ir.BoolLit(True)], x, y)],
                    [{"f": ir.Call("un", X.Int, ir.Call("g", X.Int, x), y), "c": ir.IntLit(-7), "t": p2,
                      "inv0": ir.And(ir.Lt(x, y), ir.Eq(ir.Call("g", X.Int, x), ir.IntLit(-3)))},
                     {"f": y, "c": ir.IntLit(7), "t": ir.TupleExpr(y, x), "inv0": ir.BoolLit(True)}], ("f", "c", "t", "inv0"))
    return out


def run_problem(job):
    name, style = job
    r = Res()
    d = env.scratch()
    os.chdir(d)
    lang, synths, wants, shown = problems()[name]
    for want in wants:
        forms = {}
        for s in synths:
            if s.name() in shown:
                head = " ".join([s.name()] + [a.name() for a in s.arguments()])
                forms[s.name()] = f"(define ({head}) {printed(want[s.name()])})"
        n = {1: 6, 2: 4}.get(len(forms), 3 if style == "wrap" else 0)
        opts = [list(layouts(forms[f], n if style == "wrap" else 0)) for f in shown]
        m = max([len(o) for o in opts] or [1])
        combos = [tuple(o[(i * (1 + j)) % len(o)] for j, o in enumerate(opts)) for i in range(m)]
        if len(opts) <= 2:
            combos = list(itertools.product(*opts))
        for combo in combos:
            r.add("states")
            q = "'" if style == "quote" else ""
            body = "#t\n" + "".join(f"/scratch/synthesisLogs/job.rkt:4{i}:0\n{q}{f}\n" for i, f in enumerate(combo))

            def script(proc, body=body):
                text = open(os.path.join(proc.cwd, proc.path)).read()
                ev = []

                def go():
                    for f in outputs(text)[0][1]:
                        if str(f[0]) == "rename-file-or-directory":
                            os.rename(os.path.join(proc.cwd, str(f[1])), os.path.join(proc.cwd, str(f[2])))
                        else:
                            open(os.path.join(proc.cwd, str(f[1])), "w").write(body)

                ev.append(go)
                return ev

            w = World(script)
            vs = {a for s in synths for a in s.arguments()}
            vc = ir.BoolLit(True)
            try:
                with w, quiet():
                    got = SR.synthesize("job", lang, vs, synths, [], vc, [*synths], "cvc5", no_verify=True, fns_to_guess=synths, log=False)
            except BaseException as ex:
                if isinstance(ex, (KeyboardInterrupt, SystemExit)):
                    raise
                r.bad(f"file:{name}", f"{type(ex).__name__}: {ex} for the solution\n{body}")
                break
            by = {f.name(): f for f in got}
            if sorted(by) != sorted(want):
                r.bad(f"file:{name}", f"synthesize returned {sorted(by)} for\n{body}")
                break
            for s in synths:
                f = by[s.name()]
                r.add("transitions")
                if [a.name() for a in f.arguments()] != [a.name() for a in s.arguments()]:
                    r.bad(f"file:{name}", f"parameters of {f}")
                rows = rows_of(s)
                ref = dict(REF, un=lambda p, q: 10 * p + q, g=lambda a: 3 * a + 1)
                F, H = Sem(ref).compile(want[s.name()]), Sem(ref).compile(f.body())
                if any(value(F, row) not in (None, value(H, row)) for row in rows):
                    r.bad(f"file:{name}", f"{f.name()} was read as {f.body()}, not {want[s.name()]}, from\n{body}")
    r.outcome(f"file:{name}")
    return r


def value(f, row):
    try:
        return f(row)
    except Undef:
        return None


def rows_of(s):
    vals = {"int": (0, 1, 2, 5), "bool": (True, False), "list": ((3, 1, 2), (4, 4, 4, 4, 4, 4))}
    return [dict(zip([a.name() for a in s.arguments()], c)) for c in itertools.product(*[vals[type_kind(a.type)] for a in s.arguments()])]


def body(chk):
    th = chk.tier == "thorough"
    xs = [x for x in emit.items(5, {"norkt"}) if "apply" not in used(x)]
    if th:
        few = [o for o in X.OPS if o.name in ("Add", "Sub", "Ite", "Lt", "And", "Let", "list_get", "list_tail", "list_append", "list_length", "g", "pair_of", "Get2.0")]
        xs += [x for x in emit.items(7, {"norkt"}, few)]
    chk.pmap(run_terms, env.chunks(xs, 500))
    ts = [x for x in P14.trees([o for o in P14.RICH if o != "apply"], 6 if th else 5)]
    ts += list(P14.trees(P14.FEW, 8 if th else 7))
    chk.pmap(run_trees, env.chunks(ts, 500))
    chk.pmap(run_chains, env.chunks(list(chains()), 20))
    chk.pmap(run_problem, [(n, s) for n in problems() for s in ("plain", "quote", "wrap")])
    chk.assume("Rosette prints the completed definitions with their source positions, may break lines at spaces, keeps non-terminals and "
               "one-armed chooses that involve no decision, and omits functions without decisions (Racket is not installed here)",
               "functions passed as arguments, maps, reduce_int/reduce_bool are left out")
    chk.finish(rule="every term of the size bound is printed and read back; every word of every Choose tree of the size bound is read back in "
                    "every form it may be printed; whole solution files in every layout go through synthesize")


if __name__ == "__main__":
    env.main("P16", body)
