"""The exploration shared by P04 (soundness) and P05 (precision) of the LLVM frontend."""
import ctypes
import os
import re
import shutil
import tempfile

from mc import cprogs, env, llvmfront
from mc.env import Res
from mc.horn import NotHorn, Solver
from mc.irsem import type_kind

FAMS = cprogs.families()
LIB = None  # the built pass; set by the check before workers fork
FUEL = "if (++ticks > LIMIT) { ticks = 100000; return {}; }"
SUPPORT = """
static int pm(int a, int b) { int r = a % b; return r < 0 ? r + b : r; }
"""


def prepare():
    global LIB
    LIB = llvmfront.build_pass()
    llvmfront.fresh_contexts()


def name(i):
    return f"f{i:03d}"


def native(fam, d, blocks):
    """{(program, inputs): result} by running the compiled functions; None where they do not end."""
    cc = fam.lang == "cc"
    src = fam.native_header + SUPPORT + ('extern "C" int ticks;\n' if cc else "") + "int ticks = 0;\n" + fam.native_impl
    # lists can double in every iteration
    fuel = FUEL.replace("LIMIT", "12" if fam.ret == "list" else "200")
    fuel = fuel.replace("{}", "newList<int>()" if fam.ret == "list" else "{}" if cc else "0")
    for i, b in enumerate(blocks):
        src += fam.text(b, name(i), fuel=fuel)
    src += fam.native_wrap([name(i) for i in range(len(blocks))])
    flags = [f for f in fam.flags if not f.endswith("/mc/include")]
    flags = [f for k, f in enumerate(flags) if not (f == "-I" and (k + 1 == len(flags) or flags[k + 1] == "-I"))]
    lib = llvmfront.native_lib(d, "n", src, fam.lang, flags)
    ticks = ctypes.c_int.in_dll(lib, "ticks")

    def run(i, vals):
        ticks.value = 0
        r = fam.native_call(lib, name(i), vals)
        return None if ticks.value >= 100000 else r

    return run


QUICK = {"odd_c": 2, "odd_cc": 2, "odd_mat": 2, "odd_lists": 2, "branches": 3, "arith": 3, "div": 3, "loops": 4, "forms": 3, "truth": 3, "calls": 3, "assumed": 3,
         "vectors": 3, "vecout": 3, "matrices": 3, "lists": 3, "sets": 3, "tuples": 3}
DEEP = {"odd_c": 3, "odd_cc": 3, "odd_mat": 3, "odd_lists": 3, "branches": 4, "arith": 4, "div": 4, "loops": 5, "forms": 4, "truth": 4, "calls": 4, "assumed": 4,
        "vectors": 4, "vecout": 4, "matrices": 4, "lists": 4, "sets": 4, "tuples": 4}


# functions of one driver session share parameter and variable names
SESSION = ["branches", "loops", "sets"]


def session_bodies(fam):
    """A few shapes: straight line, returning in a branch, loops, loops left early."""
    bl = [b for b in FAMS[fam].programs(3) if b and b[-1][0] in ("if",) + cprogs.LOOPS]
    seen, out = set(), []
    for b in bl:
        sh = shape(b)
        if sh not in seen:
            seen.add(sh)
            out.append(b)
    return out


def shape(b):
    return tuple((s[0],) + tuple(shape(x) for x in cprogs.blocks_of(s)) for s in b)


def sessions(item):
    fname, pairs, what = item
    fam = FAMS[fname]
    res = Res()
    tmp = tempfile.mkdtemp(prefix="mlverif-")
    try:
        blocks = sorted({b for p in pairs for b in p}, key=str)
        src = fam.header + "".join(fam.text(b, name(i)) for i, b in enumerate(blocks))
        ll, loops = llvmfront.compile_ll(tmp, "p", src, fam.lang, LIB, fam.flags)
        run = native(fam, tmp, blocks)
        for p in pairs:
            d, key = None, f"session of {fam.name}: " + fam.text(p[0], "f") + fam.text(p[1], "g")
            try:
                for b in p:
                    d = llvmfront.analyze(ll, loops, name(blocks.index(b)), fam.params, fam.uninterp, driver=d)
            except Exception as e:
                res.bad(key, f"rejected ({type(e).__name__}: {str(e)[:300]}): {key}")
                continue
            for b in p:
                one(res, fam, b, blocks.index(b), ll, loops, run, what, d=d, key=key)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return res


def body(chk, what):
    prepare()
    plan = QUICK if chk.tier == "quick" else DEEP
    only = os.environ.get("FAM")
    work, total = [], 0
    for name, k in plan.items():
        if only and name not in only.split(","):
            continue
        if what == "precise" and not FAMS[name].must_accept:
            continue
        bl = list(FAMS[name].programs(k))
        total += len(bl)
        work += [(name, ch, what) for ch in env.chunks(bl, 40)]
    chk.pmap(explore, work)
    work = []
    for name in SESSION:
        bl = session_bodies(name)
        work += [(name, ch, what) for ch in env.chunks([(x, y) for x in bl for y in bl if x != y], 20)]
    if not only or "sessions" in only:
        chk.pmap(sessions, work)
    chk.finish(
        rule="every function body with at most k statements over each family's alphabet (k per family: "
        + ", ".join(f"{a}={b}" for a, b in plan.items())
        + "), compiled with clang and the repository's passes",
        extra={"programs_enumerated": total, "sessions_of_two_functions": sum(len(w[1]) for w in work)},
    )


def least_ps(d, fam, fname):
    preds = {p.name for p in d.pred_tracker.predicates.values()}
    names = dict(fam.params)

    def domain(n, t):
        if n in names:
            return list(fam.dom(n, names[n]))
        return fam.pdomain.get(type_kind(t)) or cprogs.DOM[KIND.get(type_kind(t), type_kind(t))]

    fns = {u: f for u, (_, f) in fam.uninterp.items()}
    s = Solver(d.asserts, lambda n: n in preds, domain, fns=fns)
    rel = s.run()
    return s, rel, rel.get(f"{fname}_ps", set())


KIND = {"matrix": "mat"}


def explore(item):
    fname, blocks, what = item
    fam = FAMS[fname]
    res = Res()
    tmp = tempfile.mkdtemp(prefix="mlverif-")
    try:
        src = fam.header + "".join(fam.text(b, name(i)) for i, b in enumerate(blocks))
        ll, loops = llvmfront.compile_ll(tmp, "p", src, fam.lang, LIB, fam.flags)
        run = native(fam, tmp, blocks)
        for i, b in enumerate(blocks):
            one(res, fam, b, i, ll, loops, run, what)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return res


def one(res, fam, b, i, ll, loops, run, what, d=None, key=None):
    f = name(i)
    text = fam.text(b)
    key = key or f"{fam.name}: {text}"
    if d is not None:
        text += "analyzed in a " + key
    graph, odd = {}, set()
    for vals in fam.inputs():
        if fam.assume and not vals[[n for n, _ in fam.params].index(fam.assume[1])] <= fam.assume[2]:
            continue
        r = run(i, vals)
        if r is None:
            odd.add(vals)
        else:
            graph[vals] = r
    try:
        d = d or llvmfront.analyze(ll, loops, f, fam.params, fam.uninterp, assume=fam.assume)
    except Exception as e:
        res.add("rejected")
        res.outcome(f"rejected: {type(e).__name__} {str(e)[:40]}")
        if fam.must_accept:
            res.bad(key, f"rejected ({type(e).__name__}: {str(e)[:300]}):\n{text}")
        return
    try:
        s, rel, ps = least_ps(d, fam, f)
    except (NotHorn, KeyError, TypeError, IndexError) as e:
        res.bad(key, f"verification condition is malformed ({type(e).__name__}: {e}):\n{text}\n{d.asserts}")
        return
    res.add("programs")
    res.add("states", sum(len(v) for v in rel.values()))
    res.add("transitions", s.fired)
    res.add("traces", len(graph))
    res.outcome(hash(frozenset(graph.items())))
    # the summary's arguments come in its own declared order
    order = [[n for n, _ in fam.params].index(a.var_name()) for a in d.pred_tracker.predicates[f].args[:-1]]
    graph = {tuple(v[k] for k in order): r for v, r in graph.items()}
    want = {vals + (r,) for vals, r in graph.items()}
    if s.clipped:
        res.add("clipped")
    if what == "sound":
        miss = want - ps
        if miss and not s.clipped:
            m = sorted(miss, key=str)[0]
            res.bad(key, f"the verification condition does not cover f{m[:-1]} = {m[-1]}: it is valid for a summary "
                    f"that denies this result ({len(miss)} of {len(want)} executions):\n{text}")
        elif s.failed_goals:
            res.bad(key, f"a condition without a summary fails at {s.failed_goals[0][1]}:\n{text}")
    elif fam.pfilt is None or fam.pfilt(b):
        odd = {tuple(v[k] for k in order) for v in odd}
        extra = {t for t in ps - want if t[:-1] not in odd}
        if extra:
            m = sorted(extra, key=str)[0]
            res.bad(key, f"the verification condition demands that f{m[:-1]} may return {m[-1]}, but it returns "
                    f"{graph.get(m[:-1], 'nothing that matters (the input is assumed away)')}: the exact summary is rejected:\n{text}")
    if cprogs.has(b, cprogs.LOOPS + ("if",)):
        res.sample({"program": text, "inputs": len(graph), "least_model": {k: len(v) for k, v in rel.items()}})
