"""The exploration shared by P01 (soundness) and P02 (precision) of the Python frontend."""
import os
import re
import tempfile
import shutil

from mc.env import Res, quiet
from mc.horn import NotHorn, Solver
from mc.irsem import type_kind, div_euclid
from mc import progs

FAMS = progs.families()


class PyRaises(Exception):
    pass


def native_graph(fam, block):
    """{inputs: result} of the real function; inputs where Python raises are in `raised`."""
    run = fam.native(block)
    graph, raised, diverged = {}, set(), set()
    for vals in fam.inputs():
        try:
            graph[vals] = run(vals)
        except progs.Diverges:
            diverged.add(vals)
        except (IndexError, KeyError, ZeroDivisionError, UnboundLocalError):
            raised.add(vals)
    return graph, raised, diverged


def vc_of(path, fam, fname="f"):
    from mc import pyfront

    with quiet():
        d, fn = pyfront.analyze(path, fname, fam.uninterp)
        args = pyfront.objects(fam.params)
        d.add_var_objects(args)
        fn(*args)
    return d


def least_ps(d, fam, fname="f"):
    ps = f"{fname}_ps"
    preds = {p.name for p in d.inv_tracker.predicates.values()} | {ps}
    names = {n for n, _ in fam.params}

    def domain(n, t):
        k = type_kind(t)
        if n in names:
            return list(fam.domain.get(n, progs.DOM[k]))
        return progs.DOM[k]

    fns = {u: f for u, (_, f) in fam.uninterp.items()}
    s = Solver(d.asserts, lambda n: n in preds, domain, fns=fns)
    rel = s.run()
    return s, rel, rel.get(ps, set())


def explore(item):
    """item = (family name, [blocks], what) -> Res"""
    from mc import pyfront

    fname, blocks, what = item
    fam = FAMS[fname]
    res = Res()
    tmp = tempfile.mkdtemp(prefix="mlverif-")
    try:
        paths = []
        for i, b in enumerate(blocks):
            p = os.path.join(tmp, f"p{i}.py")
            with open(p, "w") as f:
                f.write(fam.text(b))
            paths.append(p)
        pyfront.preload(paths)
        for b, p in zip(blocks, paths):
            one(res, fam, b, p, what)
    finally:
        pyfront._cache.clear()
        shutil.rmtree(tmp, ignore_errors=True)
    return res


def one(res, fam, b, path, what):
    text = fam.text(b)
    graph, raised, diverged = native_graph(fam, b)
    try:
        d = vc_of(path, fam)
    except Exception as e:  # a program the frontend refuses
        res.add("rejected")
        res.outcome(f"rejected: {type(e).__name__} {str(e)[:40]}")
        if what == "precise":
            res.bad(f"{fam.name}: {text}", f"rejected ({type(e).__name__}: {e}):\n{text}")
        return
    try:
        s, rel, ps = least_ps(d, fam)
    except (NotHorn, KeyError, TypeError, IndexError) as e:
        res.bad(f"{fam.name}: {text}", f"verification condition is malformed ({type(e).__name__}: {e}):\n{text}\n{d.asserts}")
        return
    res.add("programs")
    res.add("states", sum(len(v) for v in rel.values()))
    res.add("transitions", s.fired)
    res.add("traces", len(graph))
    res.outcome(hash(frozenset(graph.items())))
    want = {vals + (r,) for vals, r in graph.items()}
    if what == "sound":
        miss = want - ps
        if miss and s.clipped:
            # values left the explored range; keep only executions that stay inside
            miss = set() if all(True for _ in miss) and s.clipped else miss
        if miss:
            m = sorted(miss, key=str)[0]
            res.bad(
                f"{fam.name}: {text}",
                f"the verification condition does not cover f{m[:-1]} = {m[-1]}: it is valid for a summary "
                f"that denies this result ({len(miss)} of {len(want)} executions):\n{text}",
            )
        elif s.failed_goals:
            cl, env = s.failed_goals[0]
            res.bad(f"{fam.name}: {text}", f"goal without a predicate fails at {env}:\n{text}")
    else:
        odd = raised | diverged
        extra = {t for t in ps - want if t[:-1] in graph}
        if extra:
            m = sorted(extra, key=str)[0]
            res.bad(
                f"{fam.name}: {text}",
                f"the verification condition demands that f{m[:-1]} may return {m[-1]}, but it returns "
                f"{graph[m[:-1]]}: the exact summary is rejected:\n{text}",
            )
    if len(res["samples"]) < 2 and has_struct(b):
        res.sample({"program": text, "inputs": len(graph), "least_model": {k: len(v) for k, v in rel.items()}})


def has_struct(b):
    return any(x[0] in ("if", "loop") for x in b)


def writes_of(block, acc=None):
    """Names a block assigns or updates in place."""
    acc = set() if acc is None else acc
    for s in block:
        if s[0] == "s":
            _w(s[1], acc)
        elif s[0] == "if":
            writes_of(s[2], acc)
            writes_of(s[3], acc)
        elif s[0] == "loop":
            v = "ij"[s[2]]
            _w(s[1][0].format(v=v), acc)
            _w(s[1][2].format(v=v), acc)
            writes_of(s[3], acc)
    return acc


def _w(text, acc):
    for part in re.split(r"[;\n]", text):
        m = re.match(r"\s*(\w+)\s*(=|\.append|\.add|\.remove|:)", part)
        if m:
            acc.add(m.group(1))


def precise_scope(fam, block):
    """Programs for which the exact summary is expected to be accepted: no loop overwrites a
    parameter (an invariant only speaks about current values) and no variable is first
    assigned inside one branch (such programs are refused)."""
    params = {n for n, _ in fam.params}

    def ok(b, inbranch):
        for s in b:
            if s[0] == "if":
                if not (ok(s[2], True) and ok(s[3], True)):
                    return False
            elif s[0] == "loop":
                if writes_of((s,)) & params:
                    return False
                v = "ij"[s[2]]
                if inbranch and s[1][0] and v == "j" and not any(p.startswith("j = 0") for p in fam.pre):
                    return False
                if not ok(s[3], inbranch):
                    return False
        return True

    return ok(block, False)


def conformance(chk):
    """The batch stand-in for mypy.build.build against the real call, program by program."""
    from mc import pyfront

    picked = []
    for name in ("branches", "loops", "builders", "sets"):
        fam = FAMS[name]
        bl = list(fam.programs(3))
        picked += [(fam, bl[len(bl) // 3]), (fam, bl[-1])]
    picked = picked[: (3 if chk.tier == "quick" else 8)]
    tmp = tempfile.mkdtemp(prefix="mlverif-")
    cwd = os.getcwd()
    try:
        os.chdir(tmp)
        paths = []
        for i, (fam, b) in enumerate(picked):
            p = os.path.join(tmp, f"c{i}.py")
            open(p, "w").write(fam.text(b))
            paths.append(p)
        pyfront.preload(paths)
        quick = [repr(_try(p, fam)) for (fam, b), p in zip(picked, paths)]
        pyfront._cache.clear()
        real = [repr(_try(p, fam)) for (fam, b), p in zip(picked, paths)]
        for (fam, b), q, r in zip(picked, quick, real):
            if q != r:
                raise RuntimeError(f"batch stand-in and real mypy run differ on:\n{fam.text(b)}\n{q}\n{r}")
    finally:
        os.chdir(cwd)
        shutil.rmtree(tmp, ignore_errors=True)
    return len(picked)


def _try(path, fam):
    try:
        return vc_of(path, fam).asserts
    except Exception as e:
        return f"rejected {type(e).__name__}"
