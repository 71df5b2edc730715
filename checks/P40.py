"""P40: the synthesis loop around Rosette survives every behaviour of the Rosette process and of the verifier."""
import functools
import itertools
import os
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import env
from mc.env import Res, quiet

from metalift import ir  # noqa: E402
from metalift.ir import Add, Choose, Eq, Ge, IntLit, Var  # noqa: E402
from metalift import synthesize_rosette as SR  # noqa: E402
from mc.irsem import Sem  # noqa: E402
from mc.sexp import read_all, show  # noqa: E402
from mc.smt import Script  # noqa: E402
from mc.world import Hang, World, compositions, outputs  # noqa: E402

x, r_, i_ = Var("x", ir.Int), Var("r", ir.Int), Var("i", ir.Int)
PS = [Eq(r_, x), Eq(r_, Add(x, IntLit(1))), Eq(r_, Add(x, IntLit(2)))]
INV = [Ge(i_, IntLit(0)), Ge(i_, x)]
ROWS = [dict(x=a, r=b, i=c) for a in range(-1, 2) for b in range(-1, 4) for c in range(-1, 2)]
ARGS = {"f_ps": (r_, x), "f_inv0": (i_, x)}


def problem():
    ps = ir.Synth("f_ps", Choose(*PS), r_, x)
    inv = ir.Synth("f_inv0", Choose(*INV), i_, x)
    vc = ir.And(ir.Call("f_inv0", ir.Bool, i_, x), ir.Call("f_ps", ir.Bool, r_, x))
    return [inv, ps], vc


TEXT = {}  # by identity: INV and PS live as long as the check


def body_text(e):
    if id(e) not in TEXT:
        TEXT[id(e)] = show(read_all(e.to_rosette())[0])
    return TEXT[id(e)]


def forms(sol, style):
    """What Rosette prints for a pair of choices."""
    p, i = sol
    q = "'" if style == 1 else ""
    out = []
    for name, e in (("f_inv0", INV[i]), ("f_ps", PS[p])):
        a = " ".join(v.name() for v in ARGS[name])
        b = body_text(e)
        if style == 2:  # wrapped by the pretty printer
            b = b.replace(" ", "\n    ", 1)
            out.append(f"/scratch/synthesisLogs/job.rkt:40:0\n'(define ({name} {a})\n   {b})\n")
        else:
            out.append(f"/scratch/synthesisLogs/job.rkt:40:0\n{q}(define ({name} {a}) {b})\n")
    return out


def script(rounds, style, die, code):
    """The events of a Rosette process whose rounds answer as given; it dies before event `die` (None: ends normally)."""

    def make(proc):
        text = open(os.path.join(proc.cwd, proc.path)).read()
        ev = []

        def crash():
            proc.returncode = code

        for (name, outs, _), ans in zip(outputs(text), rounds):
            for f in outs:
                if str(f[0]) == "rename-file-or-directory":
                    def rename(f=f):
                        a, b = os.path.join(proc.cwd, str(f[1])), os.path.join(proc.cwd, str(f[2]))
                        if os.path.exists(b) and not (len(f) > 3 and str(f[3]) == "#t"):  # Racket refuses to overwrite
                            crash()
                        else:
                            os.rename(a, b)

                    ev.append(rename)
                    continue
                path = os.path.join(proc.cwd, str(f[1]))
                if ans == "unsat":
                    parts = ["#f\n"]
                else:
                    a, b = forms(ans, style)
                    parts = ["#t\n", a, b[: len(b) // 2], b[len(b) // 2:]]

                def create(path=path):
                    if os.path.exists(path):  # Racket refuses to overwrite
                        crash()
                        return
                    open(path, "w").close()

                ev.append(create)
                for t in parts:
                    def write(path=path, t=t):
                        with open(path, "a") as h:
                            h.write(t)

                    ev.append(write)
                if ans == "unsat":
                    break
            if ans == "unsat":
                # printing the forms of an unsatisfiable query stops the program
                ev.append(lambda: setattr(proc, "returncode", 1))
                break
        if die is not None:
            del ev[die:]
            ev.append(crash)
        proc.total = len(ev)
        return ev

    return make


ANSWERS = {
    "unsat": (1, b'unsat\n(error "Cannot get model unless after a SAT or UNKNOWN response.")\n', b""),
    "sat": (0, b"sat\n(\n(define-fun x () Int 0)\n)\n", b""),
    "unknown": (0, b"unknown\n(\n)\n", b""),
    "timeout": (0, b"cvc5 interrupted by timeout.\n", b""),
    "killed": (-9, b"", b""),
    "error": (1, b'(error "Parse Error: x.smt:1.1: no unsat core")\n', b""),
    "silent": (0, b"", b""),
}


def same_meaning(e, want):
    f, g = Sem().compile(e), Sem().compile(want)
    return all(f(w) == g(w) for w in ROWS)


def run(r, key, rounds, answers, schedule, style=0, die=None, code=1, no_verify=False, log=True, stale=None, keep=False, opt=False):
    """One history.  Returns what synthesize did: ("return", solution) or ("raise", type)."""
    guess = len(rounds) - 1
    for f in os.listdir("synthesisLogs") if os.path.isdir("synthesisLogs") and not keep else []:
        os.remove(os.path.join("synthesisLogs", f))
    os.makedirs("synthesisLogs", exist_ok=True)
    for n, t in (stale or {}).items():
        open(os.path.join("synthesisLogs", n), "w").write(t)
    queue = list(answers)
    checked = []

    def verifier(argv):
        text = open(argv[-1]).read()
        checked.append(text)
        return ANSWERS[queue.pop(0)] if queue else ANSWERS["sat"]

    w = World(script(rounds, style, die, code), schedule, verifier)
    synths, vc = problem()
    with w, quiet():
        try:
            got = SR.synthesize("job", [], {x, r_, i_}, synths, [], vc, synths, "cvc5", rounds_to_guess=guess,
                                fns_to_guess=synths, no_verify=no_verify, log=log, optimize_vc_equality=opt)
        except Hang:
            return "hang", None, checked, w
        except Exception as ex:
            return "raise", ex, checked, w
    return "return", got, checked, w


def whole(p, i):
    return {"f_ps": PS[p], "f_inv0": INV[i]}


def expected(rounds, answers, complete, no_verify):
    """(kind, solution): what the history must lead to."""
    n = 0
    for k, ans in enumerate(rounds):
        if ans == "unsat" or k >= complete:
            return "raise", None
        if no_verify or (n < len(answers) and answers[n] == "unsat"):
            return "return", ans
        n += 1
    return "raise", None


@functools.lru_cache(None)
def other_function(text, s):
    """A function of the verified file that is not the one of solution s."""
    sc = Script(text, interp=INTERP, use_bodies=True)
    for n, e in whole(*s).items():
        f, _ = sc.term(read_all(f"({n} {' '.join(a.name() for a in ARGS[n])})")[0], {})
        g = Sem().compile(e)
        if any(f(row) != g(row) for row in ROWS):
            return n


def judge(r, key, rounds, answers, complete, res, no_verify, what):
    kind, got, checked, w = res
    want, sol = expected(rounds, answers, complete, no_verify)
    r.add("transitions", w.ticks)
    r.outcome(f"{kind}:{type(got).__name__ if kind == 'raise' else sol}")
    if kind == "hang":
        r.bad(f"hang:{key}", f"synthesize waits forever: {what}")
        return
    if kind != want:
        r.bad(f"{kind}-instead-of-{want}:{key}", f"{what}: {kind} {got!r}"[:600])
        return
    if kind == "raise" and isinstance(got, (NameError, AttributeError, TypeError, KeyError, IndexError)):
        r.bad(f"accident:{key}", f"{what}: {type(got).__name__}: {got}")
        return
    if kind == "return":
        names = sorted(f.name() for f in got) if isinstance(got, list) else got
        if names != ["f_inv0", "f_ps"]:
            r.bad(f"result:{key}", f"{what}: returned {names}")
            return
        for f in got:
            if not same_meaning(f.body(), whole(*sol)[f.name()]) or [a.name() for a in f.arguments()] != [a.name() for a in ARGS[f.name()]]:
                r.bad(f"result:{key}", f"{what}: returned {f.name()} = {f.body()}, Rosette's solution is {whole(*sol)[f.name()]}")
                return
    if not no_verify:
        used = [s for s in rounds[: len(checked)]]
        for text, s in zip(checked, used):
            r.add("traces")
            n = other_function(text, s)
            if n:
                r.bad(f"verified-another:{key}", f"{what}: the verifier was given another {n}")
                return
    for p in w.processes:
        if p.returncode is None:
            r.bad(f"left-running:{key}", f"{what}: {kind}, but the Rosette process still runs")


from mc.irsem import BUILTIN  # noqa: E402

INTERP = dict(BUILTIN)


def events_of(rounds, style):
    """Number of events of a normal run, and the number of events after which each round's file is complete."""
    res = run(None, "", rounds, ["sat"] * 9, (10 ** 6,), style)
    return res[3].processes[0].total


def complete_after(rounds, n_done, style):
    """How many solution files are complete once n_done events have happened: measured on the stand-in itself."""
    seen = {}

    def probe(proc):
        ev = script(rounds, style, None, 0)(proc)
        for k, e in enumerate(ev[:n_done]):
            e()
        for k, ans in enumerate(rounds):
            p = os.path.join(proc.cwd, f"synthesisLogs/job_sol{k}")
            full = "#f\n" if ans == "unsat" else "#t\n" + "".join(forms(ans, style))
            seen[k] = os.path.exists(p) and open(p).read() == full
        proc.total = len(ev)
        proc.returncode = 1
        return []

    w = World(probe, (), lambda a: ANSWERS["sat"])
    for f in os.listdir("synthesisLogs") if os.path.isdir("synthesisLogs") else []:
        os.remove(os.path.join("synthesisLogs", f))
    synths, vc = problem()
    with w, quiet():
        try:
            SR.synthesize("job", [], {x, r_, i_}, synths, [], vc, synths, "cvc5", rounds_to_guess=len(rounds) - 1, fns_to_guess=synths)
        except (Exception, Hang):
            pass
    n = 0
    while seen.get(n):
        n += 1
    return n, w.processes[0].total


def job(j):
    r = Res()
    d = env.scratch()
    os.chdir(d)
    kind, arg = j
    if kind == "schedules":
        rounds, answers, stutter, cap = arg
        _, total = complete_after(rounds, 0, 0)
        n = 0
        for sch in compositions(total, stutter):
            n += 1
            if n > cap:
                r.add("schedules_beyond_cap")
                continue
            r.add("states")
            res = run(r, "", rounds, answers, sch)
            judge(r, f"schedule:{rounds}:{answers}", rounds, answers, len(rounds), res, False, f"rounds {rounds}, verifier {answers}, schedule {sch}")
    elif kind == "crash":
        rounds, answers, code, fast = arg
        _, total = complete_after(rounds, 0, 0)
        for die in range(total + 1):
            done, _ = complete_after(rounds, die, 0)
            for sch in ((), (10 ** 6,), (die, 10 ** 6), (max(0, die - 1), 10 ** 6)):
                r.add("states")
                res = run(r, "", rounds, answers, sch, die=die, code=code)
                judge(r, f"crash:{rounds}:{answers}:{code}", rounds, answers, done, res, False,
                      f"rounds {rounds}, verifier {answers}, the process dies with {code} before its event {die} of {total}, schedule {sch}")
    elif kind == "answers":
        rounds, style, nv, log, opt = arg
        for answers in itertools.product(ANSWERS, repeat=sum(s != "unsat" for s in rounds)):
            for sch in ((), (10 ** 6,), (3,) * 20):
                r.add("states")
                res = run(r, "", rounds, answers, sch, style, no_verify=nv, log=log, opt=opt)
                judge(r, f"answers:{rounds}:{answers}:{nv}", rounds, answers, len(rounds), res, nv,
                      f"rounds {rounds}, verifier {answers}, printing style {style}, no_verify {nv}, log {log}, optimize {opt}, schedule {sch}")
    elif kind == "stale":
        old, rounds, answers = arg
        stale = {}
        for k, s in enumerate(old):
            stale[f"job_sol{k}"] = "#f\n" if s == "unsat" else "#t\n" + "".join(forms(s, 0))
        for sch in ((), (0, 0, 1, 1), (10 ** 6,), (2,) * 20):
            r.add("states")
            res = run(r, "", rounds, answers, sch, stale=stale)
            judge(r, f"stale:{old}:{rounds}", rounds, answers, len(rounds), res, False,
                  f"left from an earlier run {old}, rounds {rounds}, verifier {answers}, schedule {sch}")
    elif kind == "rerun":
        # a run that dies anywhere, then another one in the same directory
        first, rounds, answers = arg
        _, total = complete_after(first, 0, 0)
        for die in range(total + 1):
            for sch in ((), (10 ** 6,)):
                run(r, "", first, ["sat"] * 3, (10 ** 6,), die=die, code=1)
                r.add("states")
                res = run(r, "", rounds, answers, sch, keep=True)
                judge(r, f"rerun:{first}:{rounds}", rounds, answers, len(rounds), res, False,
                      f"after a run {first} that died before its event {die}: rounds {rounds}, verifier {answers}, schedule {sch}")
    return r


def body(chk):
    th = chk.tier == "thorough"
    jobs = []
    sols = [(p, i) for p in range(3) for i in range(2)]
    one = [(s,) for s in sols] + [("unsat",)]
    two = [((0, 0), (1, 1)), ((2, 1), (0, 1)), ((1, 0), "unsat")]
    three = [((0, 0), (1, 1), (2, 0)), ((1, 1), (2, 0), "unsat")]
    for rounds in one:
        for a in ("unsat", "sat"):
            jobs.append(("schedules", (rounds, [a], 2 if th else 1, 10 ** 6)))
            for code in (1, 0, -9):
                jobs.append(("crash", (rounds, [a], code, False)))
    for rounds in two:
        for a in itertools.product(("unsat", "sat"), repeat=2):
            jobs.append(("schedules", (rounds, a, 0, 10 ** 6 if th else 700)))
            for code in (1, 0, -9):
                jobs.append(("crash", (rounds, a, code, False)))
    for rounds in three:
        for a in (("sat", "sat", "unsat"), ("sat", "unknown", "sat"), ("sat", "unsat", "sat")):
            jobs.append(("schedules", (rounds, a, 0, 20000 if th else 300)))
            for code in (1, 0, -9):
                jobs.append(("crash", (rounds, a, code, False)))
    for rounds in one + two + three:
        for style in (0, 1, 2):
            for nv in (False, True):
                for log in (True, False):
                    if len(rounds) == 3 and (style or nv) and not th:
                        continue
                    jobs.append(("answers", (rounds, style, nv, log, False)))
        if len(rounds) < 3:
            jobs.append(("answers", (rounds, 0, False, True, True)))
    for old in itertools.product([(0, 0), "unsat", (2, 1)], repeat=2):
        for rounds in (((1, 0),), ((1, 0), (2, 0)), ("unsat",)):
            for a in (("unsat", "sat"), ("sat", "unsat")):
                jobs.append(("stale", (old, rounds, a)))
    for first in (((0, 0),), ("unsat",), ((0, 0), (2, 1))):
        for rounds in (((1, 0),), ((1, 0), (2, 0)), ("unsat",)):
            for a in (("unsat", "sat"), ("sat", "unsat")):
                jobs.append(("rerun", (first, rounds, a)))
    chk.pmap(job, sorted(jobs, key=lambda j: -len(str(j))))
    chk.assume("the Rosette process writes its files as the emitted program says; a solution file's content becomes visible in prefixes",
               "a finished solution counts even if the process ends with an error afterwards")
    chk.finish(rule="all answers of up to three rounds x all verifier answers x the interleavings of file events with the polling loop, a crash "
                    "before every event, left-over files and crashed earlier runs, printing styles", extra={"schedules_are_complete_up_to_rounds": 2 if th else 1})


if __name__ == "__main__":
    env.main("P40", body)
