"""P41: the synthesis loop around cvc5's SyGuS solver survives every behaviour of the solver and of the verifier."""
import io
import itertools
import os
import subprocess
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import env
from mc.env import Res, quiet

from metalift import ir  # noqa: E402
from metalift import process_tracker  # noqa: E402
from metalift.ir import Add, And, Call, Choose, Eq, FnDecl, Ge, Implies, IntLit, Ite, Le, Lt, Mul, Not, Or, Sub, Var  # noqa: E402
from metalift import synthesize_cvc5 as SC  # noqa: E402
from mc.irsem import BUILTIN, Sem  # noqa: E402
from mc.sexp import read_all  # noqa: E402
from mc.smt import Script  # noqa: E402
from mc.world import REAL, Hang  # noqa: E402
from checks.P17 import show, term  # noqa: E402
from checks.P40 import ANSWERS  # noqa: E402

x, i_, r_ = Var("x", ir.Int), Var("i", ir.Int), Var("r", ir.Int)
ROWS = [dict(x=a, r=b, i=c) for a in range(-1, 3) for b in range(-1, 5) for c in range(-1, 3)]


class Names:
    """The names of a problem's functions and of a variable: some contain what the loop looks for."""

    def __init__(self, ps, inv, var):
        self.ps, self.inv, self.var = ps, inv, Var(var, ir.Int)
        v = self.var
        self.PS = [Eq(r_, v), Eq(r_, Add(v, IntLit(1))), And(Ge(r_, v), Le(r_, v), Le(v, Add(r_, r_)))]
        self.INV = [Ge(i_, IntLit(0)), Ge(i_, v)]
        self.args = {ps: (r_, v), inv: (i_, v)}

    def problem(self):
        v = self.var
        synths = [ir.Synth(self.inv, Choose(*self.INV), i_, v), ir.Synth(self.ps, Choose(*self.PS), r_, v)]
        vc = And(Call(self.inv, ir.Bool, i_, v), Call(self.ps, ir.Bool, r_, v))
        return synths, vc

    def body(self, sol):
        return {self.ps: self.PS[sol[0]], self.inv: self.INV[sol[1]]}

    def text(self, sol):
        b = self.body(sol)
        return "".join(f"({n} {show(term(e))})" for n, e in ((self.inv, b[self.inv]), (self.ps, b[self.ps])))

    def answer(self, sol):
        b = self.body(sol)
        return "".join(f"(define-fun {n} ({' '.join(f'({a.name()} Int)' for a in self.args[n])}) Bool {show(term(b[n]))})\n" for n in self.args)


NAMES = [Names("f_ps", "f_inv0", "x"), Names("fail_ps", "fail_inv0", "failed"), Names("candidate", "sygus", "fail"), Names("f_inv01", "f_inv0", "can")]


class Pipe(io.RawIOBase):
    """What the solver writes, byte by byte, until it ends."""

    def __init__(self, proc, data):
        self.proc, self.data, self.pos, self.idle = proc, data, 0, 0

    def readable(self):
        return True

    def _take(self, n):
        if self.pos >= len(self.data):
            self.proc.ended()
            self.idle += 1
            if self.idle > 60:
                raise Hang()
            return b""
        out = self.data[self.pos: self.pos + n]
        self.pos += len(out)
        return out

    def readinto(self, b):
        d = self._take(len(b))
        b[: len(d)] = d
        return len(d)

    def readline(self, size=-1):
        j = self.data.find(b"\n", self.pos)
        return self._take((j + 1 if j >= 0 else len(self.data)) - self.pos)

    def read(self, size=-1):
        return self._take(10 ** 9 if size is None or size < 0 else size)

    read1 = read

    def readlines(self, hint=-1):
        return self.read().splitlines(True)


class Solver:
    def __init__(self, world, argv, data, code):
        self.world, self.args, self.code, self.returncode, self.pid = world, argv, code, None, 999999997
        self.stdout, self.stderr = Pipe(self, data), io.BytesIO(b"")
        self.reaped = False

    def ended(self):
        if self.returncode is None:
            self.returncode = self.code

    def poll(self):
        # nothing is left to read: the process has ended
        self.world.polls += 1
        if self.world.polls > 400:
            raise Hang()
        if self.stdout.pos >= len(self.stdout.data):
            self.ended()
        return self.returncode

    def wait(self, timeout=None):
        self.ended()
        self.reaped = True
        return self.returncode

    def communicate(self, input=None, timeout=None):
        d = self.stdout.read()
        self.wait()
        return d, b""

    def terminate(self):
        if self.returncode is None:
            self.returncode = -15

    kill = terminate

    def send_signal(self, s):
        self.terminate()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.wait()


class World:
    def __init__(self, data, code, answers):
        self.data, self.code, self.answers = data, code, list(answers)
        self.solvers, self.checked, self.files, self.polls = [], [], [], 0

    def sygus(self, argv):
        return any("sygus" in str(a) for a in argv) and str(argv[-1]).endswith(".sl")

    def popen(self, argv, *a, **kw):
        if self.sygus(argv):
            self.files.append(open(argv[-1]).read())
            p = Solver(self, list(argv), self.data, self.code)
            self.solvers.append(p)
            return p
        raise AssertionError(f"unexpected process {argv}")

    def run(self, argv, *a, **kw):
        if self.sygus(argv):
            self.files.append(open(argv[-1]).read())
            out = self.data
        else:
            self.checked.append(open(argv[-1]).read())
            code, out, _ = ANSWERS[self.answers.pop(0) if self.answers else "sat"]
            if kw.get("text") or kw.get("universal_newlines"):
                out = out.decode()
            return subprocess.CompletedProcess(argv, code, out, b"")
        return subprocess.CompletedProcess(argv, self.code, out, b"")

    def __enter__(self):
        subprocess.Popen, subprocess.run = self.popen, self.run
        return self

    def __exit__(self, *a):
        subprocess.Popen, subprocess.run = REAL[0], REAL[1]


def meaning(text, name, args):
    sc = Script(text, interp=dict(BUILTIN), use_bodies=True)
    f, _ = sc.term(read_all(f"({name} {' '.join(a.name() for a in args)})")[0], {})
    return f


def equal(f, g, rows):
    return all(f(w) == g(w) for w in rows)


def history(r, nm, lines, sol, code, answer, key, what, opt=False):
    """One history: the solver prints `lines` and ends with `code`; `sol` is its last complete candidate when its output holds an answer."""
    synths, vc = nm.problem()
    w = World("".join(lines).encode(), code, [answer])
    rows = [dict(i=row["i"], r=row["r"], **{nm.var.name(): row["x"]}) for row in ROWS]
    r.add("states")
    n0 = len(process_tracker.all_processes)
    with w, quiet():
        try:
            got = SC.synthesize("job", [], {nm.var, r_, i_}, synths, [], vc, synths, "cvc5", optimize_vc_equality=opt)
            kind = "return"
        except Hang:
            kind, got = "hang", None
        except Exception as ex:
            kind, got = "raise", ex
    del process_tracker.all_processes[n0:]
    r.add("transitions", w.polls + len(lines))
    want = "return" if sol is not None and answer == "unsat" else "raise"
    r.outcome(f"{kind}:{type(got).__name__ if kind == 'raise' else sol}")
    if kind == "hang":
        r.bad(f"hang:{key}", f"synthesize waits forever: {what}")
        return
    if kind != want:
        r.bad(f"{kind}-instead-of-{want}:{key}", f"{what}: {kind} {got!r}"[:700])
        return
    if kind == "raise" and isinstance(got, (NameError, AttributeError, TypeError, KeyError, IndexError)):
        r.bad(f"accident:{key}", f"{what}: {type(got).__name__}: {got}")
    if sol is not None:
        if len(w.checked) != 1:
            r.bad(f"checks:{key}", f"{what}: the verifier ran {len(w.checked)} times")
        for text in w.checked:
            r.add("traces")
            for n, e in nm.body(sol).items():
                if not equal(meaning(text, n, nm.args[n]), Sem().compile(e), rows):
                    r.bad(f"verified-another:{key}", f"{what}: the verifier was given another {n}")
    elif w.checked and sol is None and kind == "return":
        r.bad(f"unchecked:{key}", f"{what}")
    if kind == "return":
        names = sorted(f.name() for f in got) if isinstance(got, list) else got
        if names != sorted([nm.ps, nm.inv]):
            r.bad(f"result:{key}", f"{what}: returned {names}")
            return
        for f in got:
            if not equal(Sem().compile(f.body()), Sem().compile(nm.body(sol)[f.name()]), rows) or tuple(a.name() for a in f.arguments()) != tuple(
                    a.name() for a in nm.args[f.name()]):
                r.bad(f"result:{key}", f"{what}: returned {f.name()} = {f.body()}, cvc5's answer is {nm.body(sol)[f.name()]}")
    for p in w.solvers:
        if p.returncode is None:
            r.bad(f"left-running:{key}", f"{what}: {kind}, but cvc5 still runs")


SOLS = [(0, 0), (1, 1), (2, 0)]
ENDS = ["solution", "fail", "infeasible", "unknown", "timeout", "none"]


def output(nm, cands, enums, end):
    ls = ["job_0.sl:3.2: No set-logic command was given before this point.\n"] if enums == 2 else []
    for c in cands:
        if enums:
            ls.append("(sygus-enum " + " ".join(show(term(e)) for e in nm.body(c).values()) + ")\n")
        ls.append(f"(sygus-candidate {nm.text(c)})\n")
        if enums:
            ls.append("(sygus-enum " + " ".join(show(term(e)) for e in nm.body(c).values()) + ")\n")
    if end == "solution":
        ls += ["(\n", *[l + "\n" for l in nm.answer(cands[-1]).split("\n") if l], ")\n"] if cands else ["(\n", ")\n"]
    elif end == "fail":
        ls.append("fail\n")
    elif end == "infeasible":
        ls.append("infeasible\n")
    elif end == "unknown":
        ls.append("unknown\n")
    elif end == "timeout":
        ls.append("cvc5 interrupted by timeout.\n")
    return ls


def job(j):
    r = Res()
    os.chdir(env.scratch())
    kind, k, cands, enums, end = j
    nm = NAMES[k]
    lines = output(nm, cands, enums, end)
    whole = "".join(lines)
    if kind == "answers":
        for code in (0, 1, -9):
            for a in ANSWERS:
                for opt in (False, True) if a in ("unsat", "sat") else (False,):
                    sol = cands[-1] if end == "solution" and cands else None
                    history(r, nm, lines, sol, code, a, f"{end}:{code}", f"{nm.ps}, {nm.inv}: cvc5 prints\n{whole}and ends with {code}; verifier: {a}; optimize {opt}", opt)
    else:  # the solver dies after any number of bytes (quick: around every line, and inside every line)
        heads = []
        at = 0
        for l in lines:
            cuts = range(len(l)) if kind == "bytes" else sorted({0, 1, len(l) // 2, len(l) - 1})
            heads += [at + c for c in cuts]
            at += len(l)
        for cut in heads:
            text = whole[:cut]
            # an answer has started once the line "(" is there
            done = "\n(\n" in "\n" + text
            if ("\n" + text).endswith("\n("):
                continue  # the first byte of any line also starts an answer: either outcome is right, the candidate is verified
            n = text.count("(sygus-candidate ")
            open_ = text.count("(") != text.count(")") and "(sygus-candidate" in text.split("\n")[-1]
            sol = cands[-1] if end == "solution" and done and n == len(cands) and not open_ and cands else None
            for code in (0, 1, -9):
                for a in ("unsat", "sat"):
                    history(r, nm, [text], sol, code, a, f"cut:{end}:{code}", f"{nm.ps}, {nm.inv}: cvc5 prints\n{text!r} and dies with {code}; verifier: {a}")
    return r


# --- with cvc5 itself
def family():
    inv = [And(Le(i_, x), Eq(r_, Mul(IntLit(2), i_))), And(Le(i_, x), Eq(r_, i_)), And(Le(IntLit(0), i_), Le(i_, x)),
           And(Le(IntLit(0), i_), Le(i_, x), Eq(r_, Add(i_, i_)))]
    ps = [Eq(r_, Add(x, x)), Eq(r_, x), Eq(r_, Call("dbl", ir.Int, x)), Ge(r_, Call("half", ir.Int, x))]
    return inv, ps


def target():
    n = Var("n", ir.Int)
    return [FnDecl("dbl", ir.Int, Add(n, n), n), FnDecl("half", ir.Int, Sub(n, Call("dbl", ir.Int, IntLit(1))), n)]


def real(j):
    """Grammars over a doubling loop: cvc5 answers, and the answer is a member that makes the condition hold."""
    r = Res()
    os.chdir(env.scratch())
    INV, PS = family()
    for ks, ps, opt in j:
        I = lambda a, b: Call("inv0", ir.Bool, a, b, x)
        one = IntLit(1)
        vc = Implies(Ge(x, IntLit(0)), And(I(IntLit(0), IntLit(0)), Implies(And(I(i_, r_), Lt(i_, x)), I(Add(i_, one), Add(r_, IntLit(2)))),
                                          Implies(And(I(i_, r_), Not(Lt(i_, x))), Call("f_ps", ir.Bool, r_, x))))
        inv = [INV[k] for k in ks]
        pss = [PS[k] for k in ps]
        alt = lambda es: Choose(*es) if len(es) > 1 else es[0]
        synths = [ir.Synth("inv0", alt(inv), i_, r_, x), ir.Synth("f_ps", alt(pss), r_, x)]
        rows = [dict(x=a, i=b, r=c) for a in range(-1, 4) for b in range(-2, 6) for c in range(-3, 10)]

        def holds(a, b):
            s = Sem(dict(BUILTIN, dbl=lambda n: 2 * n, half=lambda n: n - 2))
            s.declare(ir.FnDeclRecursive("inv0", ir.Bool, a, i_, r_, x))
            s.declare(ir.FnDeclRecursive("f_ps", ir.Bool, b, r_, x))
            f = s.compile(vc)
            return all(f(row) for row in rows)

        feasible = any(holds(a, b) for a in inv for b in pss)
        r.add("states")
        r.add("traces")
        what = f"invariants {[str(a) for a in inv]}, postconditions {[str(b) for b in pss]}, optimize {opt}"
        with quiet():
            try:
                got = SC.synthesize("real", target(), {x, i_, r_}, synths, [], vc, synths, "cvc5", optimize_vc_equality=opt)
            except Exception as ex:
                got = ex
        if isinstance(got, Exception):
            r.outcome("real:" + type(got).__name__)
            if feasible or not type(got).__name__ in ("SynthesisFailed", "VerificationFailed"):
                r.bad("real:raise", f"{type(got).__name__}: {got}: {what}")
            continue
        d = {f.name(): f.body() for f in got}
        r.outcome("real:answer")
        if set(d) != {"inv0", "f_ps"} or not holds(d["inv0"], d["f_ps"]):
            r.bad("real:wrong", f"{what}: the answer {d} does not make the condition hold")
    return r


def body(chk):
    th = chk.tier == "thorough"
    jobs = []
    seqs = [()] + [(a,) for a in SOLS] + [(a, b) for a in SOLS for b in SOLS if a != b] + [((0, 0), (1, 1), (2, 0)), ((1, 1), (2, 0), (0, 0))]
    for k in range(len(NAMES)):
        for cands in seqs:
            for end in ENDS:
                for enums in (0, 1, 2):
                    if k and len(cands) > 1 and enums != 1 and not th:
                        continue
                    jobs.append(("answers", k, cands, enums, end))
        for cands in seqs:
            for end in ("solution", "infeasible"):
                if th or len(cands) in (1, 2) and k < 2:
                    jobs.append(("bytes" if th else "cuts", k, cands, 1, end))
    chk.pmap(job, sorted(jobs, key=lambda j: -len(str(j))))
    subsets = [s for n in (1, 2) for s in itertools.combinations(range(4), n)]
    rs = [(a, b, opt) for a in subsets for b in subsets for opt in (False, True) if th or not opt or len(a) + len(b) == 2]
    chk.pmap(real, env.chunks(rs, 3))
    chk.assume("when cvc5 prints an answer, it is the candidate it printed last", "a finished answer counts even if cvc5 ends with an error afterwards")
    chk.finish(rule="all outputs of up to three candidates, every kind of end, exit code and verifier answer; cvc5 dying inside every line; cvc5 itself on every grammar of a family")


if __name__ == "__main__":
    env.main("P41", body)
