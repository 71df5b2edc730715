"""Common plumbing of the checks: import path, worker pool, evidence, findings.

Every check is a Python program started as  `python3-vt -B -W ignore checks/<id>.py [quick|thorough]`.
It builds nothing from caches: the metalift modules are imported from /repo's working tree on
every run (-B: no byte code is written or left behind).
"""
import contextlib
import io
import json
import multiprocessing as mp
import os
import re
import sys
import time
import traceback
import warnings

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SITE = "/opt/venv/lib/pypy3.9/site-packages"

sys.dont_write_bytecode = True
warnings.simplefilter("ignore")
if REPO not in sys.path:
    sys.path.insert(0, REPO)
if os.path.isdir(SITE) and SITE not in sys.path:
    # the interpreted mypy the repository is installed with (a compiled one cannot be subclassed)
    sys.path.insert(0, SITE)
    import mypy  # noqa: F401

    sys.path.remove(SITE)
    sys.path.append(SITE)
sys.setrecursionlimit(20000)

SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
NPROC = max(1, min(int(os.environ.get("VERIF_NPROC", "8")), os.cpu_count() or 1))
FAILFAST = bool(os.environ.get("VERIF_FAILFAST"))  # development aid: stop at the first violation
EVIDENCE = os.environ.get("VERIF_EVIDENCE", os.path.join(VERIF, "evidence"))


def tier():
    for a in sys.argv[1:]:
        if a in ("quick", "thorough"):
            return a
    t = os.environ.get("VERIF_TIER", "quick")
    return t if t in ("quick", "thorough") else "quick"


@contextlib.contextmanager
def quiet():
    """metalift prints a lot while it works; none of it is needed here."""
    with contextlib.redirect_stdout(io.StringIO()):
        yield


_SCRATCH = None  # (owning pid, directory): set by main() before workers are forked


def scratch():
    """A scratch directory; everything is removed when the main process of the check ends."""
    import atexit
    import shutil
    import tempfile

    global _SCRATCH
    if _SCRATCH is None:
        d = tempfile.mkdtemp(prefix="mlverif-")
        _SCRATCH = (os.getpid(), d)
        pid = os.getpid()

        def rm():
            if os.getpid() == pid:
                os.chdir("/")
                shutil.rmtree(d, ignore_errors=True)

        atexit.register(rm)
    return tempfile.mkdtemp(dir=_SCRATCH[1])


COPIES = []  # directories with private copies of code of /repo


def from_repo(exc):
    """Whether an exception was raised by (or below) code of /repo."""
    tb = exc.__traceback__
    roots = tuple(os.path.realpath(d) + os.sep for d in [REPO, *COPIES])
    for fr in traceback.extract_tb(tb):
        if os.path.realpath(fr.filename).startswith(roots):
            return True
    return False


class Res(dict):
    """What one worker chunk found: counters plus violations and samples."""

    def __init__(self):
        super().__init__()
        self["violations"] = []
        self["samples"] = []
        self["outcomes"] = {}

    def add(self, name, n=1):
        self[name] = self.get(name, 0) + n

    def outcome(self, name, n=1):
        self["outcomes"][name] = self["outcomes"].get(name, 0) + n

    def bad(self, key, detail):
        self["violations"].append((key, detail))

    def sample(self, s):
        if len(self["samples"]) < 3:
            self["samples"].append(s)


class Check:
    def __init__(self, pid, level="model_checking"):
        self.pid = pid
        self.level = level
        self.tier = tier()
        self.t0 = time.time()
        self.res = Res()
        self.assumptions = []
        self.cov = {}
        self.known = {}
        p = os.path.join(VERIF, "known_findings.jsonl")
        if os.path.exists(p):
            for line in open(p):
                line = line.strip()
                if not line:
                    continue
                d = json.loads(line)
                if d.get("property") == pid and d.get("status") == "known":
                    self.known[d["key"]] = d["what"]

    # -- counters
    def merge(self, r):
        for k, v in r.items():
            if k == "violations":
                self.res["violations"].extend(v)
            elif k == "samples":
                for s in v:
                    if len(self.res["samples"]) < 6:
                        self.res["samples"].append(s)
            elif k == "outcomes":
                for o, n in v.items():
                    self.res.outcome(o, n)
            else:
                self.res.add(k, v)

    def add(self, name, n=1):
        self.res.add(name, n)

    def bad(self, key, detail):
        self.res.bad(key, detail)

    def assume(self, *a):
        self.assumptions.extend(a)

    # -- parallel exploration
    def pmap(self, fn, items, nproc=None):
        """Run fn(item) -> Res for every item, in forked workers, and merge."""
        items = list(items)
        nproc = min(nproc or NPROC, max(1, len(items)))
        if nproc == 1:
            for it in items:
                self.merge(_guard((fn, it)))
            return
        ctx = mp.get_context("fork")
        global _WORK  # inherited by the forked workers: items need not be picklable
        _WORK = (fn, items)
        from concurrent.futures import ProcessPoolExecutor, as_completed

        pool = ProcessPoolExecutor(nproc, mp_context=ctx)  # a worker that dies is an error, not a hang
        try:
            for fut in as_completed([pool.submit(_guard_index, i) for i in range(len(items))]):
                r = fut.result()
                if "harness_error" in r:
                    sys.stderr.write(r["harness_error"])
                    self.abandon(pool)
                    os._exit(2)
                self.merge(r)
                if FAILFAST and any(k not in self.known for k, _ in r["violations"]):
                    self.abandon(pool)
                    self.finish(exhaustive=False)
        finally:
            pool.shutdown(wait=True, cancel_futures=True)

    @staticmethod
    def abandon(pool):
        for p in list((pool._processes or {}).values()):
            p.kill()

    # -- the end
    def finish(self, rule=None, exhaustive=True, extra=None):
        wall = time.time() - self.t0
        r = self.res
        seen, new, known = set(), [], []
        for key, detail in r["violations"]:
            if key in seen:
                continue
            seen.add(key)
            (known if key in self.known else new).append((key, detail))
        cov = {
            "states": int(r.get("states", 0)),
            "transitions": int(r.get("transitions", 0)),
            "traces_validated_against_impl": int(r.get("traces", 0)),
            "samples": r["samples"] or ["(none)"],
            "exhaustive": bool(exhaustive),
            "distinct_outcomes": len(r["outcomes"]),
            "outcomes": dict(sorted(r["outcomes"].items(), key=lambda kv: -kv[1])[:12]),
        }
        for k, v in r.items():
            if k not in ("violations", "samples", "outcomes", "states", "transitions", "traces"):
                cov[k] = v
        if rule:
            cov["rule"] = rule
        if extra:
            cov.update(extra)
        ev = {
            "property": self.pid,
            "tier": self.tier,
            "seed": SEED,
            "level": self.level,
            "coverage": cov,
            "assumptions": self.assumptions,
            "wall_s": round(wall, 2),
            "violations": len(new),
        }
        os.makedirs(EVIDENCE, exist_ok=True)
        with open(os.path.join(EVIDENCE, f"{self.pid}.json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        rp = os.path.join(EVIDENCE, f"replay-{self.pid}.json")
        if os.path.exists(rp):
            os.remove(rp)
        for key, detail in known:
            print(f"KNOWN-FINDING: property={self.pid} {self.known[key]}")
        if new:
            new.sort(key=lambda kv: len(str(kv[1])))
            with open(rp, "w") as f:
                json.dump([{"key": k, "detail": d} for k, d in new[:400]], f, indent=1, default=str)
            for k, d in new[:5]:
                print(f"  {k}: {str(d)[:1500]}")
            print(f"{len(new)} violation(s), {len(known)} known")
            print(f"VIOLATION property={self.pid} replay={rp}")
            sys.stdout.flush()
            sys.exit(1)
        print(
            f"{self.pid} {self.tier}: held. states={cov['states']} transitions={cov['transitions']} "
            f"traces={cov['traces_validated_against_impl']} outcomes={cov['distinct_outcomes']} wall={wall:.1f}s"
        )
        if cov["states"] == 0:
            print("nothing was explored")
            sys.exit(2)
        sys.exit(0)


_WORK = None


def _guard_index(i):
    return _guard((_WORK[0], _WORK[1][i]))


def _guard(a):
    fn, it = a
    try:
        return fn(it)
    except Exception as e:
        if from_repo(e):
            r = Res()
            r.bad(
                f"crash:{type(e).__name__}",
                f"{type(e).__name__}: {e} while exploring {str(it)[:300]}\n" + traceback.format_exc()[-1500:],
            )
            return r
        r = Res()
        r["harness_error"] = traceback.format_exc()
        return r


def main(pid, body):
    """Run body(check); an exception that comes from the code under test is a violation."""
    chk = Check(pid)
    scratch()
    try:
        body(chk)
    except SystemExit:
        raise
    except Exception as e:
        if from_repo(e):
            chk.bad(
                f"crash:{type(e).__name__}",
                f"{type(e).__name__}: {e}\n" + traceback.format_exc()[-2500:],
            )
            chk.finish(exhaustive=False)
        traceback.print_exc()
        sys.exit(2)


def chunks(seq, n):
    seq = list(seq)
    n = max(1, n)
    for i in range(0, len(seq), n):
        yield seq[i : i + n]
