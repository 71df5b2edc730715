"""P03: every call sequence on any number of drivers yields exactly the facts of its own calls."""
import itertools
import os
import shutil
import sys
import tempfile

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import env
from mc.env import Res, quiet

SRC = {
    "f": """
def f(x: int, y: int) -> int:
    if x < y:
        r = x + 1
    else:
        r = y
    return r
""",
    "g": """
def g(x: int) -> int:
    i = 0
    r = 0
    while i < x:
        r = r + 2
        i = i + 1
    return r
""",
    "h": """
def h(x: int, y: int) -> int:
    if x == y:
        return 0
    x = x - y
    return x
""",
    "k": """
def k(x: int) -> int:
    i = 0
    z = x
    while i < 2:
        if z > 1:
            z = z - 1
        i = i + 1
    return z
""",
}
ARITY = {"f": 2, "g": 1, "h": 2, "k": 1}
DOM = {"x": [0, 1, 2], "y": [0, 1, 3]}
_NS = {}
for _n, _s in SRC.items():
    exec(_s, _NS)

# one step of a session on one driver
PRE = {
    "P<": lambda e: e["x"] < e["y"],
    "P0": lambda e: e["y"] > 0,
    "Pr": lambda e: e["last"] > 0,
}
CALLS = {"f": ("x", "y"), "f'": ("y", "last"), "g": ("last",), "g'": ("y",), "h": ("last", "x"), "h'": ("x", "last"),
         "k": ("last",)}
A1 = ["P<", "P0", "Pr", "f", "f'", "g", "g'", "h", "h'", "k"]
A2 = ["P<", "Pr", "f", "g", "h"]


def oracle(ops):
    """{function: set of (args, result)} of the calls of one session."""
    rel = {}
    for x, y in itertools.product(DOM["x"], DOM["y"]):
        e = {"x": x, "y": y, "last": x}
        for o in ops:
            if o in PRE:
                if not PRE[o](e):
                    break
            else:
                fn = o[0]
                args = tuple(e[a] for a in CALLS[o])
                r = _NS[fn](*args)
                rel.setdefault(fn + "_ps", set()).add(args + (r,))
                e["last"] = r
    return rel


class Session:
    def __init__(self, paths, analyzed):
        from metalift.frontend.python import Driver
        from metalift import ir
        from mc.pyfront import no_grammar

        self.d = Driver()
        self.paths, self.ng = paths, no_grammar
        self.fns = {}
        if analyzed == "first":
            for n in sorted(SRC):
                self.get(n)
        self.x, self.y = ir.Int("x"), ir.Int("y")
        self.d.add_var_objects([self.x, self.y])
        self.last = self.x
        self.ops = []

    def get(self, n):
        if n not in self.fns:
            self.fns[n] = self.d.analyze(self.paths[n], n, lambda: [], self.ng, self.ng)
        return self.fns[n]

    def do(self, o):
        self.ops.append(o)
        if o == "P<":
            self.d.add_precondition(self.x < self.y)
        elif o == "P0":
            self.d.add_precondition(self.y > 0)
        elif o == "Pr":
            self.d.add_precondition(self.last > 0)
        else:
            fn = self.get(o[0])
            self.last = fn(*[getattr(self, a) for a in CALLS[o]])

    def model(self):
        from mc.horn import Solver

        preds = {p.name for p in self.d.inv_tracker.predicates.values()} | {n + "_ps" for n in SRC}
        s = Solver(self.d.asserts, lambda n: n in preds, lambda n, t: DOM.get(n, [0, 1, 2]), inputs=DOM)
        rel = s.run()
        return {k: v for k, v in rel.items() if k[:-3] in SRC and k.endswith("_ps")}, s, rel


def explore(item):
    from mc import pyfront
    from mc.horn import NotHorn

    sessions, analyzed = item
    res = Res()
    tmp = tempfile.mkdtemp(prefix="mlverif-")
    try:
        paths = {}
        for n, s in SRC.items():
            paths[n] = os.path.join(tmp, f"m_{n}.py")
            open(paths[n], "w").write(s)
        pyfront.preload(list(paths.values()))
        for sess in sessions:
            with quiet():
                ds = {}
                for who, o in sess:
                    if who not in ds:
                        ds[who] = Session(paths, analyzed)
                    ds[who].do(o)
            for who, s in ds.items():
                try:
                    got, sv, rel = s.model()
                except (NotHorn, KeyError, TypeError) as e:
                    res.bad(f"malformed {sess}", f"{type(e).__name__}: {e} in session {sess}")
                    continue
                want = oracle(s.ops)
                res.add("states", sum(len(v) for v in rel.values()))
                res.add("transitions", sv.fired)
                res.outcome(str(sorted((k, len(v)) for k, v in got.items())))
                if got != want:
                    diff = {k: {"missing": sorted(want.get(k, set()) - got.get(k, set()))[:4],
                                "extra": sorted(got.get(k, set()) - want.get(k, set()))[:4]}
                            for k in set(got) | set(want) if got.get(k, set()) != want.get(k, set())}
                    res.bad(f"session {sess} driver {who}", f"operations {s.ops}: the verification condition's "
                            f"facts differ from the calls' executions: {diff}")
            res.add("traces")
            if len(sess) > 3:
                res.sample({"session": [f"driver{w}:{o}" for w, o in sess]})
    finally:
        pyfront._cache.clear()
        shutil.rmtree(tmp, ignore_errors=True)
    return res


def body(chk):
    n1, n2 = (3, 4) if chk.tier == "quick" else (5, 5)
    ss = []
    for n in range(1, n1 + 1):
        for ops in itertools.product(A1, repeat=n):
            if ops[-1] in PRE:
                continue
            ss.append(tuple((0, o) for o in ops))
    two = []
    for n in range(2, n2 + 1):
        for ops in itertools.product(A2, repeat=n):
            for who in itertools.product((0, 1), repeat=n - 1):
                w = (0,) + who
                if len(set(w)) < 2:
                    continue
                if any(o in PRE and all(x != v for x in w[i + 1:]) for i, (o, v) in enumerate(zip(ops, w))):
                    continue  # a precondition no call follows
                two.append(tuple(zip(w, ops)))
    if chk.tier == "thorough":
        two = [t for t in two if len(t) < 5 or sum(1 for _, o in t if o not in PRE) >= 3]
    work = []
    for analyzed in ("first", "late"):
        work += [(c, analyzed) for c in env.chunks(ss, max(60, len(ss) // 8))]
    work += [(c, "late") for c in env.chunks(two, max(60, len(two) // 14))]
    chk.pmap(explore, work)
    chk.assume("integer arguments over " + str(DOM), "four fixed functions (branch, early return, two loops)")
    chk.finish(rule=f"every session of at most {n1} operations on one driver over {A1} (functions analyzed up front and "
               f"on first use) and every interleaving of two drivers of at most {n2} operations over {A2}; the least model of each "
               "driver's verification condition is compared with executing the same session in Python",
               extra={"sessions": 2 * len(ss) + len(two)})


if __name__ == "__main__":
    env.main("P03", body)
