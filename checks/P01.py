"""P01: the Python frontend's verification condition covers every execution of the function."""
import os, sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import env, pycheck

QUICK = {"branches": 4, "arith": 3, "loops": 4, "params": 3, "lists": 3, "builders": 3, "sets": 3, "calls": 3,
         "nested": 4, "bools": 3}
DEEP = {"branches": 5, "arith": 4, "loops": 5, "params": 4, "lists": 4, "builders": 4, "sets": 4, "calls": 4,
        "nested": 5, "bools": 4}


def body(chk, what="sound"):
    plan = QUICK if chk.tier == "quick" else DEEP
    items, total = [], 0
    for name, k in plan.items():
        bl = [b for b in pycheck.FAMS[name].programs(k) if what == "sound" or pycheck.precise_scope(pycheck.FAMS[name], b)]
        total += len(bl)
        items.append((name, bl))
    per = max(200, min(2500, total // 24 + 1))
    work = [(n, ch, what) for n, bl in items for ch in env.chunks(bl, per)]
    work.sort(key=lambda w: -len(w[1]))
    n = pycheck.conformance(chk)
    chk.pmap(pycheck.explore, work)
    chk.assume(
        "inputs, list lengths and set elements range over the small domains of mc/progs.py",
        "inputs on which Python itself raises or loops beyond 200 iterations are not compared",
        "lists and sets are not aliased; divisors are positive",
    )
    chk.finish(
        rule="every function body with at most k statements over each family's alphabet (k per family: "
        + ", ".join(f"{a}={b}" for a, b in plan.items())
        + "); the verification condition's least model, explored breadth first, is compared with the "
        "executions of the function itself on every input of the domain",
        extra={"programs_enumerated": total, "standin_conformance_programs": n},
    )


if __name__ == "__main__":
    env.main("P01", body)
