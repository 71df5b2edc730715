"""P42: the variables a tracker hands out for its groups are new ones, and it lists exactly what it handed out."""
import itertools
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import env
from mc.env import Res, from_repo

from metalift.analysis import VariableTracker  # noqa: E402
from metalift.ir import Bool, Int, List  # noqa: E402

NAMES = ["a", "b", "a_b", "b_1", "a_1", "1"]
OTHER = ["ret", "ret_0", "ret_1", "0", "1", "f", "f_ret"]
TYPES = [Int, Bool, List[Int]]


def steps(names, groups):
    """What may be asked next: a named variable, a group, a variable of one of the groups there are."""
    return [("var", n) for n in names] + [("group", n) for n in names] + [("in", g, n) for g in range(groups) for n in names]


class Bad(Exception):
    pass


def play(history):
    """Run a history on a new tracker; what it handed out, in order."""
    t = VariableTracker()
    groups, given = [], []
    for k, (what, *arg) in enumerate(history):
        ty = TYPES[k % 3]
        if what == "group":
            groups.append(t.group(arg[0]))
            continue
        v = t.variable(arg[0], ty) if what == "var" else groups[arg[0]].variable(arg[1], ty)
        if v.type != ty:
            raise Bad(f"the variable {v} has type {v.type}, asked for {ty}")
        name = v.args[0]
        if what == "var" and name != arg[0]:
            raise Bad(f"asked for {arg[0]}, got {name}")
        if what == "in" and name in {n for n, _ in given}:
            raise Bad(f"a variable for {arg[1]} of group number {arg[0]} is {name}, which was already given")
        given.append((name, ty))
    want = dict(given)
    got = [(v.args[0], v.type) for v in t.all()]
    if sorted(got, key=str) != sorted(want.items(), key=str):
        raise Bad(f"all() lists {got}, handed out were {given}")
    return given


def run(item):
    """All histories with this beginning."""
    names, first, depth = item
    res = Res()

    def go(history, groups):
        res.add("states")
        res.add("transitions")
        try:
            given = play(history)
        except Bad as ex:
            res.bad(" ".join("".join(map(str, s)) for s in history), str(ex))
            return
        except Exception as ex:
            if not from_repo(ex):
                raise
            res.bad("fails:" + " ".join("".join(map(str, s)) for s in history), f"{type(ex).__name__}: {ex}")
            return
        res.add("traces")
        if len(res["violations"]) > 20 or len(history) == depth:
            return
        for s in steps(names, groups):
            go([*history, s], groups + (s[0] == "group"))

    go(list(first), sum(s[0] == "group" for s in first))
    return res


def body(chk):
    deep = chk.tier == "thorough"
    work = []
    for names, depth in ((NAMES, 5 if deep else 4), (OTHER, 5 if deep else 4), (NAMES[:3], 6 if deep else 5), (NAMES[:2], 7 if deep else 6)):
        for a in steps(names, 0):
            for b in steps(names, a[0] == "group"):
                work.append((names, (a, b), depth))
    chk.pmap(run, work)
    chk.finish(rule="all histories of named variables, groups and variables of groups up to the depth, replayed from the start on a new tracker")


if __name__ == "__main__":
    env.main("P42", body)
