"""Bounded-exhaustive families of Python functions for the frontend checks.

A program is a block of statements; compound statements hold blocks.  blocks(k) enumerates
every block whose statement count (compound statements count one) is at most k, over a small
alphabet of simple statements and conditions.  No statement follows a return.
"""
import itertools
from functools import lru_cache

TAB = "    "


class Family:
    """name, params [(name, kind)], return kind, alphabet, prologue and epilogue."""

    def __init__(self, name, params, ret, simple, conds, loops=(), pre=(), post=(), domain=None,
                 uninterp=None, returns=(), maxdepth=2, filt=None):
        self.name, self.params, self.ret = name, params, ret
        self.simple, self.conds, self.loops = list(simple), list(conds), list(loops)
        self.pre, self.post = list(pre), list(post)
        self.returns = list(returns)
        self.domain = domain or {}
        self.uninterp = uninterp or {}
        self.maxdepth = maxdepth
        self.filt = filt
        self._b = lru_cache(None)(self._blocks)
        self._s = lru_cache(None)(self._stmts)

    # statements of exactly n nodes
    def _stmts(self, n, d, ld):
        out = []
        if n == 1:
            out += [("s", t) for t in self.simple]
            out += [("ret", t) for t in self.returns]
        if n >= 2 and d < self.maxdepth:
            for c in self.conds:
                for i in range(1, n):
                    for b1 in self._b(i, d + 1, ld):
                        for b2 in self._b(n - 1 - i, d + 1, ld):
                            out.append(("if", c, b1, b2))
            for l in self.loops:
                if ld < 2:
                    for b in self._b(n - 1, d + 1, ld + 1):
                        out.append(("loop", l, ld, b))
        return tuple(out)

    def _blocks(self, n, d, ld):
        if n == 0:
            return ((),)
        out = []
        for k in range(1, n + 1):
            for s in self._s(k, d, ld):
                for rest in self._b(n - k, d, ld):
                    if rest and always_returns(s):
                        continue
                    out.append((s,) + rest)
        return tuple(out)

    def programs(self, k):
        for n in range(0, k + 1):
            for b in self._b(n, 0, 0):
                if self.filt and not self.filt(b):
                    continue
                yield b

    def text(self, block, fname="f"):
        ann = {"int": "int", "list": "list[int]", "set": "set[int]"}
        sig = ", ".join(f"{n}: {ann[k]}" for n, k in self.params)
        lines = [f"def {fname}({sig}) -> {ann[self.ret]}:"]
        lines += [TAB + l for l in self.pre]
        lines += render(block, 1)
        if not (block and always_returns(block[-1])):
            lines += [TAB + l for l in self.post]
        stubs = "".join(f"def {u}({', '.join(f'a{i}: int' for i in range(n))}) -> int:\n    return 0\n"
                        for u, (n, _) in self.uninterp.items())
        return stubs + "\n".join(lines) + "\n"

    def inputs(self):
        return itertools.product(*[self.domain.get(n, DOM[k]) for n, k in self.params])

    def native(self, block):
        """The function itself, run by Python; loops are guarded by a tick counter."""
        src = self.text(block)
        lines = []
        for l in src.split("\n"):
            lines.append(l)
            st = l.lstrip()
            if st.startswith("while "):
                lines.append(l[: len(l) - len(st)] + TAB + "_tick()")
        ticks = [0]

        def _tick():
            ticks[0] += 1
            if ticks[0] > 200:
                raise Diverges()

        ns = {"_tick": _tick}
        exec(compile("\n".join(lines), "<native>", "exec"), ns)
        for u, (n, fn) in self.uninterp.items():
            ns[u] = fn
        f = ns["f"]

        def run(vals):
            ticks[0] = 0
            args = []
            for (n, k), v in zip(self.params, vals):
                args.append(list(v) if k == "list" else set(v) if k == "set" else v)
            r = f(*args)
            if self.ret == "list":
                return tuple(r)
            if self.ret == "set":
                return frozenset(r)
            return r

        return run


class Diverges(Exception):
    pass


def always_returns(s):
    if s[0] == "ret":
        return True
    if s[0] == "if":
        return bool(s[2]) and bool(s[3]) and always_returns(s[2][-1]) and always_returns(s[3][-1])
    return False


def render(block, ind):
    out = []
    p = TAB * ind
    for s in block:
        if s[0] == "s":
            out += [p + l for l in s[1].split("\n")]
        elif s[0] == "ret":
            out.append(p + "return " + s[1])
        elif s[0] == "if":
            out.append(p + f"if {s[1]}:")
            out += render(s[2], ind + 1)
            if s[3]:
                out.append(p + "else:")
                out += render(s[3], ind + 1)
        elif s[0] == "loop":
            init, cond, step = s[1]
            v = "ij"[s[2]]
            if init:
                out += [p + init.format(v=v)]
            out.append(p + f"while {cond.format(v=v)}:")
            out += render(s[3], ind + 1)
            if not (s[3] and always_returns(s[3][-1])):
                out.append(p + TAB + step.format(v=v))
    return out


def has(block, kind):
    for s in block:
        if s[0] == kind:
            return True
        if s[0] == "if" and (has(s[2], kind) or has(s[3], kind)):
            return True
        if s[0] == "loop" and has(s[3], kind):
            return True
    return False


DOM = {
    "int": [0, 1, -1, 2, 3],
    "list": [t for n in range(3) for t in itertools.product((0, 1, 2), repeat=n)],
    "set": [frozenset(c) for n in range(3) for c in itertools.combinations((0, 1, 2), n)],
}

COUNT = ("{v} = 0", "{v} < n", "{v} = {v} + 1")
INNER = ("{v} = 0", "{v} < 2", "{v} = {v} + 1")


def families():
    F = []
    F.append(Family(
        "branches", [("x", "int"), ("y", "int")], "int",
        ["r = x", "r = r + 1", "x = y"],
        ["x < y", "0 <= x < y", "x > 0 and y > 0"],
        pre=["r = 0"], post=["return r"], returns=["r", "y"]))
    F.append(Family(
        "arith", [("x", "int"), ("y", "int")], "int",
        ["r = x - y", "r = r * x", "r = -r", "r = r // 2", "x = (x + 1) - (r + y)"],
        ["x <= y or r == 0", "x == y", "-1 < x <= y < 3", "x >= r > y"],
        pre=["r = 1"], post=["return r"], returns=["r - 1"]))
    F.append(Family(
        "loops", [("n", "int"), ("k", "int")], "int",
        ["r = r + 1", "r = k", "k = r"],
        ["r > 1", "i < k"],
        loops=[COUNT], pre=["i = 0", "r = 0"], post=["return r"], returns=["r"],
        domain={"n": [0, 1, 2, 3], "k": [0, 1, 2]}, maxdepth=3))
    F.append(Family(
        "params", [("n", "int"), ("k", "int")], "int",
        ["r = r + n", "n = n - 1", "k = k + 1"],
        ["k > 1", "n == 1"],
        loops=[("", "n > 0", "n = n - 1"), ("", "k < 2", "k = k + 1")],
        pre=["r = 0"], post=["return r"], returns=["k"],
        domain={"n": [0, 1, 2, 3], "k": [0, 1, 2]}, maxdepth=2))
    F.append(Family(
        "lists", [("a", "list"), ("k", "int")], "int",
        ["r = a[0]", "r = r + len(a)", "a.append(k)", "k = r"],
        ["len(a) > 1", "a[0] < k"],
        loops=[("{v} = 0", "{v} < len(a)", "r = r + a[{v}]\n    {v} = {v} + 1".replace("\n    ", "; "))],
        pre=["r = 0"], post=["return r"], returns=["r"],
        domain={"a": [t for t in DOM["list"] if all(x < 2 for x in t)] + [(2,)], "k": [0, 1]}, maxdepth=2))
    F.append(Family(
        "builders", [("a", "list"), ("k", "int")], "list",
        ["r.append(k)", "r = []", "k = k + 1", "a.append(0)"],
        ["len(r) > k", "len(a) == 1"],
        loops=[("{v} = 0", "{v} < len(a)", "r.append(a[{v}]); {v} = {v} + 1"), INNER],
        pre=["r: list[int] = []"], post=["return r"], returns=["a"],
        domain={"a": [t for t in DOM["list"] if all(x < 2 for x in t)], "k": [0, 1]}, maxdepth=2))
    F.append(Family(
        "sets", [("s", "set"), ("k", "int")], "set",
        ["s.add(k)", "s.remove(k)", "k = k + 1", "s.add(0)"],
        ["k > 1", "k == 0"],
        loops=[INNER],
        pre=[], post=["return s"], returns=["s"],
        domain={"k": [0, 1, 2]}, maxdepth=2))
    F.append(Family(
        "calls", [("x", "int"), ("y", "int")], "int",
        ["r = g(x)", "r = h(r, y)", "x = g(y) + 1"],
        ["g(x) < y", "h(x, y) == r"],
        loops=[INNER],
        pre=["r = x"], post=["return r"], returns=["h(y, r)"],
        uninterp={"g": (1, lambda a: (3 * a + 1) % 5), "h": (2, lambda a, b: (2 * a + b) % 4)},
        domain={"x": [0, 1, 2], "y": [0, 1, 2]}, maxdepth=2))
    F.append(Family(
        "nested", [("n", "int")], "int",
        ["r = r + 1", "r = r + j", "j = i"],
        ["r > 2", "j < i"],
        loops=[COUNT], pre=["i = 0", "j = 0", "r = 0"], post=["return r"], returns=["r"],
        domain={"n": [0, 1, 2, 3]}, maxdepth=4,
        filt=lambda b: has(b, "loop")))
    F.append(Family(
        "bools", [("x", "int"), ("y", "int")], "int",
        ["r = r + 2", "y = r"],
        ["x < y and y < r or x == 1", "(x < y or y < r) and x >= 0", "x == y == r",
         "x <= y < r <= 3", "x + 1 > y // 2"],
        pre=["r = 0"], post=["return r"], returns=["x"], maxdepth=3))
    for f in F:
        if not any(p.startswith("i = 0") for p in f.pre):
            f.pre.insert(0, "i = 0")
    return {f.name: f for f in F}
