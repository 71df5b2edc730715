"""P18: the LLM solution parser: what it accepts means in IR what it means in Python."""
import itertools
import os
import sys
import textwrap

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import env, irsem, llmlift
from mc.env import Res

IMPORTS = "from typing import Any, Callable, List\n"
DSL = """
def h(u: int, v: int) -> int:
    return 2 * u - v

def g(v: int, p: bool, x: List[int]) -> int:
    return v - len(x) if p else len(x)

def vsub(x: List[int], y: List[int]) -> List[int]:
    return [] if len(x) < 1 or len(y) < 1 else [x[0] - 2 * y[0], *vsub(x[1:], y[1:])]

def vmap(y: List[int], x: List[int], fn: Callable[[int, int], int]) -> List[int]:
    return [] if len(x) < 1 or len(y) < 1 else [fn(x[0], y[0]), *vmap(y[1:], x[1:], fn)]

def vall(x: List[int], test: Callable[[int], bool]) -> bool:
    return True if len(x) < 1 else (test(x[0]) and vall(x[1:], test))

def mmap(m: List[List[int]], x: List[int], fn: Callable[[int, int], int]) -> List[List[int]]:
    return [] if len(m) < 1 else [vmap(m[0], x, fn), *mmap(m[1:], x, fn)]
"""
# parameters in an order that is not the sorted one
PARAMS = [("y", "List[int]"), ("q", "bool"), ("b", "int"), ("x", "List[int]"), ("p", "bool"), ("a", "int"), ("m", "List[List[int]]")]
PTYPE = dict(PARAMS)
RET = {"int": "int", "bool": "bool", "list": "List[int]", "mat": "List[List[int]]"}
ATOMS = {"int": ["a", "b", "0", "2"], "bool": ["p", "q", "True", "False"], "list": ["x", "y", "[]"], "mat": ["m"]}

# (result, template): {i} int {b} bool {l} list {m} matrix; every hole is filled independently
PROD = [
    ("int", "len({l})"), ("int", "len({m})"), ("int", "{l}[{i}]"), ("int", "{m}[{i}][{i}]"), ("int", "({i} + {i})"), ("int", "({i} - {i})"),
    ("int", "({i} * {i})"), ("int", "({i} // {i})"), ("int", "({i} % {i})"), ("int", "(-{i})"), ("int", "({i} if {b} else {i})"),
    ("int", "h({i}, {i})"), ("int", "g({i}, {b}, {l})"),
    ("bool", "({i} < {i})"), ("bool", "({i} <= {i})"), ("bool", "({i} > {i})"), ("bool", "({i} >= {i})"), ("bool", "({i} == {i})"),
    ("bool", "({i} != {i})"), ("bool", "({b} == {b})"), ("bool", "({l} == {l})"), ("bool", "({m} == {m})"), ("bool", "({b} and {b})"),
    ("bool", "({b} or {b})"), ("bool", "({i} < {i} <= {i})"), ("bool", "({i} == {i} != {i})"), ("bool", "({b} if {b} else {b})"),
    ("bool", "vall({l}, lambda u: u < {i})"), ("bool", "vall({l}, lambda a: a < b)"),
    ("list", "[{i}]"), ("list", "[{i}, {i}]"), ("list", "{l}[:{i}]"), ("list", "{l}[{i}:]"), ("list", "{l}[{i}:{i}]"), ("list", "({l} + {l})"),
    ("list", "{m}[{i}]"), ("list", "{m}[{i}][:{i}]"), ("list", "({l} if {b} else {l})"), ("list", "vsub({l}, {l})"),
    ("list", "vmap({l}, {l}, lambda u, v: u - v)"), ("list", "vmap({l}, {l}, lambda v, u: u - v)"), ("list", "vmap({l}, {l}, lambda u, v: (u - {i}))"),
    ("list", "vmap({l}, {l}, h)"), ("list", "vmap({l}, {l}, lambda b, a: a - b)"),
    ("mat", "[{l}]"), ("mat", "[{l}, {l}]"), ("mat", "{m}[:{i}]"), ("mat", "{m}[{i}:]"), ("mat", "{m}[{i}:{i}]"), ("mat", "({m} if {b} else {m})"),
    ("mat", "mmap({m}, {l}, lambda u, v: u + 2 * v)"), ("mat", "mmap({m}, {l}, h)"),
]
# how Python groups operators that are not in parentheses, and other ways to write the same
LOOSE = [
    ("int", "a - b - 2"), ("int", "a - b * 2"), ("int", "a * b + 2"), ("int", "a * (b + 2)"), ("int", "-a + b"), ("int", "-a * b"), ("int", "- -a"),
    ("int", "a - -b"), ("int", "a // 2 * 2"), ("int", "a * b // 2"), ("int", "a % 2 + b"), ("int", "-a // 2"), ("int", "-a % 2"), ("int", "a - (b - 2)"),
    ("int", "a if p else b if q else 2"), ("int", "(a if p else b) if q else 2"), ("int", "a if (p if q else p) else b"), ("int", "a + 2 if p else b + 1"),
    ("int", "a + (2 if p else b) + 1"), ("int", "h(a, b) - h(b, a)"), ("int", "x[len(x) - 1]"), ("int", "m[len(m) - 1][0]"), ("int", "(x + y)[len(x)]"),
    ("int", "[a, b, 2][b]"), ("int", "[[a], [b, 2]][1][a]"), ("int", "1 + 2 * 3 - 4 % 3 // 1"), ("int", "0x10 + a"), ("int", "1_000 - b"),
    ("bool", "p and q or p"), ("bool", "p or q and p"), ("bool", "p and (q or p)"), ("bool", "p or a < b and q"), ("bool", "a < b < 2"), ("bool", "a < b == 2"),
    ("bool", "a < b and b < 2 and p"), ("bool", "a <= b != 2 > a >= 0"), ("bool", "a + 1 < b - 1"), ("bool", "x == y and a == b"), ("bool", "(a < b) == (b < a)"),
    ("bool", "p == (a == b)"), ("bool", "a == b if p else a < b"), ("bool", "p and x[a] == b"), ("bool", "0 <= a and a < len(x) and x[a] == b"),
    ("bool", "a >= len(x) or x[a] < b"), ("bool", "x[:a] == y[:a] and m[a:] == m[:a]"),
    ("list", "x + y + x"), ("list", "x[:1] + y[1:]"), ("list", "x + [a]"), ("list", "[a] + x"), ("list", "x if p else y + x"), ("list", "x[a + 1:]"), ("list", "x[:a][:b]"),
    ("list", "x[1:][:a]"), ("list", "m[0] + m[1]"), ("list", "vsub(x[:a], vsub(y, x))"), ("list", "vmap(x, y, lambda u, v: u if u < v else v - 1)"),
    ("list", "vmap(vmap(x, y, lambda u, v: u - v), y, lambda u, v: v - u)"), ("list", "vmap(vmap(x, y, lambda u, v: u - v), y, lambda u, v: u - v)"),
    ("list", "vmap(x, vmap(y, x, lambda u, v: 2 * u), lambda u, v: u + a * v)"), ("list", "vmap(x, y, lambda u, v: h(v, u))"),
    ("list", "vmap(x, y, lambda x, y: x - 2 * y)"), ("list", "vmap(x, y, lambda _, v: v)"), ("list", "vmap(x, y, lambda u, v: len(x))"),
    ("mat", "[x, y, x]"), ("mat", "[[a, b], [b], []]"), ("mat", "mmap(mmap(m, x, lambda u, v: u + 1), y, lambda u, v: v + 1)"), ("mat", "mmap(m[:1], x[:a], lambda u, v: u - v)"),
]
# recursion and calls between the functions of one solution
RECURSIVE = [
    ("def f(n: int, acc: int) -> int:\n    return acc if n <= 0 else f(n - 1, 2 * acc - n)", "f", [("n", "int"), ("acc", "int")]),
    ("def f(acc: int, n: int) -> int:\n    return acc if n <= 0 else f(2 * acc - n, n - 1)", "f", [("acc", "int"), ("n", "int")]),
    ("def f(x: List[int], a: int) -> List[int]:\n    return [] if len(x) < 1 else [x[0] - a] + f(x[1:], a + 1)", "f", [("x", "List[int]"), ("a", "int")]),
    ("def f(p: bool, n: int, x: List[int]) -> List[int]:\n    return x if n <= 0 else f(n == 1, n - 1, x + [n if p else 0])", "f", [("p", "bool"), ("n", "int"), ("x", "List[int]")]),
    ("def f(y: List[int], x: List[int]) -> List[int]:\n    return x if len(y) < 1 else f(y[1:], vmap(x, y, lambda u, v: 2 * u - v))", "f", [("y", "List[int]"), ("x", "List[int]")]),
]
PAIRS = [
    ("def f(b: int, a: int) -> int:\n    return a - 2 * b\ndef k(z: int, c: int) -> int:\n    return f(z, c)", "k", [("z", "int"), ("c", "int")]),
    ("def f(b: int, a: int) -> int:\n    return k(a, b)\ndef k(z: int, c: int) -> int:\n    return 2 * z - c", "f", [("b", "int"), ("a", "int")]),
    ("def f(n: int, a: int) -> bool:\n    return a == 0 if n <= 0 else k(a, n - 1)\ndef k(z: int, c: int) -> bool:\n    return z == 1 if c <= 0 else f(c - 1, z - 1)", "f", [("n", "int"), ("a", "int")]),
    ("def f(n: int, x: List[int]) -> List[int]:\n    return vmap(x, x, lambda u, v: u + 1)\ndef k(x: List[int], n: int) -> List[int]:\n    return vmap(x, x, lambda u, v: u + 1) + vmap(x, x, lambda u, v: v - n)", "k", [("x", "List[int]"), ("n", "int")]),
]
# the parser may refuse these, but may not read them as something else
ODD = [
    ("bool", "not p"), ("bool", "not a < b"), ("bool", "a in x"), ("bool", "a is b"), ("bool", "p != q"), ("bool", "x != y"), ("bool", "p < q"), ("bool", "bool(a)"), ("bool", "a"),
    ("bool", "all(u < 2 for u in x)"), ("bool", "all([p, q])"), ("bool", "x"), ("bool", "a and b"), ("bool", "p & q"), ("bool", "p ^ q"), ("bool", "x < y"), ("bool", "a == p"),
    ("bool", "1 == True"), ("bool", "x == [a, *y]"), ("bool", "m == x"), ("bool", "None is None"), ("bool", "(lambda u: u < 2)(a)"),
    ("int", "a ** b"), ("int", "a << b"), ("int", "a & b"), ("int", "~a"), ("int", "+a"), ("int", "abs(a)"), ("int", "max(a, b)"), ("int", "sum(x)"), ("int", "min(x)"), ("int", "int(a)"), ("int", "p"),
    ("int", "p + q"), ("int", "p + a"), ("int", "a and b"), ("int", "a or b"), ("int", "(u := a) + u"), ("int", "h(v=a, u=b)"), ("int", "h(a, u=b) if p else 0"), ("int", "h(u=a, v=b)"), ("int", "h(*[a, b])"),
    ("int", "h(a, *[b])"), ("int", "h(**{'u': a, 'v': b})"), ("int", "h(a)"), ("int", "h(a, b, 2)"), ("int", "h(p, a)"), ("int", "undefined(a)"), ("int", "z"), ("int", "x.index(a)"), ("int", "x.__len__()"),
    ("int", "len(x, y)"), ("int", "len([a, b])"), ("int", "len((a, b))"), ("int", "len([u for u in x])"), ("int", "len('ab')"), ("int", "ord('a')"), ("int", "len([*x, a])"), ("int", "a if x else b"), ("int", "a if b else 2"),
    ("int", "1.5"), ("int", "True + 1"), ("int", "(a, b)[0]"), ("int", "{0: a}[0]"), ("int", "round(a)"), ("int", "[a, p][0]"), ("int", "len(x[::2])"), ("int", "await_(a)"),
    ("list", "x[::2]"), ("list", "x[::-1]"), ("list", "x[a::2]"), ("list", "x[:a:2]"), ("list", "x[a:b:2]"), ("list", "x[a:b:1]"), ("list", "x[::]"), ("list", "x[:]"), ("list", "x * 2"), ("list", "2 * x"), ("list", "[*x, a]"),
    ("list", "[u for u in x]"), ("list", "[u + a for u in x]"), ("list", "list(x)"), ("list", "sorted(x)"), ("list", "list(map(lambda u: u, x))"), ("list", "x.copy()"), ("list", "vsub(y=x, x=y)"), ("list", "vmap(x, y, fn=h)"),
    ("list", "vmap(x, y, g)"), ("list", "vmap(x, y, lambda *u: 1)"), ("list", "vmap(x, y, lambda u, v, w=1: u + w)"), ("list", "vmap(fn=h, x=x, y=y)"), ("list", "vmap(x, y, (lambda u, v: u - v) if p else (lambda u, v: v))"),
    ("list", "vmap(x, y, f)"), ("list", "vmap(x, y, max)"), ("list", "vmap(x, x, lambda u, v: vmap(x, x, lambda u, v: u)[0])"), ("list", "m[0:1][0]"), ("list", "m[a,]"), ("list", "[a][:]"), ("list", "x or y"), ("list", "x and y"), ("list", "list(range(a))"),
    ("list", "[[a]][0]"), ("list", "[[]][0]"), ("list", "[m[0]][0]"), ("list", "x + m[0]"), ("list", "[a if p else b]"), ("list", "vsub(m, x)"), ("list", "[True]"), ("list", "[p]"),
    ("mat", "m + m"), ("mat", "[m]"), ("mat", "[*m, x]"), ("mat", "[]"), ("mat", "[[]]"), ("mat", "[[], []]"), ("mat", "[x[:1], []]"), ("mat", "m[::2]"), ("mat", "list(zip(x, y))"), ("mat", "[m[0]] + m[1:]"), ("mat", "mmap(m, x, lambda u, v: v if p else u)"),
]
# whole functions in unusual shapes: (source, name, parameters, must be accepted)
AB = [("b", "int"), ("a", "int")]
SHAPES = [
    ("def f(b: int, a: int) -> int:\n    r = a - 2 * b\n    return r", "f", AB, True),
    ("def f(b: int, a: int) -> int:\n    r: int = a - 2 * b\n    return r", "f", AB, True),
    ("def f(b: int, a: int) -> int:\n    # a comment\n    return a - b  # another # one\n", "f", AB, True),
    ('def f(b: int, a: int) -> int:\n    """Text: return b."""\n    return a - b\n', "f", AB, True),
    ("def f(b: int, a: int) -> int:\n    '''Text\n    return b - a\n    '''\n    return a - b\n", "f", AB, True),
    ("def f(b: int, a: int) -> int:\n    return a - \\\n        b\n", "f", AB, True),
    ("def f(\n    b: int,\n    a: int,\n) -> int:\n    return (\n        a\n        - b\n    )\n", "f", AB, True),
    ("\n\n    def f(b: int, a: int) -> int:\n        return a - b\n", "f", AB, True),
    ("def f(b: int, a: int) -> int: return a - b", "f", AB, True),
    ("from typing import List\ndef f(b: int, a: int) -> int:\n    return a - b", "f", AB, True),
    ("def f(b: int, a: int) -> int:\n    b = a - b\n    return b", "f", AB, False),
    ("def f(b: int, a: int) -> int:\n    r = a - b\n    return a", "f", AB, False),
    ("def f(b: int, a: int) -> int:\n    r = s = a - b\n    return r", "f", AB, False),
    ("def f(b: int, a: int) -> int:\n    r = a\n    r = r - b\n    return r", "f", AB, False),
    ("def f(b: int, a: int) -> int:\n    r = a\n    r -= b\n    return r", "f", AB, False),
    ("def f(b: int, a: int) -> int:\n    a -= b\n    return a", "f", AB, False),
    ("def f(b: int, a: int) -> int:\n    r, s = a, b\n    return r", "f", AB, False),
    ("def f(b: int, a: int) -> int:\n    if a < b:\n        return a\n    return b", "f", AB, False),
    ("def f(b: int, a: int) -> int:\n    if a < b:\n        return a\n    else:\n        return b", "f", AB, False),
    ("def f(b: int, a: int) -> int:\n    for i in range(a):\n        b = b + i\n    return b", "f", AB, False),
    ("def f(b: int, a: int) -> int:\n    while a > 0:\n        return 1\n    return b", "f", AB, False),
    ("def f(b: int, a: int) -> int:\n    def k(u: int) -> int:\n        return u - b\n    return k(a)", "f", AB, False),
    ("def f(b: int, a: int) -> int:\n    assert a < b\n    return a - b", "f", AB, False),
    ("def f(b: int, a: int) -> int:\n    try:\n        return a - b\n    finally:\n        return b", "f", AB, False),
    ("def f(b: int, a: int = 3) -> int:\n    return a - b", "f", AB, False),
    ("def f(b: int, /, a: int) -> int:\n    return a - b", "f", AB, False),
    ("def f(b: int, *, a: int) -> int:\n    return a - b", "f", AB, False),
    ("def f(*b: int) -> int:\n    return len(b)", "f", None, False),
    ("def f(b, a) -> int:\n    return a - b", "f", AB, False),
    ("def f(b: int, a) -> int:\n    return a - b", "f", AB, False),
    ("def f(b: int, a: int):\n    return a - b", "f", AB, False),
    ("def f(b: Any, a: int) -> int:\n    return a", "f", AB, False),
    ("def f(b: float, a: int) -> int:\n    return a", "f", None, False),
    ("async def f(b: int, a: int) -> int:\n    return a - b", "f", None, False),
    ("f = lambda b, a: a - b", "f", AB, False),
    ("def f(b: int, a: int) -> int:\n    return a - b\ndef k(b: int) -> int:\n    return b", "f", AB, False),
    ("def f(b: int, a: int) -> int:\n    return a - b\ndef f(b: int, a: int) -> int:\n    return b", "f", AB, False),
    ("class f:\n    pass", "f", None, False),
    ("b = 3\ndef f(a: int) -> int:\n    return a - b", "f", [("a", "int")], False),
    ("def h(a: int, u: int) -> int:\n    return a - 3 * u", "h", [("a", "int"), ("u", "int")], False),
    ("def h(v: int, u: int) -> int:\n    return v if v <= 0 else h(v - 1, u + 2)", "h", [("v", "int"), ("u", "int")], False),
    ("def f(a: int, h: int) -> int:\n    return h - a", "f", [("a", "int"), ("h", "int")], False),
    ("def f(a: int) -> int:\n    return (\n", "f", None, False),
    ("", "f", None, False),
    ("def f(a: int) -> int:\n    pass\n", "f", None, False),
    ("def f(a: int) -> int:\n    return\n", "f", None, False),
]

INTS = (0, 1, 2)
LISTS = [[], [1], [2, 0]]
MATS = [[], [[1, 2]], [[2], [0, 1]]]
DOM = {"int": (-1, 0, 1, 2), "bool": (False, True), "List[int]": LISTS, "List[List[int]]": MATS}


def source(i, res, text, params=PARAMS):
    return f"def f{i}({', '.join(f'{n}: {t}' for n, t in params)}) -> {RET[res]}:\n    return {text}\n"


def fill(res, template, kinds, subs):
    out = template
    for k, s in zip(kinds, subs):
        out = out.replace("{" + k + "}", s, 1)
    return out


KIND = {"i": "int", "b": "bool", "l": "list", "m": "mat"}


def holes(template):
    import re

    return [KIND[c] for c in re.findall(r"\{(\w)\}", template)], re.findall(r"\{(\w)\}", template)


def atoms1():
    """One-production expressions over two atoms per hole (first hole and the others rotate)."""
    out = {k: [] for k in RET}
    for res, t in PROD:
        kinds, keys = holes(t)
        for subs in itertools.product(*[ATOMS[k] for k in kinds]):
            out[res].append(fill(res, t, keys, subs))
    return out


def reps():
    """One expression per production (distinct atoms in its holes)."""
    out = {k: [] for k in RET}
    for res, t in PROD:
        kinds, keys = holes(t)
        used = {}
        subs = []
        for k in kinds:
            n = used.get(k, 0)
            used[k] = n + 1
            subs.append(ATOMS[k][n % len(ATOMS[k])])
        out[res].append(fill(res, t, keys, subs))
    return out


def depth2(full):
    r = reps()
    for res, t in PROD:
        kinds, keys = holes(t)
        if full:
            for subs in itertools.product(*[r[k] + ATOMS[k][:2] for k in kinds[:2]], *[ATOMS[k][:1] for k in kinds[2:]]):
                yield res, fill(res, t, keys, subs)
        else:
            for j, k in enumerate(kinds):
                base = [ATOMS[x][(n + 1) % len(ATOMS[x])] for n, x in enumerate(kinds)]
                for s in r[k]:
                    yield res, fill(res, t, keys, base[:j] + [s] + base[j + 1:])


def used(text, params):
    import re

    words = set(re.findall(r"[A-Za-z_]\w*", text))
    return [(n, t) for n, t in params if n in words]


def norm(v):
    return [norm(x) for x in v] if isinstance(v, (list, tuple)) else v


def same(a, b):
    return norm(a) == norm(b) and type(a) is type(b) or (isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and norm(a) == norm(b))


DSL_NS = None


def dsl_ns():
    global DSL_NS
    if DSL_NS is None:
        DSL_NS = llmlift.run_python(IMPORTS + DSL)
    return DSL_NS


def dsl_fns():
    return {k: (lambda f: lambda *a: _und(f, *map(_list, a)))(v) for k, v in dsl_ns().items() if callable(v) and v.__class__.__name__ == "function" and not k.startswith("_")}


def _list(v):
    if callable(v):
        return lambda *a: v(*a)
    return [_list(x) for x in v] if isinstance(v, (list, tuple)) else v


def _und(f, *a):
    try:
        return _tup(f(*a))
    except llmlift.Outside:
        raise irsem.Undef("outside")


def _tup(v):
    return tuple(_tup(x) for x in v) if isinstance(v, list) else v


def parse(parser, sol, n, lambdas=None, counts=None, dsl=DSL):
    with env.quiet():
        return parser.check_solution(solution=sol, expected_num_funcs=n, dsl_code=dsl,
                                     lambda_exprs={} if lambdas is None else lambdas, arg_name_to_count={} if counts is None else counts)


def compare(r, key, src, name, params, decls, in_calls, vary=None):
    """The declarations mean what Python computes on every input of the domain."""
    from metalift import ir

    if params is None:
        r.bad(f"{key}:accepted", f"accepted: {src!r}")
        return
    by = {}
    for d in decls:
        if not isinstance(d, (ir.FnDecl, ir.FnDeclRecursive)):
            r.bad(f"{key}:decl", f"{d!r} is no function definition: {src!r}")
            return
        if d.name() in by and repr(by[d.name()]) != repr(d):
            r.bad(f"{key}:twice", f"two definitions of {d.name()}: {by[d.name()]!r} and {d!r}: {src!r}")
            return
        by[d.name()] = d
    if name not in by:
        r.bad(f"{key}:missing", f"no definition of {name}: {src!r}")
        return
    d = by[name]
    got = [a.name() for a in d.arguments()]
    if got != sorted(n for n, _ in params):
        r.bad(f"{key}:params", f"parameters {got} for {src!r}")
        return
    want = set()
    calls_with_fns(d.body(), want, ir)
    for n in by:
        calls_with_fns(by[n].body(), want, ir)
    missing = want - {tuple(c) for c in in_calls}
    if missing:
        r.bad(f"{key}:in_calls", f"{missing} not reported as calls that take a function: {src!r}")
        return
    undefined = {n for _, n in want} - set(by) - set(dsl_ns())
    if undefined:
        r.bad(f"{key}:undefined", f"{undefined} not defined: {src!r}")
        return
    ns = llmlift.run_python(IMPORTS + textwrap.dedent(src), dsl_ns())
    sem = llmlift.ClosureSem(dsl_fns(), div=irsem.div_euclid, mod=irsem.mod_euclid)
    for x in by.values():
        try:
            sem.declare(x)
        except Exception as ex:
            r.bad(f"{key}:body", f"{type(ex).__name__}: {ex} in {x!r}: {src!r}")
            return
    f = sem.fns[name]
    posonly = getattr(getattr(ns[name], '__code__', None), 'co_posonlyargcount', 0)
    vs = vary if vary is not None else params
    fixed = {"int": 1, "bool": True, "List[int]": [1, 2], "List[List[int]]": [[1, 2]]}
    for vals in itertools.product(*[DOM[t] for _, t in vs]):
        args = {n: fixed[t] for n, t in params}
        args.update({n: v for (n, _), v in zip(vs, vals)})
        try:
            exp = ns[name](*args.values()) if posonly else ns[name](**args)
        except (llmlift.Outside, IndexError, RecursionError):
            r.add("outside")
            continue
        r.add("states")
        try:
            val = f(*[_tup(args[n]) for n in got])
        except irsem.Undef as ex:
            val = ex
        except Exception as ex:  # ill-typed IR
            val = ex
        r.add("transitions")
        if not same(exp, val):
            r.bad(f"{key}:value", f"{args}: Python computes {exp!r}, the IR {val!r}: {src!r} -> {d!r}")
            return
    r.add("traces")


def calls_with_fns(e, acc, ir):
    if isinstance(e, ir.Object):
        e = e.src
    if isinstance(e, ir.Call):
        for a in e.arguments():
            if isinstance(a, (ir.FnDecl, ir.FnDeclRecursive)):
                acc.add((e.name(), a.name()))
            elif isinstance(a, ir.Var) and ir.is_fn_decl_type(a.type):
                acc.add((e.name(), a.name()))
    for a in getattr(e, "args", []):
        if isinstance(a, (ir.Expr, ir.Object)):
            calls_with_fns(a, acc, ir)


def run_batch(items):
    """Expressions that have to be accepted: one solution with one function for each of them."""
    llmlift.setup()
    from llmlift_scripts import parser

    r = Res()
    todo = [items]
    while todo:
        part = todo.pop()
        src = [source(i, res, text, used(text, PARAMS) or PARAMS[:1]) for i, (res, text) in enumerate(part)]
        try:
            names, decls, in_calls = parse(parser, "\n".join(src), len(part))
        except (Exception, SystemExit) as ex:
            if len(part) == 1:
                r.bad(f"refused:{shape(part[0][1])}", f"{type(ex).__name__}: {ex} for {src[0]!r}")
            else:
                todo += [part[:len(part) // 2], part[len(part) // 2:]]
            if len(r["violations"]) > 20:
                return r
            continue
        if names != [f"f{i}" for i in range(len(part))]:
            r.bad("names", f"{names[:5]}")
            return r
        from metalift import ir

        wrong = [d for d in decls if not isinstance(d, (ir.FnDecl, ir.FnDeclRecursive))]
        if wrong:
            r.bad("decl", f"{wrong[0]!r} is no function definition")
            return r
        mains = [d for d in decls if d.name() in set(names)]
        lambdas = [d for d in decls if d.name() not in set(names)]
        byname = {}
        for d in lambdas:
            if d.name() in byname and repr(byname[d.name()]) != repr(d):
                r.bad("lambda-name", f"two definitions of {d.name()}: {byname[d.name()]!r} and {d!r}")
            byname[d.name()] = d
        lam = list(byname.values())
        if [d.name() for d in mains] != names:
            r.bad("order", f"{[d.name() for d in mains][:5]}")
            return r
        for i, (res, text) in enumerate(part):
            ps = used(text, PARAMS) or PARAMS[:1]
            reach, stack = [], [mains[i]]
            while stack:  # the lambdas this function uses
                e = stack.pop()
                acc = set()
                calls_with_fns(e.body(), acc, ir)
                for _, n in acc:
                    if n in byname and byname[n] not in reach:
                        reach.append(byname[n])
                        stack.append(byname[n])
            compare(r, shape(text), src[i], f"f{i}", ps, reach + [mains[i]], in_calls)
            r.outcome(res)
            if len(r["violations"]) > 20:
                return r
    r.sample(source(0, *items[0]))
    return r


def shape(text):
    import re

    return re.sub(r"\s+", "", text)[:60]


def run_single(items):
    llmlift.setup()
    from llmlift_scripts import parser

    r = Res()
    for src, name, params, must, n in items:
        key = shape(src)
        try:
            names, decls, in_calls = parse(parser, src, n)
        except (Exception, SystemExit) as ex:
            if must:
                r.bad(f"refused:{key}", f"{type(ex).__name__}: {ex} for {src!r}")
            r.outcome("refused")
            r.add("states")
            continue
        r.outcome("accepted")
        compare(r, key, src, name, params, decls, in_calls)
    return r


LAMBDAS = ["lambda u, v: u - v", "lambda u, v: v - u", "lambda v, u: u - v", "lambda u, v: 2", "h"]


def run_sessions(items):
    """Solution, then invariant of one benchmark: the names of lambdas are shared between the two calls."""
    llmlift.setup()
    from llmlift_scripts import parser

    r = Res()
    for fns, dsls in items:
        lambdas, counts, seen = {}, {}, {}
        for i, (fs, dsl) in enumerate(zip(fns, dsls)):
            text = " + ".join(f"vmap(x, y, {f})" for f in fs)
            src = f"def s{i}(y: List[int], x: List[int]) -> List[int]:\n    return {text}"
            try:
                names, decls, in_calls = parse(parser, src, 1, lambdas, counts, DSL + dsl)
            except (Exception, SystemExit) as ex:
                r.bad(f"session-refused:{i}", f"{type(ex).__name__}: {ex} for {src!r}")
                break
            for d in decls:
                if d.name() in seen and repr(seen[d.name()]) != repr(d):
                    r.bad("session-name", f"two definitions of {d.name()}: {seen[d.name()]!r} and {d!r} in {fns}")
                seen[d.name()] = d
            compare(r, f"session{i}", src, f"s{i}", [("y", "List[int]"), ("x", "List[int]")], decls, in_calls)
            r.outcome("session")
    return r


DSL_A = "\ndef w(u: int, v: int) -> int:\n    return u - v\n"
DSL_B = "\ndef w(u: int, p: bool) -> int:\n    return u if p else 0\n"
DSL_C = "\n\n\ndef w(x: List[int]) -> List[int]:\n    return x\n"
USES = {DSL_A: ("w(a, b)", "int"), DSL_B: ("w(a, p)", "int"), DSL_C: ("w(x)", "list")}


def run_dsls(items):
    """Different DSLs one after the other in one process."""
    llmlift.setup()
    from llmlift_scripts import parser

    r = Res()
    for seq in items:
        for dsl, use in seq:
            text, res = USES[use]
            src = source("", res, text, used(text, PARAMS))
            try:
                names, decls, in_calls = parse(parser, src, 1, dsl=DSL + dsl)
                ok = True
            except (Exception, SystemExit) as ex:
                ok = False
                why = ex
            r.add("states")
            r.outcome("dsl-accepted" if ok else "dsl-refused")
            if ok != (dsl == use):
                r.bad("dsl-change", f"{'accepted' if ok else f'refused ({why})'}: {text} with {dsl!r}, after {[d for d, _ in seq]}")
    return r


def run_any(item):
    fn, part = item
    return fn(part)


def typed(text):
    """mypy finds no element type for an empty list that nothing gives a type to."""
    import re

    return not re.search(r"\[\]\[|\[\] (\+|==)|== \[\]\)|len\(\[\]\)|\[\[\]", text)


def body(chk):
    deep = chk.tier == "thorough"
    one = [(res, t) for res, ts in atoms1().items() for t in ts]
    two = list(dict.fromkeys(depth2(deep)))
    batch = [(k, a) for k in ATOMS for a in ATOMS[k] if a != "[]"] + one + two
    batch = LOOSE + list(dict.fromkeys(b for b in batch if typed(b[1])))
    size = max(1, min(400, (len(batch) + 7) // 8))
    chk.add("expressions", len(batch))
    work = [(run_batch, c) for c in env.chunks(batch, size)]
    single = [(source("", res, t, used(t, PARAMS) or PARAMS[:1]), "f", used(t, PARAMS) or PARAMS[:1], False, 1) for res, t in ODD]
    single += [(s, n, p, True, 1) for s, n, p in RECURSIVE] + [(s, n, p, True, 2) for s, n, p in PAIRS]
    single += [(s, n, p, m, 1) for s, n, p, m in SHAPES]
    single += [(s, n, p, False, k) for s, n, p in RECURSIVE + PAIRS for k in (0, 3)]
    work += [(run_single, c) for c in env.chunks(single, 25)]
    n = 3 if deep else 2
    names = [c for k in range(1, n + 1) for c in itertools.product(LAMBDAS, repeat=k)]
    sess = [((a, b), ("", "")) for a in names[:None if deep else 8] for b in names[:155 if deep else 14]]
    work += [(run_sessions, c) for c in env.chunks(sess, 14)]
    dsls = (DSL_A, DSL_B, DSL_C)
    seqs = [((d, d), s) if not deep else (f, s) for d in dsls for f in (itertools.product(dsls, repeat=2) if deep else [d]) for s in itertools.product(dsls, repeat=2)]
    work += [(run_dsls, c) for c in env.chunks(dict.fromkeys(seqs), 14)]
    chk.pmap(run_any, work)  # one pool: every worker builds its mypy cache once
    chk.assume("indices and slice bounds are within range and divisors positive; / is read as //",
               "the emission of lambdas that use variables of their function is the subject of P19")
    chk.finish(rule="every one-production expression over the atoms, every two-production expression (one nested production per hole), listed loose and odd forms; "
                    "all inputs of a small domain; all sequences of two solutions; all sequences of two DSLs")


if __name__ == "__main__":
    env.main("P18", body)
