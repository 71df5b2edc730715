"""P19: the LLMLift loop returns exactly the solutions whose verification succeeded, and those are right."""
import ast
import copy
import itertools
import os
import re
import shutil
import subprocess
import sys
import textwrap
import types

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import env, irsem, llmlift, llvmfront
from mc.env import Res, from_repo
from mc.rkt import RktError, load_runtime
from mc.sexp import Sym, read_all, show
from mc.irsem import BUILTIN
from mc.smt import Script, SortError, Unbound

BOX = None
STUB = ("-I", os.path.join(env.VERIF, "mc", "include"))
DIR = None
RUN = subprocess.run


# ---------------------------------------------------------------- the benchmarks
def dsl(names):
    from metalift import ir, vc_util
    from metalift.ir import Bool, Int, List, Matrix, call, call_value, fn_decl_recursive, ite, make_fn_type, Fn
    from metalift.utils.tenspiler import tenspiler_common

    x, y, a, m, t = List(Int, "x"), List(Int, "y"), Int("a"), List(List[Int], "m"), Int("t")
    fn = Fn((Int, Int, Int), "fn")
    test = Fn((Bool, Int), "test")
    el = List.empty(Int)
    em = List.empty(List[Int])

    def vadd(l, k):
        return call("vadd", List[Int], l, k)

    fns = {
        # neither the parameters nor the vocabulary are in sorted order
        "vadd": fn_decl_recursive("vadd", List[Int], ite(x.len() < 1, el, vadd(x[1:], a).prepend(x[0] + a)), x, a),
        "vsum": fn_decl_recursive("vsum", Int, ite(x.len() < 1, Int(0), x[0] + call("vsum", Int, x[1:])), x),
        "vmap": fn_decl_recursive("vmap", List[Int], ite(vc_util.or_objects(x.len() < 1, y.len() < 1), el,
                                  call("vmap", List[Int], y[1:], x[1:], fn).prepend(call_value(fn, x[0], y[0]))), y, x, fn),
        "vall": fn_decl_recursive("vall", Bool, ite(x.len() < 1, Bool(True), vc_util.and_objects(call_value(test, x[0]), call("vall", Bool, x[1:], test))), x, test),
        "madd": fn_decl_recursive("madd", List[List[Int]], ite(m.len() < 1, em, call("madd", List[List[Int]], m[1:], a).prepend(vadd(m[0], a))), m, a),
        "twice": ir.fn_decl("twice", Int, t + t, t),
        # functions that the Racket library has, too
        "firsts": tenspiler_common.firsts_fn_decl,
        "rests": tenspiler_common.rests_fn_decl,
    }
    return [fns[n] for n in names]


INT = (-1, 0, 1, 2, 3)
LST = [(), (1,), (2,), (0, 1), (1, 2)]
MAT = [(), ((1,),), ((0, 2),), ((1,), (2,))]


class Bench:
    """One benchmark: the C function, the solutions and invariants that are proposed, and what is true about them."""

    def __init__(self, name, source, params, out, outc, info, fns, ps, invs, loops, pre=None, domain=None):
        self.name, self.source, self.params, self.out, self.outc = name, source, params, out, outc
        self.info, self.fns, self.ps, self.invs, self.loops, self.pre = info, fns, ps, invs, loops, pre
        self.domain = {"int": INT, "vec": LST, "mat": MAT, **(domain or {})}


def P(text):
    return textwrap.dedent(text).strip("\n")


def run_c(state, loop):
    """Final states of a loop nest from a state, by running it."""
    cond, step = loop
    n = 0
    while cond(state):
        state = step(state)
        n += 1
        assert n < 100
    return state


def benches():
    out = {}
    # an integer loop
    ret = "def ibench(n: int) -> int:\n    return "
    inv = "def invariant(i: int, n: int, s: int) -> bool:\n    return "
    out["ibench"] = Bench(
        "ibench", "int ibench(int n) { int s = 0; for (int i = 0; i < n; i++) s += 2; return s; }", [("n", "int")], ("s", "int"), "s",
        dict(loop_var="i", read=[("n", "int")], modified=[("s", "int")]), ["twice"],
        [ret + e for e in ("2 * n if n > 0 else 0", "twice(n) if n >= 0 else 0", "2 * n", "n + n", "0", "2 * n if n > 1 else 0", "2 * n - 1", "ite(n <= 0, 0, twice(n))", "ite(n > 0, ite(n > 1, n * 2, 2), 0)",
                           "ite(n > 0, 1, 0) * 2 * n", "True", "n > 0")]
        + ["def ibench(k: int) -> int:\n    return 2 * k if k > 0 else 0", "def other(n: int) -> int:\n    return 2 * n if n > 0 else 0",
           "def ibench(n: int, m: int) -> int:\n    return 2 * n if n > 0 else 0", "def maps(n: int) -> int:\n    return 0", "def ibench(n: int) -> int:\n    return ibench(n)"],
        [inv + e for e in ("s == 2 * i and i >= 0 and (i <= n or i == 0)", "s == 2 * i and (i <= n or i == 0)", "s == 2 * i and i <= n", "s == 2 * i", "s == twice(i) and i >= 0 and (i <= n or n < 0 and i == 0)",
                           "True", "False", "s == 2 * i and i >= 0 and i < n", "s == 2 * n", "s >= 0 and i >= 0", "s == i and (i <= n or i == 0)", "ite(i > 0, s == i + i and i <= n, s == 0 and i == 0)",
                           "s == 2 * i and (i <= n or i == 0) and invariant(i, n, s)", "s")]
        + ["def inv(i: int, n: int, s: int) -> bool:\n    return s == 2 * i and (i <= n or i == 0)",
           "def invariant(s: int, n: int, i: int) -> bool:\n    return s == 2 * i and (i <= n or i == 0)",
           "def invariant(i: int, n: int) -> bool:\n    return i <= n or i == 0",
           "def invariant(a: int, b: int, c: int) -> bool:\n    return c == 2 * a and (a <= b or a == 0)"],
        [(lambda e: {**e, "i": 0, "s": 0}, lambda e: e["i"] < e["n"], lambda e: {**e, "i": e["i"] + 1, "s": e["s"] + 2})])
    # a loop over a list
    ret = "def lbench(x: List[int], b: int) -> List[int]:\n    return "
    inv = "def invariant(b: int, i: int, out: List[int], x: List[int]) -> bool:\n    return "
    ok = "i >= 0 and i <= len(x) and out == vadd(x[:i], b)"
    out["lbench"] = Bench(
        "lbench", "vector<int> lbench(vector<int> x, int b) { vector<int> out; for (int i = 0; i < x.size(); i++) out.push_back(x[i] + b); return out; }",
        [("x", "vec"), ("b", "int")], ("out", "vec"), "agg.result", dict(loop_var="i", read=[("x", "vec"), ("b", "int")], modified=[("out", "vec")]),
        ["vadd", "vmap", "vall", "twice", "firsts", "rests"],
        [ret + e for e in ("vadd(x, b)", "vadd(vadd(x, 1), b - 1)", "vmap(x, x, lambda u, v: u + b)", "x", "vadd(x, 1)", "vadd(x[:1], b) + vadd(x[1:], b)", "[]", "vmap(x, x, lambda u, v: u - b)",
                           "vadd(x, ite(b > 0, b, b))", "vadd(firsts([x]), b) + vadd(x[1:], b) if len(x) > 0 else x", "vadd(x, b) + firsts(rests([[b]]))[:0]", "firsts(rests([[0, b]]))", "vadd(x, b) if len(x) < 2 else x")]
        + ["def lbench(b: int, x: List[int]) -> List[int]:\n    return vadd(x, b)", "def lbench(xs: List[int], a: int) -> List[int]:\n    return vadd(xs, a)"],
        [inv + e for e in (ok, "i <= len(x) and i >= 0 and out + vadd(x[i:], b) == vadd(x, b)", "i >= 0 and i <= len(x) and len(out) == i and out == vmap(x[:i], x, lambda u, v: v + b)",
                           "i >= 0 and i <= len(x) and out == vmap(x[:i], x[:i], lambda u, v: u + b)", "i >= 0 and i <= len(x) and out == vadd(x[:i], 1)", "True", "i >= 0 and i <= len(x)",
                           "i >= 0 and i < len(x) and out == vadd(x[:i], b)", "out == []", "out == vadd(x, b)", "i >= 0 and i <= len(x) and out == vadd(x, b)[:i]",
                           # lambdas that use variables the loop changes
                           "(i == 0 and len(out) == 0) or vall([i], lambda t: t != i)", "i >= 0 and vall(out, lambda t: t <= i)", "(i == 0 and len(out) == 0) or vall([0], lambda t: len(out) < i)",
                           "(i == 0 and len(out) == 0) or vall([b], lambda t: t != b)")]
        + ["def invariant(x: List[int], out: List[int], i: int, b: int) -> bool:\n    return " + ok, "def invariant1(b: int, i: int, out: List[int], x: List[int]) -> bool:\n    return " + ok],
        [(lambda e: {**e, "i": 0, "out": ()}, lambda e: e["i"] < len(e["x"]), lambda e: {**e, "i": e["i"] + 1, "out": e["out"] + (e["x"][e["i"]] + e["b"],)})])
    # a reduction, with a precondition
    ret = "def sbench(x: List[int]) -> int:\n    return "
    inv = "def invariant(i: int, s: int, x: List[int]) -> bool:\n    return "
    out["sbench"] = Bench(
        "sbench", "int sbench(vector<int> x) { int s = 0; for (int i = 0; i < x.size(); i++) s += x[i]; return s; }",
        [("x", "vec")], ("s", "int"), "s", dict(loop_var="i", read=[("x", "vec")], modified=[("s", "int")]), ["vsum", "twice"],
        [ret + e for e in ("vsum(x)", "x[0] + vsum(x[1:])", "vsum(x[:1]) + vsum(x[1:])", "x[0]", "vsum(x[1:])", "0", "twice(vsum(x)) - vsum(x)", "vsum(x + [0])")],
        [inv + e for e in ("i >= 0 and i <= len(x) and s == vsum(x[:i])", "i >= 0 and i <= len(x) and s + vsum(x[i:]) == vsum(x)", "s == vsum(x[:i])", "i >= 0 and s >= 0", "True",
                           "i >= 0 and i <= len(x) and vsum(x[:i]) == s and s >= i", "i > 0 and i <= len(x) and s == vsum(x[:i])")],
        [(lambda e: {**e, "i": 0, "s": 0}, lambda e: e["i"] < len(e["x"]), lambda e: {**e, "i": e["i"] + 1, "s": e["s"] + e["x"][e["i"]]})],
        pre=(lambda x: x.len() >= 1, lambda e: len(e["x"]) >= 1))
    # a loop nest
    ret = "def mbench(m: List[List[int]], b: int) -> List[List[int]]:\n    return "
    i1 = "def invariant1(b: int, m: List[List[int]], out: List[List[int]], row: int) -> bool:\n    return "
    i2 = "\n\ndef invariant2(b: int, col: int, m: List[List[int]], out: List[List[int]], row: int, row_vec: List[int]) -> bool:\n    return "
    o1 = "row >= 0 and row <= len(m) and out == madd(m[:row], b)"
    o2 = "row >= 0 and row < len(m) and col >= 0 and col <= len(m[row]) and row_vec == vadd(m[row][:col], b) and out == madd(m[:row], b)"
    out["mbench"] = Bench(
        "mbench", """vector<vector<int>> mbench(vector<vector<int>> m, int b) {
  vector<vector<int>> out;
  for (int row = 0; row < m.size(); row++) {
    vector<int> row_vec;
    for (int col = 0; col < m[row].size(); col++) row_vec.push_back(m[row][col] + b);
    out.push_back(row_vec);
  }
  return out;
}""",
        [("m", "mat"), ("b", "int")], ("out", "mat"), "agg.result",
        dict(outer="row", inner="col", oread=[("m", "mat"), ("b", "int")], iread=[("m", "mat"), ("b", "int"), ("row", "int")], omod=[("out", "mat")], imod=[("out", "mat"), ("row_vec", "vec")]),
        ["vadd", "madd"],
        [ret + e for e in ("madd(m, b)", "madd(m, 1)", "m", "madd(madd(m, b), 0)")],
        [i1 + a + i2 + c for a, c in ((o1, o2), (o1, "True"), ("True", o2), (o1, o2.replace("row < len(m)", "row <= len(m)")), (o1, o2.replace("and row_vec == vadd(m[row][:col], b)", "")),
                                      (o1.replace("row <= len", "row < len"), o2), (o1, o2.replace("col <=", "col <")), ("False", "False"))]
        + [i1 + o1, (i2 + o2).strip("\n") + "\n\n" + i1 + o1, i1.replace("invariant1", "invariant") + o1 + i2 + o2],
        [(lambda e: {**e, "row": 0, "out": ()}, lambda e: e["row"] < len(e["m"]), lambda e: {**e, "row": e["row"] + 1, "out": e["out"] + (e["row_vec"],)}),
         (lambda e: {**e, "col": 0, "row_vec": ()}, lambda e: e["col"] < len(e["m"][e["row"]]), lambda e: {**e, "col": e["col"] + 1, "row_vec": e["row_vec"] + (e["m"][e["row"]][e["col"]] + e["b"],)})],
        domain={"int": (-1, 0, 1, 2), "vec": [(), (1,), (2,), (0, 2)], "mat": [(), ((1,),), ((2,),), ((0, 2), (1,))]})
    return out


KIND = {"int": "int", "vec": "List[int]", "mat": "List[List[int]]"}


def obj(name, kind):
    from metalift.ir import Int, List

    return {"int": lambda: Int(name), "vec": lambda: List(Int, name), "mat": lambda: List(List[Int], name)}[kind]()


def loop_info(b):
    from llmlift_scripts.utils import DoubleLoopInfo, SingleLoopInfo
    from metalift.ir import Int

    i = b.info
    many = lambda k: [obj(n, t) for n, t in i[k]]
    if "outer" in i:
        return DoubleLoopInfo(outer_loop_var=Int(i["outer"]), inner_loop_var=Int(i["inner"]), outer_loop_read_vars=many("oread"), inner_loop_read_vars=many("iread"),
                              outer_loop_modified_vars=many("omod"), inner_loop_modified_vars=many("imod"))
    return SingleLoopInfo(loop_var=Int(i["loop_var"]), read_vars=many("read"), modified_vars=many("modified"))


def analyze(b):
    from llmlift_scripts.utils import get_inv_args, replace_args
    from metalift import ir
    from metalift.frontend.llvm import Driver, InvGrammar

    d = Driver()
    info = loop_info(b)
    args = get_inv_args(info)
    args = list(args) if isinstance(args, tuple) else [args]
    args = [replace_args(args=a, replace_args={b.out[0]: b.outc}) if b.outc != b.out[0] else a for a in args]
    f = d.analyze(os.path.join(DIR, b.name + ".ll"), os.path.join(DIR, b.name + ".loops"), b.name, [],
                  {f"{b.name}_inv{k}": InvGrammar(None, [], a) for k, a in enumerate(args)}, None)
    objs = [ir.Matrix(ir.Int, n) if t == "mat" else obj(n, t) for n, t in b.params]
    d.add_var_objects(objs)
    if b.pre:
        d.add_precondition(b.pre[0](*objs))
    f(*objs)
    return d, info


# ---------------------------------------------------------------- what is true
class Refused(Exception):
    pass


class Ite(ast.NodeTransformer):
    def visit_Call(self, node):
        self.generic_visit(node)
        if isinstance(node.func, ast.Name) and node.func.id == "ite" and len(node.args) == 3:
            return ast.IfExp(*node.args)
        return node


def python_fns(b, text):
    """The functions of a reply, run by Python itself; ite() is the conditional expression."""
    tree = ast.unparse(ast.fix_missing_locations(Ite().visit(ast.parse(text))))
    base = llmlift.run_python("from typing import *\n" + "\n\n".join(f.to_python() for f in dsl(b.fns) if f.name() != "rests"))
    base["rests"] = lambda m: [r[1:] for r in m if len(r) > 1]
    ns = llmlift.run_python("from typing import *\n" + tree, base)
    names = [n.name for n in ast.parse(text).body if isinstance(n, ast.FunctionDef)]
    return {n: ns[n] for n in names}


def params_of(f):
    return list(f.__code__.co_varnames[: f.__code__.co_argcount])


def lists(v):
    return [lists(x) for x in v] if isinstance(v, (tuple, list)) else v


def bind(f, state):
    """Call by name, with the values as Python lists."""
    return f(**{n: lists(state[n]) for n in params_of(f)})


def states(b, names, kinds):
    for vals in itertools.product(*[b.domain[kinds[n]] for n in names]):
        yield dict(zip(names, vals))


def ps_right(b, ps):
    """Whether the solution computes what the C function computes (None: not a solution of this function at all)."""
    fs = python_fns(b, ps)
    f = fs.get(b.name)
    if f is None or sorted(params_of(f)) != sorted(n for n, _ in b.params):
        return None
    for s in states(b, [n for n, _ in b.params], dict(b.params)):
        if b.pre and not b.pre[1](s):
            continue
        try:
            got = bind(f, s)
        except llmlift.Outside:
            continue  # its meaning there is not defined
        except (RecursionError, TypeError):
            return False
        if lists(final(b, s)[b.out[0]]) != got or type(got) is bool:
            return False
    return True


def final(b, s):
    def nest(k, e):
        init, cond, step = b.loops[k]
        e = init(e)
        while cond(e):
            if k + 1 < len(b.loops):
                e = nest(k + 1, e)
            e = step(e)
        return e

    return nest(0, s)


def judge(b, ps, inv):
    """The best judgement over the readings of the invariant: parameters by position or by name, and its name taken as meant."""
    out = []
    for reading in ("position", "name"):
        try:
            out.append(judge_as(b, ps, inv, reading))
        except (Refused, TypeError) as ex:
            out.append(ex)
    for k in (True, None, False):
        if any(o is k for o in out):
            return k
    raise Refused(str(out[0]))


def judge_as(b, ps, inv, reading):
    """True / False: the pair (does not) satisfy the verification condition; None: its meaning is not defined everywhere; raises Refused if it is no such pair."""
    right = ps_right(b, ps)
    f = python_fns(b, ps).get(b.name)
    if f is None or right is None:
        raise Refused("solution")
    gs = python_fns(b, inv)
    want = ["invariant"] if len(b.loops) == 1 else ["invariant1", "invariant2"]
    if len(gs) != len(want):
        raise Refused("invariant")
    if sorted(gs) != want:  # named otherwise: in this order
        gs = dict(zip(want, gs.values()))
    kinds = dict(b.params)
    kinds[b.out[0]] = b.out[1]
    for e in (b.info.get("modified") or b.info["imod"]):
        kinds[e[0]] = e[1]
    kinds[b.info.get("loop_var") or b.info["outer"]] = "int"
    if len(b.loops) == 2:
        kinds[b.info["inner"]] = "int"
    fixed = [n for n, _ in b.params]
    pre = b.pre[1] if b.pre else (lambda e: True)
    inner_names = [b.info["inner"], "row_vec"] if len(b.loops) == 2 else []
    outer = sorted(set(kinds) - set(inner_names))
    g1 = gs[want[0]]
    for g, names in zip([gs[w] for w in want], [outer, sorted(kinds)]):
        if len(params_of(g)) != len(names) or reading == "name" and sorted(params_of(g)) != names:
            raise Refused("parameters")

    def holds(f, e):
        v = bind(f, e) if reading == "name" else f(*[lists(e[n]) for n in (outer if f is g1 else sorted(kinds))])
        if not isinstance(v, bool):
            raise Refused("type")
        return v

    def post(e):
        return bind(f, e) == lists(e[b.out[0]])

    undefined = False

    def obligation(test):
        nonlocal undefined
        try:
            return test()
        except (llmlift.Outside, RecursionError, IndexError):
            undefined = True
            return True

    for s in states(b, fixed, kinds):
        if pre(s) and not obligation(lambda: holds(g1, b.loops[0][0](s))):
            return False
    for e in states(b, outer, kinds):
        if not pre(e):
            continue
        if len(b.loops) == 1:
            ok = obligation(lambda: not holds(g1, e) or (holds(g1, b.loops[0][2](e)) if b.loops[0][1](e) else post(e)))
        else:
            g2 = gs[want[1]]
            ok = obligation(lambda: not holds(g1, e) or (holds(g2, b.loops[1][0](e)) if b.loops[0][1](e) else post(e)))
        if not ok:
            return False
    if len(b.loops) == 2:
        for e in states(b, sorted(kinds), kinds):
            ok = obligation(lambda: not holds(g2, e) or (holds(g2, b.loops[1][2](e)) if b.loops[1][1](e) else holds(g1, b.loops[0][2](e))))
            if not ok:
                return False
    return None if undefined else True


# ---------------------------------------------------------------- verifiers
class Globals(dict):
    def __init__(self):
        super().__init__(BUILTIN)
        self.row = {}

    def get(self, n, d=None):
        return dict.get(self, n) or (lambda *a: self.row[n])


def symbols(t, acc):
    if isinstance(t, list):
        for x in t:
            symbols(x, acc)
    elif isinstance(t, Sym):
        acc.add(str(t))
    return acc


def conjuncts(t):
    if isinstance(t, list) and t and str(t[0]) in ("and", "&&"):
        return [c for x in t[1:] for c in conjuncts(x)]
    return [t]


def cvc5_stand_in(b, path):
    """Decides the emitted file by evaluating it on all values of a small domain."""
    text = open(path).read()
    g = Globals()
    try:
        sc = Script(interp=g, use_bodies=False).load(text)
        goal = sc.asserts[-1][1]
        if not (isinstance(goal, list) and str(goal[0]) == "not" and len(goal) == 2):
            return None
        used = {}
        for n, c in sc.bodies.items():
            used[n] = (symbols(c[4], set()) - {str(p[0]) for p in c[2]})
        for c in conjuncts(goal[1]):
            names, todo = set(), symbols(c, set())
            while todo:
                n = todo.pop()
                if n in names:
                    continue
                names.add(n)
                todo |= used.get(n, set())
            f, _ = sc.term(c, {})
            vs = sorted(n for n in names if n in sc.vars)
            for vals in itertools.product(*[domain_of(b, sc.vars[v]) for v in vs]):
                g.row = dict(zip(vs, vals))
                try:
                    if f(g.row) is False:
                        return "sat"
                except irsem.Undef:
                    pass
                except RecursionError:
                    return "unknown"
        return "unsat"
    except (SortError, Unbound) as ex:
        return f'(error "{ex}")'


def domain_of(b, sort):
    if sort == "Int":
        return b.domain["int"]
    if sort == "Bool":
        return (False, True)
    if sort == ("MLList", "Int"):
        return b.domain["vec"]
    if sort == ("MLList", ("MLList", "Int")):
        return b.domain["mat"]
    raise ValueError(sort)


def racket_stand_in(b, path):
    text = open(path).read()
    d = os.path.dirname(os.path.abspath(path))
    for n in ("utils.rkt", "bounded.rkt"):
        with open(os.path.join(d, n)) as f, open(os.path.join(env.REPO, "metalift", "utils", n)) as g:
            if f.read() != g.read():
                return None
    forms = read_all("\n".join(l for l in text.split("\n") if not l.startswith("#lang")))
    rk = load_runtime()
    kinds, goal = {}, None
    defined, required = set(), set()
    try:
        for f in forms:
            k = str(f[0]) if isinstance(f, list) else ""
            for q in f[1:] if k == "require" else []:
                if str(q).strip('"').endswith(".rkt"):  # which provide all they define
                    with open(os.path.join(d, str(q).strip('"'))) as g:
                        required |= set(re.findall(r"^\(define(?:-bounded)? \(?([^\s()]+)", g.read(), re.M))
        defined |= required
        for f in forms:
            k = str(f[0]) if isinstance(f, list) else ""
            if k.startswith("define"):
                for n in f[1:-1] if k == "define-symbolic" else [f[1][0] if isinstance(f[1], list) else f[1]]:
                    if str(n) in defined:
                        return RktError(f"module: identifier already defined: {n}")
                    defined.add(str(n))
            if k == "define-symbolic":
                for n in f[1:-1]:
                    rk.top[str(n)] = None
                    kinds[str(n)] = str(f[-1])
            elif k == "define" and isinstance(f[2], list) and str(f[2][0]) == "verify":
                goal = f[2][1][1]
                name = str(f[1])
            elif k == "define" and not isinstance(f[1], list):
                kinds[str(f[1])] = show(f[2])
                rk.top[str(f[1])] = None
            else:
                rk.form(f)
        if not forms or str(forms[-1]) != name:
            return None
        bodies = {str(f[1][0]): symbols(f[2:], set()) - {str(p) for p in f[1][1:]} for f in forms if isinstance(f, list) and str(f[0]).startswith("define") and isinstance(f[1], list)}
        for c in conjuncts(goal):
            names, todo = set(), symbols(c, set())
            while todo:
                n = todo.pop()
                if n in names:
                    continue
                names.add(n)
                todo |= bodies.get(n, set())
            fn = rk.compile(c)
            vs = sorted(n for n in names if n in kinds)
            for vals in itertools.product(*[b.domain["int"] if kinds[v] == "integer?" else b.domain["mat"] if kinds[v].count("(list") > 1 else b.domain["vec"] for v in vs]):
                rk.top.update(zip(vs, vals))
                try:
                    if fn({}) is False:
                        return "(model\n [x 1])"
                except RktError as ex:
                    if "unbound" in str(ex) or "arity" in str(ex):
                        raise
                    # the path fails: verify looks for a violated assertion, and a failing path is one
                    return "(model)"
        return "(unsat)"
    except RktError as ex:
        return RktError(str(ex))


# ---------------------------------------------------------------- one session
class End(BaseException):
    pass


MEMO = {}


def memo(check_solution):
    """check_solution is deterministic (that is P18's subject); parsing a text once is enough."""

    def f(*, solution, expected_num_funcs, dsl_code, lambda_exprs, arg_name_to_count):
        key = (solution if isinstance(solution, str) else repr(solution), expected_num_funcs, dsl_code, tuple(sorted((repr(k), v) for k, v in lambda_exprs.items())), tuple(sorted(arg_name_to_count.items())))
        if key not in MEMO:
            le, an = dict(lambda_exprs), dict(arg_name_to_count)
            try:
                out = check_solution(solution=solution, expected_num_funcs=expected_num_funcs, dsl_code=dsl_code, lambda_exprs=le, arg_name_to_count=an)
            except Exception as ex:
                out = ex
            except SystemExit as ex:
                out = ex
            MEMO[key] = (out, le, an)
        out, le, an = MEMO[key]
        if isinstance(out, BaseException):
            raise out
        lambda_exprs.update(le)
        arg_name_to_count.update(an)
        return copy.deepcopy(out)

    return f


def session(b, model, method, replies, solver, max_ps, max_inv, record=None):
    """(how it ended, number of replies used, questions) of one run of the algorithm."""
    from llmlift_scripts import synthesis as S

    asked = []
    it = iter(replies)

    def reply(kind, messages):
        asked.append((kind, copy.deepcopy(messages)))
        try:
            return next(it)
        except StopIteration:
            raise End("no more replies")

    BOX.reply = reply

    def run(cmd, *a, **k):
        prog = os.path.basename(str(cmd[0]))
        if prog not in ("cvc5", "racket"):
            raise AssertionError(f"unexpected process {cmd}")
        return solver(prog, cmd, a, k)

    shutil.rmtree("synthesisLogs", ignore_errors=True)
    S.subprocess = types.SimpleNamespace(run=run, PIPE=subprocess.PIPE, DEVNULL=subprocess.DEVNULL, CalledProcessError=subprocess.CalledProcessError)
    orig = S.check_solution
    S.check_solution = memo(orig) if not getattr(orig, "memo", False) else orig
    S.check_solution.memo = True
    try:
        with env.quiet():
            d, info = analyze(b)
            S.run_llm_synthesis_algorithm(
                driver=d, loop_info=info, output_var=obj(*b.out), source_code=b.source, benchmark_name=b.name, llm_model=getattr(S.LLMModel, model.upper()),
                dsl_fns=dsl(b.fns), dsl_fn_name_to_axioms={}, max_num_ps_sols=max_ps, max_num_inv_sols=max_inv, verification_method=getattr(S.VerificationMethod, method))
        end = "returned"
    except End:
        end = "asks on"
    except (Exception, SystemExit) as ex:
        end = "gave up" if str(ex) == "No correct solution found" else f"{type(ex).__name__}: {ex}"
        if not end.startswith("gave up") and not from_repo(ex) and not isinstance(ex, subprocess.CalledProcessError):
            raise
    return end, len(asked), asked


def block(text):
    return "Here it is:\n```python\n" + text + "\n```\nIt works."


def decide(b, answers):
    """A solver that decides the emitted file and reports its answers."""

    def solver(prog, cmd, a, k):
        path = str(cmd[-1])
        got = cvc5_stand_in(b, path) if prog == "cvc5" else racket_stand_in(b, path)
        answers.append(got)
        if isinstance(got, RktError):
            if k.get("check"):
                raise subprocess.CalledProcessError(1, cmd)
            return types.SimpleNamespace(returncode=1, stdout=b"", stderr=str(got).encode())
        if got is None:
            raise AssertionError("a file of an unknown form")
        return types.SimpleNamespace(returncode=1 if got.startswith("(error") else 0, stdout=(got + "\n").encode(), stderr=b"")

    return solver


def run_pairs(item):
    """Every proposed solution with every proposed invariant: accepted exactly if the pair is right."""
    bname, method, pairs = item
    start()
    b = benches()[bname]
    r = Res()
    for ps, invs in pairs:
        right = ps_right(b, ps)
        for inv in invs:
            answers = []
            end, n, _ = session(b, "gpt", method, [block(ps), block(inv)], decide(b, answers), 1, 1)
            what = f"{bname}, {method}: {ps!r} with {inv!r}: {end}, verifier {answers}"
            key = f"{bname}:{method}:{short(ps)}:{short(inv)}"
            try:
                want = judge(b, ps, inv)
            except Refused:
                want = "refused"
            except TypeError:
                want = "refused"  # ill-typed
            # lambdas with free variables and replies that rename what they were given may be refused
            free = captures(ps) or captures(inv) or renames(b, inv)
            r.add("states")
            r.add("transitions", 1 + len(answers))
            r.outcome(f"{method}:{end if end in ('returned', 'gave up') else 'raised'}:{want}")
            if end == "returned" and not right:
                r.bad(f"accepted-wrong:{key}", f"the solution is not equivalent to the function: {what}")
            elif end == "returned" and want in (False, "refused"):
                r.bad(f"accepted-unproved:{key}", f"the pair does not satisfy the verification condition ({want}): {what}")
            elif end != "returned" and want is True and not free:
                r.bad(f"rejected:{key}", f"the pair is right: {what}")
            elif end not in ("returned", "gave up") and not (method == "ROSETTE" and "CalledProcessError" in end):
                r.bad(f"ended:{key}", what)
            r.add("traces")
    return r


def run_sequels(item):
    """A proposal that the verifier refuses, then another pair: the second is judged as if the first had never been made."""
    bname, method, seqs = item
    start()
    b = benches()[bname]
    r = Res()
    for first, inv1, ps, inv in seqs:
        answers = []
        decided = decide(b, answers)
        runs = []

        def solver(prog, cmd, a, k):
            runs.append(prog)
            if len(runs) == 1:
                return answer("unknown", prog, cmd, k)
            return decided(prog, cmd, a, k)

        same = first == ps  # another invariant for the same solution
        replies = [block(first), block(inv1)] + ([block(inv)] if same else [block(ps), block(inv)])
        end, n, _ = session(b, "gpt", method, replies, solver, 1 if same else 2, 2 if same else 1)
        alone = []
        end1, _, _ = session(b, "gpt", method, [block(ps), block(inv)], decide(b, alone), 1, 1)
        what = f"{bname}, {method}: {ps!r} with {inv!r} after {first!r} with {inv1!r}: {end}, verifier {answers}; alone: {end1}, verifier {alone}"
        key = f"sequel:{bname}:{method}:{short(first)}:{short(inv1)}:{short(ps)}:{short(inv)}"
        r.add("states")
        r.add("transitions", len(runs))
        r.outcome(f"sequel:{method}:{end1}")
        if (end, [str(x) for x in answers]) != (end1, [str(x) for x in alone]):
            r.bad(key, what)
        elif end1 == "returned" and not ps_right(b, ps):
            r.bad(key, f"the solution is not equivalent to the function: {what}")
        r.add("traces")
    return r


def sequels(b, deep):
    """Pairs of attempts, over the solutions and invariants that use lambdas and one of each that does not."""
    ps = [p for p in b.ps if "lambda" in p]
    invs = [i for i in b.invs if "lambda" in i and not any(f"lambda t: {x}" in i for x in ("t !=", "t <=", "len"))]
    if not ps:
        return []
    ps, invs = b.ps[:1] + ps, b.invs[:1] + invs
    out = []
    for a, c in itertools.product(ps, ps):
        for i, j in itertools.product(invs, invs):
            if deep or len({a, c, i, j} & set(ps[1:] + invs[1:])) > 1:
                out.append((a, i, c, j))
    return out


def captures(text):
    for n in ast.walk(ast.parse(text)):
        if isinstance(n, ast.Lambda):
            own = {a.arg for a in n.args.args}
            if any(isinstance(m, ast.Name) and m.id not in own for m in ast.walk(n.body)):
                return True
    return False


def renames(b, inv):
    want = ["invariant"] if len(b.loops) == 1 else ["invariant1", "invariant2"]
    names = set(n for n, _ in b.params) | {n for k in ("modified", "omod", "imod") for n, _ in b.info.get(k, [])} | {b.info[k] for k in ("loop_var", "outer", "inner") if k in b.info}
    fs = [n for n in ast.parse(inv).body if isinstance(n, ast.FunctionDef)]
    return [f.name for f in fs] != want or any(a.arg not in names for f in fs for a in f.args.args) or any([a.arg for a in f.args.args] != sorted(a.arg for a in f.args.args) for f in fs)


def short(t):
    m = re.findall(r"return ([^\n]*)", t)
    return re.sub(r"\s+", "", "|".join(m))[:70]


def run_real(item):
    """The same with the real cvc5, for linear integer arithmetic (which it decides)."""
    bname, pairs = item
    start()
    b = benches()[bname]
    r = Res()

    for ps, invs in pairs:
        for inv in invs:
            said = []

            def solver(prog, cmd, a, k):
                k["stderr"] = subprocess.DEVNULL
                p = RUN([c.replace("--tlimit=100000", "--tlimit=2500") if isinstance(c, str) else c for c in cmd], *a, **k)
                said.append(p.stdout.decode().split("\n")[0])
                return p

            end, n, _ = session(b, "claude", "SMT", [block(ps), block(inv)], solver, 1, 1)
            try:
                want = judge(b, ps, inv)
            except (Refused, TypeError):
                want = "refused"
            r.add("states")
            r.add("traces")
            r.outcome(f"cvc5:{end}:{said[0][:8] if said else '-'}:{want}")
            what = f"{ps!r} with {inv!r}: {end}, cvc5 says {said}"
            if end == "returned" and want is not True or end != "returned" and said and said[0] in ("unsat", "sat") and want is True:
                r.bad(f"cvc5:{short(ps)}:{short(inv)}", f"right: {want}: {what}")
    return r


# ---------------------------------------------------------------- the loop itself
PS_KINDS = ["none", "bad", "name", "params", "ok"]
VERDICTS = {"SMT": ["unsat", "sat", "unknown", "timeout", "error", "empty", "killed", "late"], "ROSETTE": ["unsat", "sat", "unknown", "empty"]}
INV_KINDS = ["none", "bad"]


def texts():
    b = benches()["ibench"]
    return {"none": "I cannot do this.", "bad": block("def ibench(n: int) -> int:\n    return [n for n in range(3)]"), "name": block(b.ps[0].replace("ibench", "maps")),
            "params": block(b.ps[0].replace("n", "z").replace("defi", "")), "ok": block(b.ps[0])}


def answer(kind, prog, cmd, k):
    out = {"unsat": "unsat\n", "sat": "sat\n(model)\n", "unknown": "unknown\n", "timeout": "cvc5 interrupted by timeout.\n", "error": '(error "Parse Error: unsat")\n', "empty": "", "killed": "unsat\n", "late": "warning\nunsat\n"}[kind]
    if prog == "racket":
        out = {"unsat": "(unsat)\n", "sat": "(model\n [a 0])\n", "unknown": "(unknown)\n", "empty": ""}[kind]
    return types.SimpleNamespace(returncode=-9 if kind == "killed" else 1 if kind in ("error", "timeout") else 0, stdout=out.encode(), stderr=b"")


def histories(method, max_ps, max_inv):
    """(reply kinds in order, verdicts in order, expected end) of every way a run can go."""
    invs = INV_KINDS + ["ok:" + v for v in VERDICTS[method]]
    if method == "NONE":
        invs = INV_KINDS + ["ok:"]

    def inv_runs(n):
        if n == 0:
            yield (), False
            return
        for k in invs:
            if k in ("ok:unsat", "ok:"):
                yield (k,), True
            else:
                for rest, ok in inv_runs(n - 1):
                    yield (k,) + rest, ok

    def ps_runs(n):
        if n == 0:
            yield (), False
            return
        for k in PS_KINDS:
            if k != "ok":
                for rest, ok in ps_runs(n - 1):
                    yield (("ps", k),) + rest, ok
            else:
                for run, ok in inv_runs(max_inv):
                    if ok:
                        yield (("ps", "ok"),) + run, True
                    else:
                        for rest, ok2 in ps_runs(n - 1):
                            yield (("ps", "ok"),) + run + rest, ok2

    return list(ps_runs(max_ps))


VERDICTS["NONE"] = []


def run_histories(item):
    model, method, max_ps, max_inv, part = item
    start()
    b = benches()["ibench"]
    ps_text = texts()
    invs = [block(b.invs[0]), block(b.invs[1])]
    r = Res()
    for hist, ok in part:
        replies, verdicts, n = [], [], 0
        for h in hist:
            if h[0] == "ps":
                replies.append(ps_text[h[1]])
            elif h == "none":
                replies.append("No.")
            elif h == "bad":
                replies.append(block("def invariant(i: int) -> bool:\n    return i <"))
            else:
                replies.append(invs[n % 2])
                n += 1
                verdicts.append(h[3:])
        left = list(verdicts)

        def solver(prog, cmd, a, k):
            if not left:
                raise End("the verifier runs once more")
            return answer(left.pop(0), prog, cmd, k)

        end, used, asked = session(b, model, method, replies, solver, max_ps, max_inv)
        what = f"{model}, {method}, at most {max_ps} solutions and {max_inv} invariants each: {hist}: {end} after {used} of {len(replies)} replies, verdicts not asked for: {left}"
        want = "returned" if ok else "gave up"
        key = f"history:{model}:{method}:{'/'.join(h if isinstance(h, str) else '-'.join(h) for h in hist)}"[:150]
        r.add("states")
        r.add("transitions", used)
        if end != want:
            r.bad(key, f"should have {want}: {what}")
        elif used != len(replies) or (left and method != "NONE"):
            r.bad(key, what)
        else:
            feedback(r, key, hist, asked, replies, what)
        r.outcome(end)
        r.add("traces")
    return r


def flatten(m):
    return str(m.get("content", m.get("parts")))


def feedback(r, key, hist, asked, replies, what):
    """Each question repeats what was proposed before for the same part, and nothing else."""
    ps, inv = [], []
    for (kind, messages), h, rep in zip(asked, hist, replies):
        code = (re.findall(r"```python(.*?)```", rep, re.S) or [""])[0].strip()
        if h[0] == "ps":
            before, inv = ps, []
            ps = ps + [code]
        else:
            before = inv
            inv = inv + [code]
        roles = [m["role"] for m in messages if m["role"] != "system"]
        if roles != (["user", {"gemini": "model"}.get(kind, "assistant"), "user"] if before else ["user"]):
            r.bad(key + ":roles", f"{roles}: {what}")
            return
        if before:
            said = flatten([m for m in messages if m["role"] != "system"][1])
            for c in before:
                if c and c not in said:
                    r.bad(key + ":feedback", f"{c!r} is missing in {said!r}: {what}")
                    return


# ---------------------------------------------------------------- replace_ite
def ite_terms(depth):
    if depth == 0:
        return ["a", "2", "f(a, b)", "[a, b][1]"]
    sub = ite_terms(depth - 1)
    small = sub[:3] + sub[-2:]
    conds = ["p", "a < b", "g(a, b)", "ite(p, q, a < b)", "(p if q else a == b)", "p and q or a < b"]
    out = list(sub)
    for c in conds:
        for x in small:
            for y in small[:4]:
                out.append(f"ite({c}, {x}, {y})")
    for x in list(out[len(sub):])[::7]:
        out += [f"{x} + b", f"b - {x}", f"-{x}", f"f({x}, {x})", f"2 * {x} * a", f"{x} if p else b", f"[{x}, {x}][0]", f"h(lambda u, v: ite(u < v, f(v, u), {x}), a)", f"ite_int(p, {x}, b)", f"ite( p ,\n {x},\n b )"]
    return list(dict.fromkeys(out))


def run_ite(terms):
    start()
    from llmlift_scripts.utils import extract_all_python_functions, replace_ite

    r = Res()
    base = {"ite": lambda c, x, y: x if c else y, "ite_int": lambda c, x, y: x if c else y, "f": lambda x, y: 2 * x - y, "g": lambda x, y: x > y + 1, "h": lambda k, x: k(x, 2) - k(3, x)}
    for t in terms:
        src = f"def k(a, b, p, q):\n    return {t}\n"
        got = replace_ite(src)
        r.add("states")
        key = f"ite:{re.sub(chr(92) + 's+', '', t)[:80]}"
        try:
            n1, n2 = dict(base), {k: v for k, v in base.items() if k != "ite"}
            exec(src, n1)
            exec(got, n2)
            for a, b, p, q in itertools.product((0, 1, 3), (1, 2), (False, True), (False, True)):
                r.add("transitions")
                x, y = n1["k"](a, b, p, q), n2["k"](a, b, p, q)
                if x != y:
                    r.bad(key, f"{t!r} becomes {got!r}: {x} and {y} for a={a} b={b} p={p} q={q}")
                    break
        except Exception as ex:
            r.bad(key, f"{t!r} becomes {got!r}: {type(ex).__name__}: {ex}")
        r.outcome("ite")
    # replies: the code of all blocks, in order
    for blocks in itertools.product(["", "python", "Python", "cpp"], repeat=2):
        text = "x ".join(f"```{l}\ncode{i} = 1\n```" for i, l in enumerate(blocks))
        got = [c.strip() for c in extract_all_python_functions("Sure: " + text + " done")]
        r.add("states")
        if got != ["code0 = 1", "code1 = 1"]:
            r.bad(f"blocks:{blocks}", f"{got}")
    return r


def start():
    global BOX
    if BOX is None or BOX.pid != os.getpid():
        BOX = llmlift.stubs()
        BOX.pid = os.getpid()
        d = llmlift.setup()
        shutil.copytree(os.path.join(env.REPO, "metalift"), os.path.join(d, "metalift"), ignore=shutil.ignore_patterns("__pycache__"))
        os.environ["BITWUZLA_PATH"] = "/nowhere/bitwuzla"
    llmlift.setup()


def run_any(item):
    fn, part = item
    return fn(part)


def pairs(b, deep):
    """Solutions with the invariants tried with them."""
    return [(p, b.invs if deep or k < 2 else b.invs[:2]) for k, p in enumerate(b.ps)]


def body(chk):
    global DIR
    deep = chk.tier == "thorough"
    DIR = env.scratch()
    lib = llvmfront.build_pass()
    llvmfront.fresh_contexts()
    bs = benches()
    for b in bs.values():
        llvmfront.compile_ll(DIR, b.name, "#include <vector>\nusing namespace std;\n" + b.source + "\n", "cc", lib, STUB)
    work = []
    for b in bs.values():
        for method in ("SMT", "ROSETTE"):
            work += [(run_pairs, (b.name, method, c)) for c in env.chunks(pairs(b, deep), 2)]
    for method in ("SMT", "ROSETTE"):
        work += [(run_sequels, ("lbench", method, c)) for c in env.chunks(sequels(bs["lbench"], deep), 6)]
    work += [(run_real, ("ibench", c)) for c in env.chunks(pairs(bs["ibench"], deep), 3)]
    for model, method, n, m in ([("gpt", "SMT", 2, 2), ("claude", "SMT", 2, 1), ("gemini", "SMT", 2, 1), ("gpt", "ROSETTE", 2, 1), ("claude", "ROSETTE", 1, 2), ("gemini", "NONE", 2, 2), ("gpt", "SMT", 1, 3)]
                                + ([(k, "SMT", 2, 2) for k in ("claude", "gemini")] + [("gpt", "ROSETTE", 2, 2), ("gpt", "SMT", 3, 1)] if deep else [])):
        hs = histories(method, n, m)
        work += [(run_histories, (model, method, n, m, c)) for c in env.chunks(hs, 250)]
    work += [(run_ite, c) for c in env.chunks(ite_terms(2 if deep else 1), 200)]
    chk.pmap(run_any, work)
    chk.assume("the language models are stand-ins that send every listed reply; Racket is a stand-in that evaluates the emitted file on a small domain",
               "check_solution is deterministic (its results are remembered within a worker)")
    chk.finish(rule="all pairs of listed solutions and invariants for four benchmarks and both verifiers, the integer benchmark with the real cvc5; "
                    "all sequences of reply kinds and verifier answers up to the attempt bounds for the three models; all pairs of attempts over the solutions and invariants with lambdas; all nestings of ite up to a depth")


if __name__ == "__main__":
    env.main("P19", body)
