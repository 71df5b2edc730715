"""P43: a synthesis run ends with the functions that are equivalent to the programs, or with an exception."""
import itertools
import os
import re
import sys
import textwrap

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import decide, env, llvmfront, pyfront
from mc.env import Res, from_repo, quiet

from metalift import ir  # noqa: E402
from metalift import synthesize_cvc5 as SC  # noqa: E402
from metalift import synthesize_rosette as SR  # noqa: E402
from metalift.frontend import llvm as FL, python as FP  # noqa: E402
from metalift.ir import Int, List, Matrix, Set, Synth, call, choose, fn_decl, fn_decl_recursive, ite  # noqa: E402
from metalift.vc_util import and_objects  # noqa: E402
from mc.irsem import Sem, Undef  # noqa: E402
from mc.rkt import RktError  # noqa: E402
from mc.world import REAL, Hang, World, outputs  # noqa: E402

STUB = ("-I", os.path.join(env.VERIF, "mc", "include"))
DIR = LIB = None

INTS = (-2, -1, 0, 1, 2, 3)
FEW = (-1, 0, 1, 2)
WIDE = (-3, -2, -1, 0, 1, 2, 3, 4)
WIDER = False
LISTS = [(), (1,), (2,), (-1,), (0, 1), (1, 2), (2, 1)]
SETS = [frozenset(s) for s in ((), (1,), (2,), (0, 1), (1, 2))]
MATS = [(), ((1,),), ((0, 2),), ((1, 0), (2, 1)), ((2,), (1,))]


# ---------------------------------------------------------------- target languages
def dsl():
    a, b, x = Int("a"), Int("b"), List(Int, "x")
    el = List.empty(Int)
    s = Set(Int, "t")
    return {
        "sq": fn_decl("sq", Int, a * a, a),
        "mx": fn_decl("mx", Int, ite(a > b, a, b), a, b),
        "twice": fn_decl_recursive("twice", Int, a + a, a),
        "vadd": fn_decl_recursive("vadd", List[Int], ite(x.len() < 1, el, call("vadd", List[Int], x[1:], b).prepend(x[0] + b)), x, b),
        "vsum": fn_decl_recursive("vsum", Int, ite(x.len() < 1, Int(0), x[0] + call("vsum", Int, x[1:])), x),
        "with1": fn_decl("with1", Set[Int], s.add(Int(1)), s),
        "u": fn_decl("u", Int, None, a, b),
        "lm": fn_decl("lm", Int, None, a),
        "each": fn_decl_recursive("each", List[Int], ite(x.len() < 1, el, call("each", List[Int], x[1:]).prepend(call("lm", Int, x[0]))), x),
    }


def c1(name, *args):
    types = {"sq": Int, "mx": Int, "twice": Int, "vadd": List[Int], "vsum": Int, "with1": Set[Int], "u": Int, "lm": Int, "each": List[Int]}
    return call(name, types[name], *args)


def u(a, b):
    return 3 * a - b


# ---------------------------------------------------------------- the programs
class Fn:
    """A function of a program: its parameters, its grammars (over objects by name) and what it computes."""

    def __init__(self, name, params, ref, ps, invs=(), uninterp=(), langs=()):
        self.name, self.params, self.ref, self.ps, self.invs, self.uninterp = name, params, ref, ps, list(invs), list(uninterp)
        self.langs = list(langs)


class Prog:
    def __init__(self, name, lang, source, fns, right, langs=(), pre=None, prepy=None, calls=None, aux=None, evaluate=False, solver=True):
        self.name, self.lang, self.source, self.fns, self.right = name, lang, textwrap.dedent(source), fns, right
        self.langs, self.pre, self.prepy, self.calls, self.aux = [*langs, *(n for f in fns for n in f.langs)], pre, prepy, calls, aux
        self.evaluate, self.solver = evaluate, solver  # decide with the evaluator; also try with the real cvc5 as synthesizer


class V(dict):
    """Objects by name, as attributes."""

    __getattr__ = dict.__getitem__


def by_name(writes, reads, scope):
    v = V({o.var_name(): o for o in [*scope, *reads, *writes]})
    v["r"] = writes[0]
    v["tmp"] = v.get("agg.result", v["r"])
    return v


def programs():
    I = "int"
    out = []

    def add(*a, **k):
        out.append(Prog(*a, **k))

    half = lambda v, i="i", n="n", s="s": and_objects(v[s] == v[i] * 2, choose(v[i] <= v[n], v[i] < v[n], v[i] >= 0))
    # -- Python
    add("double", "py", """
        def f(n: int) -> int:
            i = 0
            s = 0
            while i < n:
                s = s + 2
                i = i + 1
            return s
        """, [Fn("f", [("n", I)], lambda n: 2 * n, lambda v: v.r == choose(v.n, v.n * 2, v.n + 1, c1("twice", v.n), Int(0)), [half])],
        [{"f_ps": "(* n 2)"}, {"f_ps": "(twice n)"}], langs=["twice"], pre=lambda v: v.n >= 0, prepy=lambda n: n >= 0)
    add("branch", "py", """
        def f(x: int, y: int) -> int:
            if x > y:
                return x - y
            else:
                return y - x
        """, [Fn("f", [("x", I), ("y", I)], lambda x, y: abs(x - y),
                 lambda v: v.r == choose(v.x - v.y, v.y - v.x, ite(choose(v.x > v.y, v.x >= v.y, v.x < v.y), v.x - v.y, v.y - v.x), c1("mx", v.x - v.y, v.y - v.x)))],
        [{"f_ps": "(if (> x y) (- x y) (- y x))"}, {"f_ps": "(if (>= x y) (- x y) (- y x))"}, {"f_ps": "(mx (- x y) (- y x))"}], langs=["mx"])
    add("chained", "py", """
        def g_ps(x: int) -> int:
            return x + 1

        def h(y: int) -> int:
            s = 0
            i = 0
            while i < y:
                i = i + 1
                s = s + 2
            return s
        """, [Fn("g_ps", [("x", I)], lambda x: x + 1, lambda v: v.r == choose(v.x + 1, v.x, v.x + 2)),
              Fn("h", [("y", I)], lambda y: 2 * max(y, 0), lambda v: v.r == choose(v.y, ite(v.y < 1, Int(0), v.y * 2), v.y * 2),
                 [lambda v: and_objects(v.s == v.i * 2, ite(v.y < 0, v.i == 0, v.i <= v.y))])],
        [{"g_ps_ps": "(+ x 1)", "h_ps": "(if (< y 1) 0 (* y 2))"}], calls=lambda f, v: f["h"](f["g_ps"](v.x)))
    add("languages", "py", """
        def f(x: int) -> int:
            return x * x

        def f_ps(y: int) -> int:
            return y + y
        """, [Fn("f", [("x", I)], lambda x: x * x, lambda v: v.r == choose(c1("sq", v.x), v.x), langs=["sq"]),
              Fn("f_ps", [("y", I)], lambda y: 2 * y, lambda v: v.r == choose(v.y, c1("twice", v.y)), langs=["twice"])],
        [{"f_ps": "(sq x)", "f_ps_ps": "(twice y)"}], calls=lambda f, v: f["f_ps"](f["f"](v.x)), solver=False)
    add("maps_psum", "py", """
        def maps_psum(n: int) -> int:
            i = 0
            s = 0
            while i < n:
                s = s + 2
                i = i + 1
            return s
        """, [Fn("maps_psum", [("n", I)], lambda n: 2 * n, lambda v: v.r == choose(v.n, v.n * 2), [half])],
        [{"maps_psum_ps": "(* n 2)"}], pre=lambda v: v.n >= 0, prepy=lambda n: n >= 0)
    add("two_loops", "py", """
        def f(n: int) -> int:
            i = 0
            s = 0
            while i < n:
                s = s + 1
                i = i + 1
            j = 0
            while j < n:
                s = s + 1
                j = j + 1
            return s
        """, [Fn("f", [("n", I)], lambda n: 2 * n, lambda v: v.r == choose(v.n, v.n * 2),
                 [lambda v: and_objects(v.s == v.i, choose(v.i <= v.n, v.i >= 0)), lambda v: and_objects(choose(v.s == v.n + v.j, v.s == v.n), v.j <= v.n)])],
        [{"f_ps": "(* n 2)"}], pre=lambda v: v.n >= 0, prepy=lambda n: n >= 0)
    add("fixed", "py", """
        def f(x: int, y: int) -> int:
            return x + y
        """, [Fn("f", [("x", I), ("y", I)], lambda x, y: x + y, lambda v: v.r == v.x + v.y)], [{}])
    add("fixed_wrong", "py", """
        def f(x: int, y: int) -> int:
            return x + y
        """, [Fn("f", [("x", I), ("y", I)], lambda x, y: x + y, lambda v: v.r == v.x - v.y)], [])
    add("twice", "py", """
        def twice(x: int) -> int:
            return x + x
        """, [Fn("twice", [("x", I)], lambda x: 2 * x, lambda v: v.r == choose(v.x, c1("twice", v.x), v.x * 3))],
        [{"twice_ps": "(twice x)"}], langs=["twice"])
    add("pairs", "py", """
        def f(x: int, y: int) -> int:
            u = (x, x + 1)
            v = (y, u)
            return u[1] + v[0]
        """, [Fn("f", [("x", I), ("y", I)], lambda x, y: x + y + 1, lambda v: v.r == choose(v.x, v.y) + choose(v.x + 1, v.y + 1, v.x))],
        [{"f_ps": "(+ y (+ x 1))"}, {"f_ps": "(+ x (+ y 1))"}])
    add("listed", "py", """
        from typing import List
        def f(x: List[int], k: int) -> List[int]:
            out: List[int] = []
            i = 0
            while i < len(x):
                out.append(x[i] + k)
                i = i + 1
            return out
        """, [Fn("f", [("x", "list"), ("k", I)], lambda x, k: tuple(a + k for a in x),
                 lambda v: v.r == choose(v.x, c1("vadd", v.x, v.k), c1("vadd", v.x, Int(1)), v.x + v.x),
                 [lambda v: and_objects(v.i >= 0, choose(v.i <= v.x.len(), v.i < v.x.len()), v.out == c1("vadd", v.x[: v.i], v.k))])],
        [{"f_ps": "(vadd x k)"}], langs=["vadd"], evaluate=True)
    add("list_fixed", "py", """
        from typing import List
        def f(x: List[int], a: int) -> List[int]:
            if a > 1:
                return x
            return x
        """, [Fn("f", [("x", "list"), ("a", I)], lambda x, a: x, lambda v: v.r == v.x)], [{}], evaluate=True)
    add("summed", "py", """
        from typing import List
        def f(x: List[int]) -> int:
            s = 0
            i = 0
            while i < len(x):
                s = s + x[i]
                i = i + 1
            return s
        """, [Fn("f", [("x", "list")], sum, lambda v: v.r == choose(c1("vsum", v.x), c1("vsum", v.x[1:]), v.x.len()),
                 [lambda v: and_objects(v.i >= 0, v.i <= v.x.len(), choose(v.s == c1("vsum", v.x[: v.i]), v.s + c1("vsum", v.x[v.i:]) == c1("vsum", v.x)))])],
        [{"f_ps": "(vsum x)"}], langs=["vsum"], evaluate=True)
    add("sets", "py", """
        from typing import Set
        def f(s: Set[int], v: int) -> Set[int]:
            if v > 1:
                s.add(v)
                return s
            else:
                s.add(v)
                return s
        """, [Fn("f", [("s", "set"), ("v", I)], lambda s, v: s | {v}, lambda v: v.r == choose(v.s, v.s.add(v.v), c1("with1", v.s)))],
        [{"f_ps": "(set-insert v s)"}], langs=["with1"], evaluate=True)
    add("unknown", "py", """
        def u(x: int, y: int) -> int:
            return x

        def f(i: int, j: int) -> int:
            return u(i, i) + u(j, i)
        """, [Fn("f", [("i", I), ("j", I)], lambda i, j: u(i, i) + u(j, i), lambda v: v.r == choose(c1("u", v.i, v.i), c1("u", v.i, v.i) + c1("u", v.j, choose(v.i, v.j))), uninterp=["u"])],
        [{"f_ps": "(+ (u i i) (u j i))"}], langs=["u"], solver=False)
    a = Int("a")
    add("helper", "py", """
        def f(x: int, y: int) -> int:
            return x + x + y + y
        """, [Fn("f", [("x", I), ("y", I)], lambda x, y: 2 * x + 2 * y, lambda v: v.r == choose(c1("lm", v.x) + c1("lm", v.y), c1("lm", v.x)))],
        [{"f_ps": "(+ (lm x) (lm y))", "lm": "(+ a a)"}], langs=["lm"], aux=lambda: [Synth("lm", choose(a, a + a, a * a).src, a.src)], solver=False)
    add("helper_only", "py", """
        def f(x: int, y: int) -> int:
            return x + x + y + y
        """, [Fn("f", [("x", I), ("y", I)], lambda x, y: 2 * x + 2 * y, lambda v: v.r == c1("lm", v.x) + c1("lm", v.y))],
        [{"lm": "(+ a a)"}], langs=["lm"], aux=lambda: [Synth("lm", choose(a, a + a, a * a).src, a.src)], solver=False)
    add("helper_each", "py", """
        from typing import List
        def f(x: List[int], k: int) -> List[int]:
            out: List[int] = []
            i = 0
            while i < len(x):
                out.append(x[i] + x[i])
                i = i + 1
            return out
        """, [Fn("f", [("x", "list"), ("k", I)], lambda x, k: tuple(2 * a for a in x),
                 lambda v: v.r == choose(v.x, c1("each", v.x)),
                 [lambda v: and_objects(v.i >= 0, v.i <= v.x.len(), v.out == c1("each", v.x[: v.i]))])],
        [{"f_ps": "(each x)", "lm": "(+ a a)"}], langs=["lm", "each"], aux=lambda: [Synth("lm", choose(a, a + a, a + 1).src, a.src)], evaluate=True, solver=False)
    # -- C and C++
    add("chelper", "c", """
        int f(int x, int y) { return x + x + y + y; }
        """, [Fn("f", [("x", I), ("y", I)], lambda x, y: 2 * x + 2 * y, lambda v: v.r == choose(c1("lm", v.x) + c1("lm", v.y), c1("lm", v.x)))],
        [{"f_ps": "(+ (lm x) (lm y))", "lm": "(+ a a)"}], langs=["lm"], aux=lambda: [Synth("lm", choose(a, a + a, a * a).src, a.src)], solver=False)
    add("chelper_each", "cc", """
        #include <vector>
        using namespace std;
        vector<int> f(vector<int> x) {
          vector<int> out;
          for (int i = 0; i < x.size(); i++)
            out.push_back(x[i] + x[i]);
          return out;
        }
        """, [Fn("f", [("x", "list")], lambda x: tuple(2 * a for a in x), lambda v: v.r == choose(v.x, c1("each", v.x)),
                 [lambda v: and_objects(v.i >= 0, v.i <= v.x.len(), v.tmp == c1("each", v.x[: v.i]))])],
        [{"f_ps": "(each x)", "lm": "(+ a a)"}], langs=["lm", "each"], aux=lambda: [Synth("lm", choose(a, a + a, a + 1).src, a.src)], evaluate=True, solver=False)
    add("clanguages", "c", """
        int f(int x) { return x * x; }
        int f_ps(int y) { return y + y; }
        """, [Fn("f", [("x", I)], lambda x: x * x, lambda v: v.r == choose(c1("sq", v.x), v.x), langs=["sq"]),
              Fn("f_ps", [("y", I)], lambda y: 2 * y, lambda v: v.r == choose(v.y, c1("twice", v.y)), langs=["twice"])],
        [{"f_ps": "(sq x)", "f_ps_ps": "(twice y)"}], calls=lambda f, v: (f["f_ps"](v.y), f["f"](v.x)))
    add("ctwo", "c", """
        int g(int x) { return x + 1; }
        int h(int y) {
          int s = 0;
          for (int i = 0; i < y; i++)
            s = s + 2;
          return s;
        }
        """, [Fn("g", [("x", I)], lambda x: x + 1, lambda v: v.r == choose(v.x + 1, v.x, v.x + 2)),
              Fn("h", [("y", I)], lambda y: 2 * max(y, 0), lambda v: v.r == choose(v.y, ite(v.y < 1, Int(0), v.y * 2), v.y * 2),
                 [lambda v: and_objects(v.s == v.i * 2, ite(v.y < 0, v.i == 0, v.i <= v.y))])],
        [{"g_ps": "(+ x 1)", "h_ps": "(if (< y 1) 0 (* y 2))"}], calls=lambda f, v: (f["g"](v.x), f["h"](v.y)))
    add("cmat", "cc", """
        #include <vector>
        using namespace std;
        vector<vector<int>> f(vector<vector<int>> x) {
          vector<vector<int>> out;
          for (int i = 0; i < x.size(); i++)
            out.push_back(x[i]);
          return out;
        }
        """, [Fn("f", [("x", "mat")], lambda x: x, lambda v: v.r == choose(v.x[1:], v.x), [lambda v: and_objects(v.i >= 0, v.i <= v.x.len(), v.tmp == v.x[: v.i])])],
        [{"f_ps": "x"}], evaluate=True)
    inv = lambda v: and_objects(v.s == v.i * 2, choose(v.i <= v.n, v.i < v.n, v.i >= 0))
    add("cdouble", "c", """
        int f(int n) {
          int s = 0;
          for (int i = 0; i < n; i++)
            s = s + 2;
          return s;
        }
        """, [Fn("f", [("n", I)], lambda n: 2 * n, lambda v: v.r == choose(v.n, v.n * 2, v.n + 1, c1("twice", v.n), Int(0)), [inv])],
        [{"f_ps": "(* n 2)"}, {"f_ps": "(twice n)"}], langs=["twice"], pre=lambda v: v.n >= 0, prepy=lambda n: n >= 0)
    add("cmaps_psum", "c", """
        int maps_psum(int n) {
          int s = 0;
          for (int i = 0; i < n; i++)
            s = s + 2;
          return s;
        }
        """, [Fn("maps_psum", [("n", I)], lambda n: 2 * n, lambda v: v.r == choose(v.n, v.n * 2), [inv])],
        [{"maps_psum_ps": "(* n 2)"}], pre=lambda v: v.n >= 0, prepy=lambda n: n >= 0)
    add("ctwice", "c", """
        int twice(int x) { return x + x; }
        """, [Fn("twice", [("x", I)], lambda x: 2 * x, lambda v: v.r == choose(v.x, c1("twice", v.x), v.x * 3))],
        [{"twice_ps": "(twice x)"}], langs=["twice"])
    add("cbranch", "c", """
        int f(int x, int y) {
          if (x > y) return x - y;
          else return y - x;
        }
        """, [Fn("f", [("x", I), ("y", I)], lambda x, y: abs(x - y),
                 lambda v: v.r == choose(v.x - v.y, v.y - v.x, ite(choose(v.x > v.y, v.x >= v.y, v.x < v.y), v.x - v.y, v.y - v.x), c1("mx", v.x - v.y, v.y - v.x)))],
        [{"f_ps": "(if (> x y) (- x y) (- y x))"}, {"f_ps": "(if (>= x y) (- x y) (- y x))"}, {"f_ps": "(mx (- x y) (- y x))"}], langs=["mx"])
    add("cnested", "c", """
        int f(int n) {
          int s = 0;
          for (int i = 0; i < n; i++) {
            for (int j = 0; j < 2; j++)
              s = s + 1;
          }
          return s;
        }
        """, [Fn("f", [("n", I)], lambda n: 2 * n, lambda v: v.r == choose(v.n, v.n * 2),
                 [lambda v: and_objects(v.s == v.i * 2, choose(v.i <= v.n, v.i >= 0)),
                  lambda v: and_objects(choose(v.s == v.i * 2 + v.j, v.s == v.j), v.i < v.n, v.j <= 2)])],
        [{"f_ps": "(* n 2)"}], pre=lambda v: v.n >= 0, prepy=lambda n: n >= 0)
    add("cunknown", "c", """
        int u(int i, int j) { return i; }
        int f(int i, int j) { return u(i, i) + u(j, i); }
        """, [Fn("f", [("i", I), ("j", I)], lambda i, j: u(i, i) + u(j, i), lambda v: v.r == choose(c1("u", v.i, v.i), c1("u", v.i, v.i) + c1("u", v.j, choose(v.i, v.j))), uninterp=["u"])],
        [{"f_ps": "(+ (u i i) (u j i))"}], langs=["u"], solver=False)
    add("cvec", "cc", """
        #include <vector>
        using namespace std;
        vector<int> f(vector<int> x, int k) {
          vector<int> out;
          for (int i = 0; i < x.size(); i++)
            out.push_back(x[i] + k);
          return out;
        }
        """, [Fn("f", [("x", "list"), ("k", I)], lambda x, k: tuple(a + k for a in x),
                 lambda v: v.r == choose(v.x, c1("vadd", v.x, v.k), c1("vadd", v.x, Int(1)), v.x + v.x),
                 [lambda v: and_objects(v.i >= 0, choose(v.i <= v.x.len(), v.i < v.x.len()), v.tmp == c1("vadd", v.x[: v.i], v.k))])],
        [{"f_ps": "(vadd x k)"}], langs=["vadd"], evaluate=True)
    add("cvec_fixed", "cc", """
        #include <vector>
        using namespace std;
        vector<int> f(vector<int> x) {
          vector<int> out;
          for (int i = 0; i < x.size(); i++)
            out.push_back(x[i]);
          return out;
        }
        """, [Fn("f", [("x", "list")], lambda x: x, lambda v: v.r == v.x, [lambda v: and_objects(v.i >= 0, v.i <= v.x.len(), v.tmp == v.x[: v.i])])],
        [{}], evaluate=True)
    add("csum", "cc", """
        #include <vector>
        using namespace std;
        int f(vector<int> x) {
          int s = 0;
          for (int i = 0; i < x.size(); i++)
            s = s + x[i];
          return s;
        }
        """, [Fn("f", [("x", "list")], sum, lambda v: v.r == choose(c1("vsum", v.x), c1("vsum", v.x[1:]), v.x.len()),
                 [lambda v: and_objects(v.i >= 0, v.i <= v.x.len(), choose(v.s == c1("vsum", v.x[: v.i]), v.s + c1("vsum", v.x[v.i:]) == c1("vsum", v.x)))])],
        [{"f_ps": "(vsum x)"}], langs=["vsum"], evaluate=True)
    return {p.name: p for p in out}


# ---------------------------------------------------------------- running a driver
def mk(name, kind):
    return {"int": lambda: Int(name), "list": lambda: List(Int, name), "set": lambda: Set(Int, name), "mat": lambda: Matrix(Int, name)}[kind]()


def analyzed(p):
    """(driver, {function name: the analyzed function}) after all calls."""
    decls = dsl()
    own = [n for n in p.langs if not any(n in f.langs for f in p.fns)]
    fns = {}
    if p.lang == "py":
        path = os.path.join(DIR, p.name + ".py")
        d = FP.Driver()
    else:
        d = FL.Driver()
    for k, f in enumerate(p.fns):
        def ps(writes, reads, scope, relaxed=None, f=f):
            return f.ps(by_name(writes, reads, scope))

        targets = lambda k=k, f=f: [decls[n] for n in [*(own if k == 0 else []), *f.langs]]
        if p.lang == "py":
            used = iter(())
            made = []

            def inv(writes, reads, scope, relaxed=None, f=f):
                v = by_name(writes, reads, scope)
                # which loop this is: the one whose grammar speaks about the variables there are
                for g in f.invs:
                    try:
                        e = g(v)
                    except KeyError:
                        continue
                    if "j" in v and g is not f.invs[-1]:
                        continue
                    return e
                raise AssertionError(f"no invariant over {sorted(v)}")

            fns[f.name] = d.analyze(path, f.name, targets, inv, ps, uninterp_fns=f.uninterp)
            d.uninterp_fns = list({*d.uninterp_fns, *f.uninterp})
        else:
            scope = llvmfront.locals_of(os.path.join(DIR, p.name + ".ll"), f.name)
            invs = {}
            for i, g in enumerate(f.invs):
                invs[f"{f.name}_inv{i}"] = FL.InvGrammar(lambda writes, reads, sc, relaxed=None, g=g: g(by_name(writes, reads, sc)), [s for s in scope if s != "agg.result"])
            fns[f.name] = d.analyze(os.path.join(DIR, p.name + ".ll"), os.path.join(DIR, p.name + ".loops"), f.name, targets, invs, ps)
    if p.aux:
        d.fns_synths = p.aux()
    v = V({n: mk(n, k) for n, k in dict(x for f in (p.fns if p.lang != "py" else p.fns[:1]) for x in f.params).items()})
    d.add_var_objects(list(v.values()))
    if p.pre:
        d.add_precondition(p.pre(v))
    if p.calls:
        p.calls(fns, v)
    else:
        f = p.fns[0]
        kw = {"uninterp_fns": f.uninterp} if p.lang != "py" and f.uninterp else {}
        fns[f.name](*v.values(), **kw)
    return d, fns


def domain(sort):
    sort = str(sort) if not isinstance(sort, tuple) else sort
    if sort == "Int" or sort == "integer?":
        return WIDE if WIDER else FEW
    if sort == "Bool" or sort == "boolean?":
        return (False, True)
    if sort == ("MLList", "Int"):
        return LISTS
    if sort == ("MLList", ("MLList", "Int")):
        return MATS
    if sort == ("Set", "Int"):
        return SETS
    if isinstance(sort, tuple) and str(sort[0]).startswith("Tuple"):
        return list(itertools.product(*[domain(s) for s in sort[1:]]))
    if isinstance(sort, str) and sort.startswith("(take"):
        return LISTS
    if isinstance(sort, str) and sort.startswith("(sort (remove-duplicates"):
        return [tuple(sorted(s)) for s in SETS]
    if isinstance(sort, str) and sort.startswith("(make-tuple"):
        return list(itertools.product(*[FEW] * (len(sort.split()) - 1)))
    raise ValueError(f"no values for {sort}")


def answer(out, text, choice, names, q):
    """The events of a Rosette process that answers with these words (None: no solution)."""

    def make(proc):
        ev = []
        for name, outs, _ in outputs(text()):
            for f in outs:
                if str(f[0]) == "rename-file-or-directory":
                    ev.append(lambda f=f: os.rename(os.path.join(proc.cwd, str(f[1])), os.path.join(proc.cwd, str(f[2]))))
                    continue
                path = os.path.join(proc.cwd, str(f[1]))
                said = "#f\n" if choice is None else "#t\n" + "".join(out)

                def write(path=path, said=said):
                    with open(path, "x") as h:
                        h.write(said)

                ev.append(write)
            break
        if choice is None:
            ev.append(lambda: setattr(proc, "returncode", 1))
        return ev

    return make


class Stop(BaseException):
    pass


def emitted(d, fns, p):
    """The query that synthesize() starts Racket with."""
    got = []

    class Starts:
        def __call__(self, argv, *a, **k):
            got.append(open(argv[-1]).read())
            raise Stop()

    w = World(lambda proc: [])
    w.popen = Starts()
    with w, quiet():
        try:
            start(d, p)
        except Stop:
            pass
    return got[0] if got else None


def start(d, p):
    for f in os.listdir("synthesisLogs") if os.path.isdir("synthesisLogs") else []:
        os.remove(os.path.join("synthesisLogs", f))
    if p.lang == "py":
        d.synthesize()
    else:
        kw = {"uninterp_fns": p.fns[0].uninterp} if p.fns[0].uninterp else {}
        d.synthesize(filename=p.name, **kw)


def mentions_choice(rules):
    def has(t):
        return isinstance(t, list) and t and (str(t[0]) == "choose" and len(t) > 2 or any(has(x) for x in t))

    return any(has(r) for r in rules.values())


def equivalent(p, f, expr, lm=None):
    """Whether an expression over the parameters computes what the function does, on all small inputs."""
    sem = Sem(fns={"u": u, "lm": lm} if lm else {"u": u})
    decls = dsl()
    for n in p.langs:
        if decls[n].body() is not None:
            sem.declare(decls[n])
    g = sem.compile(expr)
    doms = {"int": INTS, "list": LISTS, "set": SETS, "mat": MATS}
    for vals in itertools.product(*[doms[k] for _, k in f.params]):
        if f is p.fns[0] and p.prepy and not p.prepy(*vals):
            continue
        try:
            got = g(dict(zip([n for n, _ in f.params], vals)))
        except Undef:
            got = None
        if got != f.ref(*vals) or isinstance(got, bool) != isinstance(f.ref(*vals), bool):
            return f"{dict(zip([n for n, _ in f.params], vals))}: {got!r}, the program computes {f.ref(*vals)!r}"
    return None


def normal(text):
    return re.sub(r"\s+", " ", text).replace(" )", ")").strip()


def rhs(word):
    """The right side of (equal? rv word)."""
    return normal(decide.text_of(word[2]))


def run(item):
    pname, cvc5 = item
    global WIDER
    p = programs()[pname]
    WIDER = not p.evaluate
    d0 = env.scratch()
    os.chdir(d0)
    r = Res()
    with quiet():
        try:
            d, fns = analyzed(p)
        except Exception as ex:
            if not from_repo(ex):
                raise
            r.bad(f"analyze:{pname}", f"{type(ex).__name__}: {ex}")
            return r
    for f in p.fns:
        try:
            fns[f.name].codegen(lambda e: e)
            r.bad(f"early:{pname}:{f.name}", "code is generated before synthesis")
        except Exception:
            pass
    if cvc5:
        return sygus(r, p, d, fns)
    try:
        text = emitted(d, fns, p)
    except Exception as ex:
        if not from_repo(ex):
            raise
        r.bad(f"emit:{pname}", f"{type(ex).__name__}: {ex}")
        return r
    try:
        q = decide.Query(text, domain, {"u": u})
    except RktError as ex:
        r.bad(f"query:{pname}", f"{ex}: {text}")
        return r
    names = list(q.heads)
    need = [f.name + "_ps" for f in p.fns]
    if [n for n in need if n not in names]:
        r.bad(f"query:{pname}", f"{names} has not all of {need}")
        return r
    words = {n: q.words(n) for n in names}
    found = False
    for combo in itertools.product(*[words[n] for n in names]):
        choice = dict(zip(names, combo))
        try:
            q2 = q.right(choice)
        except RktError as ex:
            r.bad(f"query-fails:{pname}", f"Racket cannot run the query with {choice}: {ex}")
            return r
        r.add("states")
        r.add("transitions", len(names))
        # Rosette prints the functions in which it had to choose
        forms = [f"/scratch/synthesisLogs/x.rkt:{40 + k}:0\n'(define ({n} {' '.join(q.params[n])})\n   {decide.text_of(w)})\n" for k, (n, w) in enumerate(choice.items())
                 if mentions_choice(q.heads[n][0])]
        said, disagree = [], []

        def verifier(argv, said=said, disagree=disagree):
            if os.path.basename(argv[0]) != "cvc5":
                return None
            t = open(argv[-1]).read()
            a = decide.smt(t, domain, {"u": u})
            if not p.evaluate and not any(f.uninterp for f in p.fns):
                c = REAL[0](["cvc5", "--lang=smt", "--produce-models", f"--tlimit={20000 if a == 'unsat' else 400}", argv[-1]], stdout=-1, stderr=-1).communicate()[0].decode()
                b = c.split("\n")[0]
                if b == "unsat" and a != b or b == "sat" and a not in ("sat", "unsat") or b.startswith("(error"):
                    disagree.append(f"the evaluator says {a} and cvc5 {c[:200]}")
                if b in ("sat", "unsat"):
                    said.append(b)
                    return (0 if b == "sat" else 1, c.encode(), b"")
            said.append(str(a))
            return (0 if a == "sat" else 1, (str(a) + "\n").encode(), b"")

        w = World(answer(forms, lambda: text, choice, names, q), (), verifier)
        for f in p.fns:
            fns[f.name].synthesized = None
        with w, quiet():
            try:
                start(d, p)
                end = "returned"
            except Hang:
                end = "hang"
            except Exception as ex:
                if not from_repo(ex):
                    raise
                end = f"{type(ex).__name__}: {ex}"
        r.add("traces")
        shown = {n: normal(decide.text_of(x)) for n, x in choice.items()}
        what = f"{pname} with {shown}: {end[:300]}, verifier {said}, query {q2}"
        key = f"{pname}:{'/'.join(shown.values())}"[:160]
        right = any(all((rhs(choice[n]) if n.endswith("_ps") else shown[n]) == t for n, t in x.items()) for x in p.right)
        bad = {f.name: equivalent(p, f, fns[f.name].synthesized, p.aux and q.rk.top["lm"]) for f in p.fns if fns[f.name].synthesized is not None}
        r.outcome(f"{end.split(':')[0]}:{q2}:{said[-1:] and said[-1][:20]}")
        if disagree:
            r.bad(f"evaluator:{key}", f"{disagree}: {what}")
        if end == "returned":
            if any(fns[f.name].synthesized is None for f in p.fns):
                r.bad(f"nothing:{key}", f"not every function has a result: {what}")
            elif any(bad.values()):
                r.bad(f"wrong:{key}", f"{bad}: {what}")
            elif p.lang != "py":
                recorded(r, key, what, p, d, choice, q)
            if not q2:
                r.bad(f"unasked:{key}", f"the query excludes this answer, which is verified: {what}")
        else:
            if not end.startswith("VerificationFailed"):
                r.bad(f"end:{key}", what)
            elif said and said[-1] == "unsat":
                r.bad(f"refused:{key}", what)
        if right and q2 and end == "returned":
            found = True
        if right and not q2 and len(p.fns[0].invs) == 0:
            r.bad(f"query-refuses:{key}", f"the query excludes the program's meaning: {what}")
    if p.right and not found:
        r.bad(f"lost:{pname}", f"no solution in {len(list(itertools.product(*words.values())))} candidates is found, although {p.right} is right")
    # no solution
    w = World(answer([], lambda: text, None, names, q), (), lambda argv: (0, b"unsat\n", b""))
    with w, quiet():
        try:
            start(d, p)
            end = "returned"
        except Hang:
            end = "hang"
        except Exception as ex:
            end = type(ex).__name__
    r.add("traces")
    if end != "SynthesisFailed":
        r.bad(f"none:{pname}", f"Rosette has no solution, and synthesize: {end}")
    return r


def recorded(r, key, what, p, d, choice, q):
    """What the LLVM driver keeps beside the results: every synthesized function, and the summary as a function."""
    missing = [n for n in choice if n not in d.synthesized_fns]
    if missing:
        r.bad(f"recorded:{key}", f"no {missing} in {list(d.synthesized_fns)}: {what}")
    if len(p.fns) > 1:
        return
    f = p.fns[0]
    decl = d.get_actual_ps_fn_decl()
    names = [a.args[0] for a in decl.arguments()]
    if sorted(names) != sorted(n for n, _ in f.params) or decl.name() != f.name + "_ps":
        r.bad(f"summary:{key}", f"{decl.name()} has the parameters {names}: {what}")
    if str(decl.return_type()) != str(create(f.params, f.ref)):
        r.bad(f"summary-type:{key}", f"{decl.return_type()} is not {create(f.params, f.ref)}: {what}")
    e = equivalent(p, f, decl.body(), p.aux and q.rk.top["lm"])
    if e:
        r.bad(f"summary-value:{key}", f"{e}: {what}")


def create(params, ref):
    """The type of what a reference function returns."""
    v = ref(*[{"int": 1, "list": (1,), "mat": ((1,),)}[k] for _, k in params])
    return Int if isinstance(v, int) else Matrix[Int] if isinstance(v[0], tuple) else List[Int]


def sygus(r, p, d, fns):
    """The same with the real cvc5 as the synthesizer."""
    mod = FP if p.lang == "py" else FL
    old = mod.run_synthesis
    mod.run_synthesis = SC.synthesize
    try:
        with quiet():
            try:
                start(d, p)
                end = "returned"
            except Exception as ex:
                if not from_repo(ex):
                    raise
                end = f"{type(ex).__name__}: {ex}"
    finally:
        mod.run_synthesis = old
    r.add("states")
    r.add("traces")
    bad = {f.name: equivalent(p, f, fns[f.name].synthesized) for f in p.fns if fns[f.name].synthesized is not None}
    got = {f.name: str(fns[f.name].synthesized) for f in p.fns}
    what = f"{p.name} with SyGuS: {end[:300]}, {got}"
    r.outcome(f"sygus:{end.split(':')[0]}")
    if end == "returned":
        if any(fns[f.name].synthesized is None for f in p.fns):
            r.bad(f"sygus-nothing:{p.name}", what)
        elif any(bad.values()):
            r.bad(f"sygus-wrong:{p.name}", f"{bad}: {what}")
    elif p.right:
        r.bad(f"sygus-end:{p.name}", what)
    return r


def body(chk):
    global DIR, LIB
    DIR = env.scratch()
    LIB = llvmfront.build_pass()
    llvmfront.fresh_contexts()
    ps = programs()
    for p in ps.values():
        if p.lang == "py":
            with open(os.path.join(DIR, p.name + ".py"), "w") as f:
                f.write(p.source)
        else:
            llvmfront.compile_ll(DIR, p.name, p.source, p.lang, LIB, STUB if p.lang == "cc" else ())
    pyfront.preload([os.path.join(DIR, p.name + ".py") for p in ps.values() if p.lang == "py"])
    work = [(n, False) for n in ps] + [(n, True) for n, p in ps.items() if not p.evaluate and p.solver]
    chk.pmap(run, work)
    chk.assume("Racket is a stand-in that gives every answer of the emitted grammars, in the form Rosette prints it",
               "verification with the real cvc5 for integers; lists and sets by evaluation on all values of a small domain")
    chk.finish(rule="all answers of the grammars of every program, and no answer; the integer programs also with cvc5 as the synthesizer")


if __name__ == "__main__":
    env.main("P43", body)
