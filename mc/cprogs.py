"""Bounded-exhaustive families of C / C++ functions for the LLVM frontend checks.

A program is a block (tuple) of statements:
  ("s", text) ("ret", expr) ("if", cond, block, block) ("while", cond, block, step) ("for", init, cond, step, block)
  ("do", block, step, cond) ("brk",) ("cont",)
Every block whose statement count is at most k over a family's alphabet is enumerated; nothing follows a
statement that ends its block.
"""
import itertools
import os
from functools import lru_cache

from mc import env

TAB = "  "


class CFamily:
    def __init__(self, name, params, ret, simple=(), conds=(), whiles=(), fors=(), dos=(), returns=(), jumps=False,
                 pre=(), post="", domain=None, maxdepth=2, lang="c", header="", filt=None, pdomain=None,
                 uninterp=None, maxloop=2, flags=(), native_header="", native_impl="", must_accept=True,
                 pfilt=None, assume=None):
        self.name, self.params, self.ret = name, params, ret
        self.simple, self.conds, self.whiles, self.fors, self.dos = simple, conds, whiles, fors, dos
        self.returns, self.jumps, self.pre, self.post = returns, jumps, pre, post
        self.domain, self.maxdepth, self.lang, self.header, self.filt = domain or {}, maxdepth, lang, header, filt
        self.pdomain = pdomain or {}  # kind -> values unconstrained variables range over
        self.uninterp = uninterp or {}
        self.maxloop = maxloop
        self.flags, self.native_header, self.native_impl, self.must_accept = flags, native_header, native_impl, must_accept
        self.assume = assume  # (operator, parameter, constant) the driver is told to assume
        self.pfilt = pfilt  # programs the precision check speaks about
        self.native_wrap_own = False
        self._b = lru_cache(None)(self._blocks)
        self._s = lru_cache(None)(self._stmts)

    def _stmts(self, n, d, ld):
        out = []
        if n == 1:
            out += [("s", t) for t in self.simple]
            out += [("ret", t) for t in self.returns]
            if self.jumps and ld:
                out += [("brk",), ("cont",)]
        if n >= 2 and d < self.maxdepth:
            for c in self.conds:
                for i in range(1, n):
                    for b1 in self._b(i, d + 1, ld):
                        for b2 in self._b(n - 1 - i, d + 1, ld):
                            out.append(("if", c, b1, b2))
            if ld < self.maxloop:
                for b in self._b(n - 1, d + 1, ld + 1):
                    for l in self.whiles:
                        out.append(("while", l[0], b, l[1]))
                    for l in self.fors:
                        out.append(("for",) + l + (b,))
                    for l in self.dos:
                        out.append(("do", b, l[0], l[1]))
        return tuple(out)

    def _blocks(self, n, d, ld):
        if n == 0:
            return ((),)
        out = []
        for k in range(1, n + 1):
            for s in self._s(k, d, ld):
                if ends(s):
                    if k == n:
                        out.append((s,))
                    continue
                for rest in self._b(n - k, d, ld):
                    out.append((s,) + rest)
        return tuple(out)

    def programs(self, k):
        for n in range(0, k + 1):
            for b in self._b(n, 0, 0):
                if self.filt and not self.filt(b):
                    continue
                yield b

    CT = {"int": "int", "bool": "_Bool", "vec": "std::vector<int>", "mat": "std::vector<std::vector<int>>",
          "list": "List<int>", "set": "set*"}

    def text(self, block, fname="f", fuel=None):
        sig = ", ".join(f"{self.CT[k]} {n}" for n, k in self.params)
        lines = [f"{self.CT[self.ret]} {fname}({sig})", "{"]
        lines += [TAB + l for l in self.pre]
        lines += render(block, 1, fuel)
        if self.post and not (block and ends(block[-1])):
            lines.append(TAB + self.post)
        return "\n".join(lines + ["}"]) + "\n"

    def native_wrap(self, names):
        return ""

    def native_call(self, lib, f, vals):
        import ctypes

        fn = getattr(lib, f)
        fn.restype = ctypes.c_bool if self.ret == "bool" else ctypes.c_int
        return fn(*[ctypes.c_bool(v) if isinstance(v, bool) else ctypes.c_int(v) for v in vals])

    def inputs(self):
        return itertools.product(*[self.dom(n, k) for n, k in self.params])

    def dom(self, n, k):
        return self.domain.get(n) or self.pdomain.get(k) or DOM[k]


class CppFamily(CFamily):
    """Values travel to and from the native functions as flat arrays of integers."""

    def __init__(self, *a, **k):
        k.setdefault("lang", "cc")
        k.setdefault("header", "#include <vector>\n")
        super().__init__(*a, **k)
        self.native_wrap_own = True
        self.native_header = CHECKED + (k.get("native_header") or self.header) + WIRE

    def native_wrap(self, names):
        out = ""
        for f in names:
            decl = "".join(f"{self.CT[k]} {n}; rd(in, {n}); " for n, k in self.params)
            args = ", ".join(n for n, _ in self.params)
            out += f'extern "C" void w_{f}(const int *in, int *out) {{ {decl} {self.CT[self.ret]} r = {f}({args}); wr(out, r); }}\n'
        return out

    def native_call(self, lib, f, vals):
        import ctypes

        flat = []
        for v in vals:
            flatten(v, flat)
        arr = (ctypes.c_int * (len(flat) + 1))(*flat)
        out = (ctypes.c_int * 65536)()
        getattr(lib, "w_" + f)(arr, out)
        return unflatten(self.ret, out, [0])


def flatten(v, out):
    if isinstance(v, tuple):
        out.append(len(v))
        for x in v:
            flatten(x, out)
    else:
        out.append(int(v))


def unflatten(kind, arr, pos):
    def nxt():
        pos[0] += 1
        return arr[pos[0] - 1]

    if kind == "int":
        return nxt()
    if kind == "bool":
        return bool(nxt())
    if kind in ("vec", "list"):
        return tuple(nxt() for _ in range(nxt()))
    if kind == "mat":
        return tuple(unflatten("vec", arr, pos) for _ in range(nxt()))
    raise ValueError(kind)


CHECKED = """
#include <vector>
extern "C" int ticks;
namespace std { template <class T> struct cvector : vector<T> { using vector<T>::vector;
  T &operator[](size_t i) { static T none; if (i >= this->size()) { ticks = 100000; return none = T(); } return vector<T>::operator[](i); } }; }
#define vector cvector
"""

WIRE = """
static void rd(const int *&p, int &x) { x = *p++; }
static void wr(int *&p, int x) { *p++ = x; }
template <class T> void rd(const int *&p, std::vector<T> &v) { int n = *p++; for (int i = 0; i < n; i++) { T x; rd(p, x); v.push_back(x); } }
template <class T> void wr(int *&p, const std::vector<T> &v) { *p++ = v.size(); for (auto &x : v) wr(p, x); }
"""

WIRE_LIST = """
static void rd(const int *&p, List<int> &v) { v = newList<int>(); rd(p, v->contents); }
static void wr(int *&p, List<int> v) { wr(p, v->contents); }
"""


ODD_DECL = ("static void add(std::vector<int> &v, int k);\nstatic void add2(std::vector<int> v, int k);\n"
            "static void inc(int &r);\nstatic void swap2(int &a, int &b);\n")


class SetFamily(CFamily):
    """set.h sets of small numbers, natively bit masks."""

    def native_call(self, lib, f, vals):
        import ctypes

        fn = getattr(lib, f)
        fn.restype = ctypes.c_void_p if self.ret == "set" else ctypes.c_int
        r = fn(*[ctypes.c_void_p(sum(1 << x for x in v)) if isinstance(v, frozenset) else ctypes.c_int(v) for v in vals])
        return frozenset(x for x in range(62) if (r or 0) >> x & 1) if self.ret == "set" else r


def ends(s):
    if s[0] in ("ret", "brk", "cont"):
        return True
    if s[0] == "if":
        return bool(s[2]) and bool(s[3]) and ends(s[2][-1]) and ends(s[3][-1])
    return False


def render(block, ind, fuel):
    out, p = [], TAB * ind
    tick = [p + TAB + fuel] if fuel else []
    for s in block:
        if s[0] == "s":
            out.append(p + s[1])
        elif s[0] == "ret":
            out.append(p + f"return {s[1]};")
        elif s[0] == "brk":
            out.append(p + "break;")
        elif s[0] == "cont":
            out.append(p + "continue;")
        elif s[0] == "if":
            out += [p + f"if ({s[1]}) {{"] + render(s[2], ind + 1, fuel)
            if s[3]:
                out += [p + "} else {"] + render(s[3], ind + 1, fuel)
            out.append(p + "}")
        elif s[0] == "while":
            out += [p + f"while ({s[1]}) {{"] + tick + render(s[2], ind + 1, fuel)
            if s[3] and not (s[2] and ends(s[2][-1])):
                out.append(p + TAB + s[3])
            out.append(p + "}")
        elif s[0] == "for":
            out += [p + f"for ({s[1]}; {s[2]}; {s[3]}) {{"] + tick + render(s[4], ind + 1, fuel) + [p + "}"]
        elif s[0] == "do":
            out += [p + "do {"] + tick + render(s[1], ind + 1, fuel)
            if s[2] and not (s[1] and ends(s[1][-1])):
                out.append(p + TAB + s[2])
            out.append(p + f"}} while ({s[3]});")
    return out


LOOPS = ("while", "for", "do")


def blocks_of(s):
    return {"if": lambda: (s[2], s[3]), "while": lambda: (s[2],), "for": lambda: (s[4],), "do": lambda: (s[1],)}.get(
        s[0], lambda: ())()


def has(block, kinds):
    return any(s[0] in kinds or any(has(b, kinds) for b in blocks_of(s)) for s in block)


def loops_in(block):
    return sum((s[0] in LOOPS) + sum(loops_in(b) for b in blocks_of(s)) for s in block)


def written_in_loop(block, what, inside=False):
    """A statement starting with what occurs in a loop."""
    return any(
        (s[0] == "s" and inside and s[1].startswith(what))
        or any(written_in_loop(b, what, inside or s[0] in LOOPS) for b in blocks_of(s))
        for s in block
    )


DOM = {
    "int": [0, 1, -1, 2],
    "bool": [False, True],
    "vec": [t for n in range(3) for t in itertools.product((0, 1), repeat=n)] + [(2,)],
    "list": [t for n in range(3) for t in itertools.product((0, 1), repeat=n)] + [(2,)],
    "mat": [(), ((),), ((0,),), ((1,), (2, 0)), ((1, 2), ())],
    "set": [frozenset(c) for n in range(3) for c in itertools.combinations((0, 1, 2), n)],
}


def families():
    F = []
    A = F.append
    A(CFamily("branches", [("a", "int"), ("b", "int")], "int",
              ["r = a;", "r = r + 1;", "a = b;"], ["a < b", "a > 0 && r != 1", "a == b || r > 0"],
              returns=["r", "b"], pre=["int r = 0;"], post="return r;", maxdepth=2))
    A(CFamily("arith", [("a", "int"), ("b", "int")], "int",
              ["r = a - (r - b);", "r = -r * a;", "r += b + 2;", "b -= r;"], ["a <= b", "r >= a", "r != b", "2 > b"],
              returns=["a * r"], pre=["int r = 1;"], post="return r;", maxdepth=1))
    A(CFamily("div", [("a", "int"), ("b", "int")], "int",
              ["r = r / 2;", "r = r % 3;", "r = r + a / (b + 1);"], ["r % 2 == 1"],
              pre=["int r = a + b;"], post="return r;", domain={"a": [0, 1, 4, 5], "b": [0, 1, 2]}, maxdepth=1))
    A(CFamily("loops", [("n", "int"), ("k", "int")], "int",
              ["r = r + 1;", "r = i;", "i = i + 1;"], ["r > 1", "i == k"],
              whiles=[("i < n", "i = i + 1;")], returns=["k"], jumps=True,
              pre=["int r = 0;", "int i = 0;"], post="return r;",
              domain={"n": [0, 1, 2, 3], "k": [0, 1, 2]}, maxdepth=3))
    A(CFamily("assumed", [("n", "int"), ("k", "int")], "int",
              ["r = r + k;", "n = k;"], ["k > 1", "i == n"],
              whiles=[("i < n", "i = i + 1;")], returns=["k", "n"], jumps=True,
              pre=["int r = 0;", "int i = 0;"], post="return r;",
              domain={"n": [0, 1, 2], "k": [0, 1, 2]}, maxdepth=3, assume=("<=", "n", 1)))
    A(CFamily("forms", [("n", "int"), ("k", "int")], "int",
              ["r = r + j;", "n = k;"], ["j == k"],
              whiles=[("i < n", "i++;")], fors=[("int j = 0", "j < 2", "j++"), ("j = 0", "j < n", "j = j + 1")],
              dos=[("i++;", "i < k")], jumps=True,
              pre=["int r = 0;", "int i = 0;", "int j = 1;"], post="return r + i;",
              domain={"n": [0, 1, 2], "k": [0, 1, 2]}, maxdepth=3))
    A(CFamily("truth", [("a", "int"), ("b", "int")], "bool",
              ["r = r + 1;", "a = b;"], ["a < b", "r == 1"], returns=["a == b", "(_Bool)1", "r >= a", "(_Bool)0"],
              pre=["int r = 0;"], post="return a < r;", maxdepth=2))
    A(CFamily("calls", [("a", "int"), ("b", "int")], "int",
              ["r = g(a);", "r = h(r, b);", "a = g(h(a, r)) + 1;"], ["g(a) < b", "h(a, b) == r"],
              whiles=[("i < 2", "i++;")], returns=["h(b, r)"],
              pre=["int r = a;", "int i = 0;"], post="return r;",
              uninterp={"g": (1, lambda a: (3 * a + 1) % 5), "h": (2, lambda a, b: (2 * a + b) % 4)},
              domain={"a": [0, 1, 2], "b": [0, 1, 2]}, maxdepth=2,
              header="int g(int a);\nint h(int a, int b);\n",
              native_impl="int g(int a) { return pm(3 * a + 1, 5); }\nint h(int a, int b) { return pm(2 * a + b, 4); }\n"))
    STUB = ("-I", os.path.join(os.path.dirname(os.path.abspath(__file__)), "include"))
    small = [t for n in range(3) for t in itertools.product((0, 1), repeat=n)] + [(2,)]
    A(CppFamily("vectors", [("v", "vec"), ("k", "int")], "int",
                ["r = r + v.size();", "v.push_back(r);", "r = v[0];"], ["k < v.size()", "v[0] == k"],
                fors=[("int i = 0", "i < v.size()", "i++")], whiles=[("i < v.size()", "r = r + v[i]; i = i + 1;")],
                returns=["k"], jumps=True, pre=["int r = 0;", "int i = 0;"], post="return r;", domain={"v": small[1:], "k": [0, 1]}, maxdepth=2, flags=STUB,
                pfilt=lambda b: not written_in_loop(b, "v.push_back")))
    A(CppFamily("vecout", [("v", "vec"), ("k", "int")], "vec",
                ["r.push_back(k);", "k = r.size();", "r.push_back(k + 1);"], ["0 < r.size()", "k == 1"],
                fors=[("int i = 0", "i < v.size()", "i++")], whiles=[("i < v.size()", "r.push_back(v[i]); i = i + 1;")],
                pre=["std::vector<int> r;", "int i = 0;"], post="return r;", domain={"v": small, "k": [0, 1]}, maxdepth=2, flags=STUB))
    A(CppFamily("matrices", [("m", "mat"), ("k", "int")], "mat",
                ["row.push_back(k);", "r.push_back(row);", "k = m.size();"], ["k == 1", "1 < r.size()"],
                fors=[("int i = 0", "i < m.size()", "i++")],
                whiles=[("i < m.size()", "r.push_back(m[i]); row.push_back(m[i].size()); i = i + 1;")],
                pre=["std::vector<std::vector<int>> r;", "std::vector<int> row;", "int i = 0;"], post="return r;", domain={"k": [0, 1], "m": [(), ((),), ((0,), (1, 2)), ((1,), ())]},
                maxdepth=2, flags=STUB))
    A(CppFamily("lists", [("a", "list"), ("k", "int")], "list",
                ["r = listAppend(r, k);", "r = a;", "a = listAppend(listConcat(a, r), 2);", "k = listLength(a);",
                 "r = newList<int>();"],
                ["listLength(r) > k", "listLength(a) == 1"],
                fors=[("int i = 0", "i < listLength(a)", "i++")],
                whiles=[("i < listLength(a)", "r = listAppend(r, listGet(a, i)); i = i + 1;")], returns=["a"],
                pre=["List<int> r = newList<int>();", "int i = 0;"], post="return r;", domain={"a": small, "k": [0, 1]}, maxdepth=2,
                flags=STUB + ("-I", os.path.join(env.REPO, "headers")), header='#include "list.h"\n',
                native_header='#include <vector>\n#include "list.h"\n'))
    F[-1].native_header += WIRE_LIST
    A(SetFamily("sets", [("s", "set"), ("k", "int")], "set",
                ["s = set_add(s, k);", "s = set_remove(s, k);", "k = k + 1;", "s = set_create();"],
                ["k > 1", "k == 0"], whiles=[("i < 2", "i++;")], returns=["s"], pre=["int i = 0;"], post="return s;", domain={"k": [0, 1, 2]}, maxdepth=2,
                flags=("-I", os.path.join(env.REPO, "headers")), header='#include "set.h"\n',
                native_header='#include "set.h"\n',
                native_impl="#define M(s) ((long)(s))\nset *set_create() { return 0; }\n"
                "set *set_add(set *s, int x) { return (set *)(M(s) | 1L << x); }\n"
                "set *set_remove(set *s, int x) { return (set *)(M(s) & ~(1L << x)); }\n"
                "int set_contains(set *s, int x) { return M(s) >> x & 1; }\n"))
    A(CppFamily("tuples", [("a", "int"), ("b", "int")], "int",
                ["t = MakeTuple(a, r);", "r = tupleGet(t, 0);", "r = r + tupleGet(t, 1);", "u = t;",
                 "t = MakeTuple(b, tupleGet(u, 1));"],
                ["tupleGet(t, 0) < b"], whiles=[("i < 2", "i++;")], returns=["tupleGet(u, 1)"],
                pre=["int r = 0;", "int i = 0;", "Tuple<int, int> t = MakeTuple(a, b);", "Tuple<int, int> u = t;"],
                post="return r;", domain={"a": [0, 1], "b": [0, 1, 2]}, maxdepth=2,
                header='template <class... T> struct tup { int contents[sizeof...(T)]; };\n'
                "template <class... T> using Tuple = tup<T...> *;\n"
                "template <class... T> Tuple<T...> MakeTuple(T... x);\n"
                "template <class... T> int tupleGet(Tuple<T...> t, int i);\n",
                native_header='#include <vector>\ntemplate <class... T> struct tup { int contents[sizeof...(T)]; };\n'
                "template <class... T> using Tuple = tup<T...> *;\n"
                "template <class... T> Tuple<T...> MakeTuple(T... x) { return new tup<T...>{x...}; }\n"
                "template <class... T> int tupleGet(Tuple<T...> t, int i) { return t->contents[i]; }\n"))
    # beyond the documented subset: a function is rejected, or its condition is sound
    odd = dict(must_accept=False, pre=["int r = 0;", "int i = 0;"], post="return r;", maxdepth=2)
    ab = [("a", "int"), ("b", "int")]
    A(CFamily("odd_c", ab, "int",
              ["r = a < b ? a : r;", "r = !a;", "{ int *p = &r; *p = b; }", "{ int t[2] = {a, b}; r = t[1]; }", "G = b;", "r = G;",
               "{ char c = a; r = c; }", "{ _Bool q = a < b; r = q; }", "r++;", "r = (a < b) + r;", "r = a && b;",
               "{ __label__ latch_a, rest; latch_a: r = r + b; rest: i = i; }", "r = a & b;", "r = a << 1;", "r = ~a;", "{ unsigned u = a; r = u / 2; }", "{ long l = a; l = l + b; r = l; }",
               "{ static int z; z = b; r = z; }", "{ int *p = a < b ? &r : &i; *p = 7; }", "{ int *p = &a; int *q = p; r = *q; a = b; r = *p; }",
               "switch (a) { case 0: r = b; break; case 1: r = 5; }", "{ __label__ out; if (a < b) goto out; r = 2; out: i = r; }"],
              ["!a", "a", "r != b || !i"], whiles=[("i < 2", "i++;")], header="int G;\n",
              native_header="int G;\n", domain={"a": [0, 1, 2], "b": [0, 1, 2]}, **odd))
    A(CppFamily("odd_cc", [("v", "vec"), ("k", "int")], "int",
                ["v[0] = k;", "v.pop_back();", "{ std::vector<int> &w = v; w.push_back(k); }", "r = v[0];", "{ std::vector<int> w = v; w.push_back(k); r = w.size(); }",
                 "r = r + v.size();", "add(v, k);", "add2(v, k);", "inc(r);", "swap2(r, k);", "{ int &q = r; q = k; }", "v.push_back(k);", "v = std::vector<int>();"],
                ["k < v.size()"], whiles=[("i < 2", "i++;")],
                header="#include <vector>\n" + ODD_DECL, native_header="#include <vector>\n" + ODD_DECL.replace("vector", "cvector"),
                native_impl="static void add(std::vector<int> &v, int k) { v.push_back(k); }\nstatic void add2(std::vector<int> v, int k) { v.push_back(k); }\n"
                "static void inc(int &r) { r = r + 1; }\nstatic void swap2(int &a, int &b) { int t = a; a = b; b = t; }\n",
                domain={"v": small[1:], "k": [0, 1]}, flags=STUB, **odd))
    A(CppFamily("odd_mat", [("m", "mat"), ("k", "int")], "mat",
                ["r.push_back(row);", "r[0].push_back(k);", "row.push_back(k);", "r[0][0] = k;", "r[0] = row;", "row = r[0];", "{ std::vector<int> &w = r[0]; w.push_back(k); }"],
                ["1 < r.size()"], whiles=[("i < 2", "i++;")], header="#include <vector>\n",
                domain={"m": [((0,),), ((1,), (2, 0))], "k": [0, 1]}, flags=STUB,
                **{**odd, "pre": ["std::vector<std::vector<int>> r;", "std::vector<int> row;", "row.push_back(k);", "r.push_back(row);", "int i = 0;"]}))
    A(CppFamily("odd_lists", [("a", "list"), ("k", "int")], "list",
                ["r->contents.push_back(k);", "r = a;", "a->contents[0] = k;", "{ List<int> *p = &r; *p = a; }", "r = k ? a : r;", "fill(r, k);"],
                ["listLength(r) > k", "r == a"], whiles=[("i < 2", "i++;")],
                flags=STUB + ("-I", os.path.join(env.REPO, "headers")), header='#include "list.h"\nvoid fill(List<int> x, int k);\n',
                native_header='#include <vector>\n#include "list.h"\nstatic void fill(List<int> x, int k) { x->contents.push_back(k); }\n',
                domain={"a": small[1:], "k": [0, 1]},
                **{**odd, "pre": ["List<int> r = newList<int>();", "int i = 0;"]}))
    F[-1].native_header += WIRE_LIST
    return {f.name: f for f in F}
