"""P33: the search spaces tenspiler offers are well-formed and contain the programs they are made for."""
import itertools
import os
import subprocess
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import decide, env, llvmfront
from mc.env import Res, from_repo, quiet

from metalift import ir as IR  # noqa: E402
from metalift.frontend import llvm as FL  # noqa: E402
from metalift.ir import Int, Matrix  # noqa: E402
from metalift.utils.tenspiler import tenspiler_common as T  # noqa: E402
from mc.irsem import Sem, Undef  # noqa: E402
from mc.rkt import RktError  # noqa: E402
from mc.sexp import Sym, show  # noqa: E402
from mc.world import Hang, World, outputs  # noqa: E402

STUB = ("-I", os.path.join(env.VERIF, "mc", "include"))
DIR = None

SOURCE = """#include <vector>
using namespace std;

vector<vector<int>> NAME(vector<vector<int>> base, vector<vector<int>> activeEXTRA)
{
    vector<vector<int>> out;
    int m = base.size();
    int n = base[0].size();
    for (int row = 0; row < m; row++) {
        vector<int> row_vec;
        for (int col = 0; col < n; col++) {
            PIXEL
            row_vec.push_back(pixel);
        }
        out.push_back(row_vec);
    }
    return out;
}
"""
B, A = "base[row][col]", "active[row][col]"


def q(a, b):
    return abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)


def r(a, b):
    return a - b * q(a, b)


class Bench:
    """A blend benchmark: its C++ statement, what it computes for a pixel, pixel values that tell programs apart, its space."""

    def __init__(self, name, pixel, ref, bases, actives, space, extra=(), scalars=((),), columns=False):
        self.name, self.ref, self.space, self.extra, self.scalars, self.columns = name, ref, space, list(extra), list(scalars), columns
        self.pixel, self.short = pixel, False
        if columns:
            pixel = pixel.replace("[row][col]", "[col][row]")
        self.source = SOURCE.replace("NAME", name).replace("EXTRA", "".join(f", int {x}" for x in extra)).replace("PIXEL", pixel)
        self.bases, self.actives = bases, actives

    def inputs(self):
        """Pairs of matrices of several shapes over the pixel values."""
        pix = list(itertools.product(self.bases, self.actives))
        out = []
        for rows, cols in ((2, 2), (3, 3))[: 2 - bool(self.extra)] if self.columns else ((2, 1), (2, 2), (3, 1), (2, 3)):
            n = rows * cols
            for k in range(0, len(pix), n):
                cut = (pix[k:] + pix)[:n]
                m = [tuple(tuple(cut[i * cols + j][w] for j in range(cols)) for i in range(rows)) for w in (0, 1)]
                out.append(tuple(m))
        return [m for m in out if len(m[0]) == 2][:: len(pix)] if self.short else out

    def run(self, base, active, scalars):
        if self.columns:
            base, active = zip(*base), zip(*active)
        return tuple(tuple(self.ref(b, a, *scalars) for b, a in zip(x, y)) for x, y in zip(base, active))


def benches():
    comp = lambda hole: lambda d: T.get_matrix_computation_holing_search_space(hole)
    sel = lambda hole: lambda d: T.get_matrix_select_holing_search_space(d, hole)
    few, more = (1, 6, 9), (2, 5, 16)
    rows = {b.name: b for b in (
        Bench("copy_base", f"int pixel = {B};", lambda b, a: b, few, more, None),
        Bench("copy_active", f"int pixel = {A};", lambda b, a, o, c: a, few, more, None, ("opacity", "rand_cons"), ((0, 99), (0, 7))),
        Bench("multiply_blend_8", f"int pixel = ({B} * {A}) / 32;", lambda b, a: q(b * a, 32), (3, 8, 13), (5, 11, 20), comp(T.multiply_blend_8_hole_body)),
        Bench("linear_burn_8", f"int pixel = ({B} + {A}) - 32;", lambda b, a: b + a - 32, few, more, comp(T.linear_burn_8_hole_body)),
        Bench("screen_blend_8", f"int pixel = {B} + {A} - ({B} * {A}) / 32;", lambda b, a: b + a - q(b * a, 32), (3, 13), (5, 11, 20), comp(T.screen_blend_8_hole_body)),
        Bench("linear_dodge_8", f"int pixel = {B} + {A};", lambda b, a: b + a, few, more, comp(T.linear_dodge_8_hole_body)),
        Bench("darken_blend_8", f"int pixel; if ({B} > {A}) pixel = {A}; else pixel = {B};", min, few, more, sel(T.darken_blend_8_hole_body)),
        Bench("lighten_blend_8", f"int pixel; if ({B} < {A}) pixel = {A}; else pixel = {B};", max, few, more, sel(T.lighten_blend_8_hole_body)),
        Bench("color_burn_8", f"int pixel; if ({A} == 0) pixel = 32; else pixel = 32 - (32 - {B}) / {A};",
              lambda b, a: 32 if a == 0 else 32 - q(32 - b, a), (3, 8, 20), (0, 5, 2), sel(T.color_burn_8_hole_body)),
        Bench("color_dodge_8", f"int pixel; if ({A} == 32) pixel = 32; else pixel = {B} / (32 - {A});",
              lambda b, a: 32 if a == 32 else q(b, 32 - a), (5, 40, 33), (32, 29, 22), sel(T.color_dodge_8_hole_body)),
        Bench("overlay_blend_8", f"int pixel; if ({B} >= 16) pixel = 2 * {B} + {B} - 2 * {B} * {B} / 32 - 32; else pixel = 2 * {B} * {B} / 32;",
              lambda b, a: 3 * b - q(2 * b * b, 32) - 32 if b >= 16 else q(2 * b * b, 32), (16, 7, 25, 15), (3, 30), sel(T.overlay_blend_8_hole_body)),
        Bench("dissolve_blend_8", f"int rand_val = ((rand_cons % 100) + 1) / 100; int pixel; if (opacity - rand_val >= 0) pixel = {A}; else pixel = {B};",
              lambda b, a, o, c: a if o - q(r(c, 100) + 1, 100) >= 0 else b, (1, 6), (2, 5, 3), T.get_dissolve_holing_search_space,
              ("opacity", "rand_cons"), ((0, 99), (0, 7), (1, 199), (0, 100), (2, 1))),
    )}
    by = [Bench(f"{n}_columns", b.pixel, b.ref, b.bases, b.actives, b.space, b.extra, b.scalars, True) for n, b in rows.items() if n in COLUMNS]
    return {**rows, **{b.name: b for b in by}}


COLUMNS = ("linear_burn_8", "lighten_blend_8", "dissolve_blend_8")
# a program that each general space contains without any operation
PLAIN = [(f"{g}{w}", n) for w in ("-0",) for g, ns in (("computation", ("copy_base",)), ("select", ("darken_blend_8", "lighten_blend_8")), ("dissolve", ("copy_active",))) for n in ns]


def generals(deep):
    """The spaces with a depth: (name, benchmark, space, relaxed)."""
    out = []
    for relaxed in (False, True):
        for n in range(0, 5):
            w = f"{n}{'-relaxed' * relaxed}"
            if n < 2 or deep and n == 2 and not relaxed:
                out.append((f"computation-{w}", "multiply_blend_8", lambda d, n=n, x=relaxed: T.get_matrix_computation_general_search_space(n, [Int(2)], x), relaxed))
            if n < 4:
                out.append((f"select-{w}", "darken_blend_8", lambda d, n=n, x=relaxed: T.get_matrix_select_general_search_space(d, n, [Int(32)], x), relaxed))
            out.append((f"dissolve-{w}", "dissolve_blend_8", lambda d, n=n, x=relaxed: T.get_dissolve_general_search_space(d, n, x), relaxed))
    return out


# ---------------------------------------------------------------- running a driver up to the query
class Stop(BaseException):
    pass


def analyzed(b, space):
    d = FL.Driver()
    inv0, inv1, ps, lang, synths = space(d)
    f = d.analyze(os.path.join(DIR, b.name + ".ll"), os.path.join(DIR, b.name + ".loops"), b.name, lang, {b.name + "_inv0": inv0, b.name + "_inv1": inv1}, ps)
    base, active = Matrix(Int, "base"), Matrix(Int, "active")
    vs = [base, active, *(Int(x) for x in b.extra)]
    d.add_var_objects(vs)
    d.add_precondition(base.len() > 1)
    d.add_precondition(base.len() == active.len())
    d.add_precondition(base[0].len() == active[0].len())
    if b.columns:
        d.add_precondition(base.len() == base[0].len())
    d.fns_synths = synths
    f(*vs)
    return d, f


def emitted(d, name, relaxed=False):
    got = []

    def starts(argv, *a, **k):
        got.append(open(argv[-1]).read())
        raise Stop()

    w = World(lambda proc: [])
    w.popen = starts
    with w, quiet():
        try:
            d.synthesize(filename=name, relaxed=relaxed)
        except Stop:
            pass
    return got[0]


def domain(sort):
    raise AssertionError("domains are given by the states")


# ---------------------------------------------------------------- what a grammar derives, up to behaviour
class Behaviours:
    """All words of a grammar, one for each distinct behaviour on the given states."""

    def __init__(self, rk, rules, states, res):
        self.rk, self.rules, self.states, self.memo, self.res = rk, rules, states, {}, res

    def has_choice(self, t):
        return isinstance(t, list) and (bool(t) and str(t[0]) == "choose" or len(t) == 1 and str(t[0]) in self.rules or any(self.has_choice(x) for x in t))

    def evaluate(self, term, holes=()):
        """The values of a term on all states; holes: a value vector for each (__hK)."""
        fn = self.rk.compile(term)
        out = []
        for i, s in enumerate(self.states):
            self.rk.top.update(s)
            for k, v in enumerate(holes):
                self.rk.top[f"__h{k}"] = lambda v=v, i=i: fail(v[i])
            try:
                out.append(fn({}))
            except RktError as ex:
                out.append(Err(str(ex)))
        self.res.add("transitions", len(self.states))
        return tuple(out)

    def of(self, t):
        """{values on the states: word}"""
        if not self.has_choice(t):
            return {self.evaluate(t): t}
        if str(t[0]) == "choose" and len(t) > 1:
            out = {}
            for x in t[1:]:
                for v, w in self.of(x).items():
                    out.setdefault(v, w)
            return out
        if len(t) == 1 and str(t[0]) in self.rules:
            n = str(t[0])
            if n not in self.memo:
                self.memo[n] = self.of(self.rules[n])
            return self.memo[n]
        where = [i for i, x in enumerate(t) if self.has_choice(x)]
        subs = [list(self.of(t[i]).items()) for i in where]
        form = list(t)
        for k, i in enumerate(where):
            form[i] = [Sym(f"__h{k}")]
        size = 1
        for x in subs:
            size *= len(x)
        if size > 60000:
            raise OverflowError(f"{size} combinations")
        out = {}
        for combo in itertools.product(*subs):
            v = self.evaluate(form, [c[0] for c in combo])
            if v not in out:
                w = list(t)
                for k, i in enumerate(where):
                    w[i] = combo[k][1]
                out[v] = w
        self.res.add("states", len(out))
        return out

    def matching(self, t, target, on=None):
        """Words with these values on the states numbered on (goal-directed for ifs)."""
        on = tuple(range(len(self.states))) if on is None else on
        while isinstance(t, list) and (len(t) == 2 and str(t[0]) == "choose" or len(t) == 1 and str(t[0]) in self.rules):
            t = t[1] if len(t) == 2 else self.rules[str(t[0])]
        if isinstance(t, list) and t and str(t[0]) == "if" and self.has_choice(t):
            out = []
            for c, w in self.of(t[1]).items():
                if all(isinstance(c[i], bool) for i in on):
                    yes = self.matching(t[2], target, tuple(i for i in on if c[i]))[:1]
                    no = self.matching(t[3], target, tuple(i for i in on if not c[i]))[:1] if yes else []
                    out += [[t[0], w, y, n] for y in yes for n in no]
            return out
        if isinstance(t, list) and t and str(t[0]) == "choose":
            return [w for x in t[1:] for w in self.matching(x, target, on)]
        where = [i for i, x in enumerate(t) if self.has_choice(x)] if isinstance(t, list) else []
        subs = [list(self.of(t[i]).items()) for i in where]
        form = list(t) if where else t
        for k, i in enumerate(where):
            form[i] = [Sym(f"__h{k}")]
        fn = self.rk.compile(form)
        now, values = [0], [None] * len(where)
        for k in range(len(where)):
            self.rk.top[f"__h{k}"] = lambda k=k: fail(values[k][now[0]])
        # the most telling states first: most combinations fail there
        order, out, tried, good = sorted(on, key=lambda i: -len(str(target[i]))), [], 0, {}
        for combo in itertools.product(*subs):
            for k, c in enumerate(combo):
                values[k] = c[0]
            for i in order:
                key = (i, *[c[0][i] for c in combo])
                if key not in good:
                    tried += 1
                    now[0] = i
                    self.rk.top.update(self.states[i])
                    try:
                        v = fn({})
                        good[key] = v == target[i] and type(v) is type(target[i])
                    except RktError:
                        good[key] = False
                if not good[key]:
                    break
            else:
                w = list(t) if where else t
                for k, i in enumerate(where):
                    w[i] = combo[k][1]
                out.append(w)
                if len(out) == 8:
                    break
        self.res.add("transitions", tried)
        return out


class Err(str):
    pass


def fail(v):
    if isinstance(v, Err):
        raise RktError(str(v))
    return v


def kind(v):
    if isinstance(v, bool):
        return "bool"
    if isinstance(v, int):
        return "int"
    if isinstance(v, tuple):
        ks = {kind(x) for x in v}
        if ks <= {"int"}:
            return "vec" if ks else "empty"
        if ks <= {"vec", "empty"}:
            return "mat"
    if callable(v):
        return "fn"
    return f"mixed {v!r}"


SAMPLES = {"bool": [True, False], "int": [1, 0, 2], "vec": [(1, 2)], "mat": [((1, 2), (3, 4))]}
PARAM = {"base": "mat", "active": "mat", "agg.result": "mat", "row_vec": "vec"}


def well_typed(res, key, qy):
    """Every alternative of every non-terminal has one kind, for values of the right kinds: so has every word."""
    for n, (rules, start, subst) in qy.heads.items():
        params = qy.params[n]
        env_ = {p: SAMPLES[PARAM.get(p, "mat" if p.endswith("_rv") else "int")][0] for p in params}
        qy.rk.top.update(env_)
        for s in ("select_two_args", "dissolve_select_two_args", "map_int_to_int", "OUTER_LOOP_INDEX_FIRST"):
            if s in qy.heads or s in qy.rk.top and s not in qy.heads and not callable(qy.rk.top.get(s)):
                qy.rk.top[s] = (lambda *a: True) if s.startswith("OUTER") else arity({"map_int_to_int": 1, "select_two_args": 2}.get(s, 4), s)
        kinds, busy = {}, set()

        def nt(x):
            if x in kinds:
                return kinds[x]
            if x in busy:
                raise RktError(f"non-terminal {x} derives itself")
            busy.add(x)
            ks = set()
            rule = rules[x]
            alts = rule[1:] if isinstance(rule, list) and str(rule[0]) == "choose" else [rule]
            for alt in alts:
                for used in nonterminals(alt, rules):
                    nt(used)
                holes = []
                fn = qy.rk.compile(separated(alt, rules, holes))
                few = len(holes) > 5
                for vals in itertools.product(*[SAMPLES[kinds[u]][few and kinds[u] == "int":] for u in holes]):
                    for k, v in enumerate(vals):
                        qy.rk.top[f"__h{k}"] = lambda v=v: v
                    res.add("transitions")
                    try:
                        ks.add(kind(fn({})))
                    except RktError as ex:
                        if "by zero" not in str(ex):
                            raise RktError(f"{show(alt)[:300]}: {ex}")
                res.add("states")
            ks.discard("empty")
            if len(ks) != 1:
                raise RktError(f"the alternatives of {x} have the kinds {sorted(ks)}: {show(rule)[:300]}")
            busy.discard(x)
            kinds[x] = ks.pop()
            return kinds[x]

        try:
            k = nt(start)
            if n.endswith("_ps") or "_inv" in n or n.startswith("OUTER"):
                if k != "bool":
                    res.bad(f"kind:{key}:{n}", f"{n} derives {k}")
            elif k != "int":
                res.bad(f"kind:{key}:{n}", f"{n} derives {k}")
        except RktError as ex:
            res.bad(f"typed:{key}:{n}", str(ex))


def separated(t, rules, holes):
    """The term with a hole for each occurrence of a non-terminal."""
    if not isinstance(t, list):
        return t
    if len(t) == 1 and str(t[0]) in rules:
        holes.append(str(t[0]))
        return [Sym(f"__h{len(holes) - 1}")]
    return [separated(x, rules, holes) for x in t]


def arity(k, name):
    def f(*a):
        if len(a) != k or any(kind(x) != "int" for x in a):
            raise RktError(f"{name} of {a}")
        return a[0]

    return f


def nonterminals(t, rules):
    if isinstance(t, list):
        if len(t) == 1 and str(t[0]) in rules:
            return {str(t[0])}
        return set().union(*[nonterminals(x, rules) for x in t]) if t else set()
    return set()


# ---------------------------------------------------------------- does the space contain the benchmark's program
def conj(t):
    return decide.conjuncts(t)


def body_of(rules, start):
    """The conjuncts of a grammar's only start alternative."""
    t = [Sym(start)]
    while isinstance(t, list) and (len(t) == 2 and str(t[0]) == "choose" or len(t) == 1 and str(t[0]) in rules):
        t = t[1] if len(t) == 2 else rules[str(t[0])]
    return conj(t)


def contains(res, b, qy):
    name = b.name
    ins = [(x, y, s) for x, y in b.inputs() for s in b.scalars]
    outs = [b.run(x, y, s) for x, y, s in ins]
    given = lambda i: {"base": ins[i][0], "active": ins[i][1], **dict(zip(b.extra, ins[i][2]))}
    helper = next((n for n in qy.heads if "select_two_args" in n), None)
    free = [n for n in qy.heads if n != helper and not n.startswith(name)]
    # 1. helpers that compute the pixel, in either order of the arguments
    helpers = [None]
    if helper:
        ps = qy.params[helper]
        helpers = []
        for swap in (False, True):
            sts, tgt = [], []
            for (x, y), s in itertools.product(itertools.product(b.bases, b.actives), b.scalars):
                vals = [y, x] if swap else [x, y]
                sts.append(dict(zip(["int_x", "int_y", *b.extra], [*vals, *s])))
                tgt.append(b.ref(x, y, *s))
            rules, start, _ = qy.heads[helper]
            helpers += Behaviours(qy.rk, rules, sts, res).matching([Sym(start)], tgt)
        if not helpers:
            res.bad(f"helper:{name}", f"no word of {helper} computes the pixel")
            return None
    # 2. states the loops reach
    full = [dict(given(i), **{f"{name}_rv": outs[i]}) for i in range(len(ins))]
    st0, st1 = [], []
    for i, (x, y, s) in enumerate(ins):
        for row in range(len(x) + 1):
            g = dict(given(i), row=row, pixel=0, **{"agg.result": outs[i][:row]})
            st0.append(dict(g, col=0, row_vec=()))
            if row < len(x):
                st1 += [dict(g, col=c, row_vec=outs[i][row][:c]) for c in range(len(x[0]) + 1)]
    found = []
    others = [words_of(qy, n) for n in free]
    for h, *rest in itertools.product(helpers[:3], *others):
        choice = dict(zip(free, rest))
        if h:
            choice[helper] = h
        for n, w in choice.items():
            qy.choose(n, w)
        ok = True
        for n, states in ((f"{name}_ps", full), (f"{name}_inv0", st0), (f"{name}_inv1", st1)):
            rules, start, _ = qy.heads[n]
            words = []
            bh = Behaviours(qy.rk, rules, states, res)
            for c in body_of(rules, start):
                if isinstance(c, list) and len(c) == 3 and str(c[0]) in ("equal?", "=") and not bh.has_choice(c[1]):
                    good = [[c[0], c[1], w] for w in bh.matching(c[2], bh.evaluate(c[1]))]
                else:
                    good = bh.matching(c, [True] * len(states))
                if not good:
                    ok = False
                    break
                words.append(good[0])
            if not ok:
                break
            w = words[0]
            for x in words[1:]:
                w = [Sym("&&"), w, x]
            choice[n] = w
        if ok:
            found.append(choice)
    if not found:
        res.bad(f"lost:{name}", f"no candidates of the search space hold in all states the program reaches (helpers {[show(x)[:200] if x else None for x in helpers[:3]]})")
        return None
    return found


def words_of(qy, n):
    """The words of a grammar without operands."""
    rules, start, _ = qy.heads[n]

    def of(t):
        if isinstance(t, list) and len(t) == 1 and str(t[0]) in rules:
            return of(rules[str(t[0])])
        if isinstance(t, list) and str(t[0]) == "choose":
            return [w for x in t[1:] for w in of(x)]
        return [t]

    return of([Sym(start)])


class Dom:
    def __init__(self, b):
        self.b = b
        ins = b.inputs()
        outs = [b.run(x, y, s) for x, y in ins for s in b.scalars]
        self.mats = {"base": sorted({x for x, _ in ins}), "active": sorted({y for _, y in ins})}
        self.out = sorted({o[:k] for o in outs for k in range(len(o) + 1)})
        self.rows = sorted({r_[:k] for o in outs for r_ in o for k in range(len(r_) + 1)})

    def values(self, v):
        if v in self.mats:
            return self.mats[v]
        if v.startswith("agg.result") or v.endswith("_rv"):
            return self.out
        if v.startswith("row_vec"):
            return self.rows
        if v in self.b.extra:
            return sorted({s[self.b.extra.index(v)] for s in self.b.scalars})
        return (0, 1, 2, 3)


def cases(c):
    """An implication as several, without disjunctions on the left: (conjuncts, conclusion)."""
    if not (isinstance(c, list) and str(c[0]) == "=>"):
        return [([], c)]
    alts = [[]]
    for x in conj(c[1]):
        y = [[z] for z in x[1:]] if isinstance(x, list) and str(x[0]) in ("or", "||") else [[x]]
        alts = [p + [w for v in z for w in conj(v)] for p in alts for z in y]
    return [(p + a, goal) for p in alts for a, goal in cases(c[2])]


def holds(res, b, qy, choice):
    """Whether the condition holds on the domain; variables of unused parameters get one value."""
    dom = Dom(b)
    for n, w in choice.items():
        qy.choose(n, w)

    def inlined(t):
        if isinstance(t, list) and t and str(t[0]) in choice and str(t[0]).startswith(b.name):
            sub = dict(zip(qy.params[str(t[0])], map(inlined, t[1:])))
            return replace(choice[str(t[0])], sub)
        return [inlined(x) for x in t] if isinstance(t, list) else t

    for ante, c in [x for c in conj(qy.goal) for x in cases(c)]:
        ante = [y for x in ante for y in conj(inlined(x))]
        goal = inlined(c)
        names = lambda t: {v for v in decide.symbols(t, set()) if v in qy.kinds and not v.endswith("-len")}
        todo = [(names(t), qy.rk.compile(t)) for t in ante]
        last = (names(goal), qy.rk.compile(goal))
        order, seen = [], set()
        for want in ["base", "active", *b.extra, "row", "agg.result_1", "agg.result"]:
            if any(want in ns for ns, _ in [*todo, last]) and want not in seen:
                order.append(want), seen.add(want)
        order += sorted(v for v in set().union(last[0], *[ns for ns, _ in todo]) if v not in seen)
        at = [[fn for ns, fn in todo if ns <= set(order[: k + 1]) and not ns <= set(order[:k])] for k in range(len(order))]
        count = 0

        def search(k):
            nonlocal count
            if k == len(order):
                count += 1
                return last[1]({}) is True
            for v in dom.values(order[k]):
                qy.rk.top[order[k]] = v
                try:
                    if all(fn({}) is True for fn in at[k]) and not search(k + 1):
                        return False
                except RktError as ex:
                    if "unbound" in str(ex) or "arity" in str(ex):
                        raise
            return True

        ok = search(0)
        res.add("transitions", count)
        if not ok:
            return f"{show(c)[:300]} fails for { {v: qy.rk.top[v] for v in order} }"
    return None


def replace(t, sub):
    if isinstance(t, list):
        return [replace(x, sub) for x in t]
    return sub.get(str(t), t) if isinstance(t, Sym) else t


def finishes(res, b, d, f, qy, text, choice):
    """The driver, given this answer by its synthesizer, returns the program."""
    forms = [f"/s/x.rkt:{k}:0\n'(define ({n} {' '.join(qy.params[n])})\n   {show(w)})\n" for k, (n, w) in enumerate(choice.items())]

    def events(proc):
        ev = []
        for _, outs, _ in outputs(text):
            for x in outs:
                if str(x[0]) == "rename-file-or-directory":
                    ev.append(lambda x=x: os.rename(os.path.join(proc.cwd, str(x[1])), os.path.join(proc.cwd, str(x[2]))))
                else:
                    ev.append(lambda x=x: open(os.path.join(proc.cwd, str(x[1])), "x").write("#t\n" + "".join(forms)))
            break
        return ev

    for x in os.listdir("synthesisLogs"):
        os.remove(os.path.join("synthesisLogs", x))
    w = World(events, (), lambda argv: (1, b"unsat\n", b""))
    with w, quiet():
        try:
            d.synthesize(filename=b.name)
            end = "returned"
        except Hang:
            end = "hang"
        except Exception as ex:
            if not from_repo(ex):
                raise
            end = f"{type(ex).__name__}: {ex}"
    res.add("traces")
    shown = {n: show(x)[:300] for n, x in choice.items()}
    if end != "returned" or f.synthesized is None:
        res.bad(f"end:{b.name}", f"{end}: {shown}")
        return
    sem = Sem()
    for t in d.target_lang_fns:
        if hasattr(t, "body") and t.body() is not None:
            sem.declare(t)
    for n, fd in d.synthesized_fns.items():
        if n in choice and not n.startswith(b.name):
            sem.declare(fd)
    g = sem.compile(f.synthesized)
    for x, y in b.inputs():
        for s in b.scalars:
            try:
                v = g({"base": x, "active": y, **dict(zip(b.extra, s))})
            except Undef as ex:
                v = f"undefined: {ex}"
            if v != b.run(x, y, s):
                res.bad(f"wrong:{b.name}", f"{x} {y} {s}: {v}, the program computes {b.run(x, y, s)}: {shown}")
                return


def run(item):
    if item[0] == "builder":
        return builder(item)
    what, name = item[:2]
    res = Res()
    os.chdir(env.scratch())
    bs = benches()
    if what == "general":
        key, bname, space, relaxed = next(g for g in generals(True) if g[0] == name)
        b = bs[item[2] if len(item) > 2 else bname]
        b.short = True
        key += f":{b.name}" * (len(item) > 2)
    else:
        b = bs[name]
        key, space, relaxed = name, b.space, what == "relaxed"
    try:
        with quiet():
            d, f = analyzed(b, space)
            text = emitted(d, b.name, relaxed)
    except Exception as ex:
        if not from_repo(ex):
            raise
        res.bad(f"build:{key}", f"{type(ex).__name__}: {ex}")
        return res
    try:
        qy = decide.Query(text, domain)
        well_typed(res, key, qy)
    except RktError as ex:
        res.bad(f"query:{key}", f"{type(ex).__name__}: {ex}")
        return res
    res.add("traces")
    if what == "general" and len(item) == 2 or res['violations']:
        return res
    qy = decide.Query(text, domain)
    try:
        found = contains(res, b, qy)
        if found:
            why = [holds(res, b, qy, c) for c in found]
            if all(why):
                res.bad(f"condition:{key}", f"no candidate fulfils the condition: {why}")
            elif what != "relaxed" and not key.endswith("-relaxed"):
                finishes(res, b, d, f, qy, text, found[why.index(None)])
    except RktError as ex:
        res.bad(f"fails:{key}", str(ex))
    return res


# ---------------------------------------------------------------- what the builders with a depth contain
def derives(e, pattern, memo):
    """Whether an expression with choices derives a pattern (an operand of a commutative operation may stand on either side)."""
    key = (id(e), pattern)
    if key not in memo:
        memo[key] = False
        if isinstance(e, IR.Choose):
            memo[key] = any(derives(x, pattern, memo) for x in e.args)
        elif isinstance(pattern, str):
            memo[key] = isinstance(e, IR.Var) and e.args[0] == pattern
        else:
            name, kids = (e.args[0], list(e.args[1:])) if isinstance(e, IR.Call) else (type(e).__name__, list(e.args))
            orders = [pattern[1:]] + ([pattern[:0:-1]] if pattern[0] in COMMUTE and len(pattern) == 3 else [])
            memo[key] = name == pattern[0] and any(len(o) == len(kids) and all(derives(x, y, memo) for x, y in zip(kids, o)) for o in orders)
    return memo[key]


COMMUTE = {"Add", "Mul", T.VEC_ELEMWISE_ADD, T.VEC_ELEMWISE_MUL, T.MATRIX_ELEMWISE_ADD, T.MATRIX_ELEMWISE_MUL}


def patterns(kind, depth):
    """The expressions of up to two operations that a space of a depth must contain."""
    ints = {0: ["i"], 1: [(o, "i", "i") for o in ("Add", "Sub", "Mul", "Div")]}
    if kind == "int":
        calls = [("integer_exp", "i"), ("integer_sqrt", "i")]
        out = ints[0] + (ints[1] + calls if depth else [])
        if depth > 1:
            out += [y for o in ("Add", "Sub", "Mul", "Div") for a in ints[1] + calls for y in ((o, a, "i"), (o, "i", a))] + [(c, a) for c in ("integer_exp", "integer_sqrt") for a in ints[1]]
        return out
    v, mat = "v", kind == "matrix"
    two = [T.MATRIX_ELEMWISE_ADD, T.MATRIX_ELEMWISE_SUB, T.MATRIX_ELEMWISE_MUL, T.MATRIX_ELEMWISE_DIV] if mat else [T.VEC_ELEMWISE_ADD, T.VEC_ELEMWISE_SUB, T.VEC_ELEMWISE_MUL, T.VEC_ELEMWISE_DIV]
    scal = [T.MATRIX_SCALAR_ADD, T.MATRIX_SCALAR_SUB, T.MATRIX_SCALAR_MUL, T.MATRIX_SCALAR_DIV, T.SCALAR_MATRIX_SUB, T.SCALAR_MATRIX_DIV] if mat else [
        T.VEC_SCALAR_ADD, T.VEC_SCALAR_SUB, T.VEC_SCALAR_MUL, T.VEC_SCALAR_DIV, T.SCALAR_VEC_SUB, T.SCALAR_VEC_DIV]
    one = lambda x, n="i": [(o, n, x) for o in scal] + ([] if mat else [(T.VEC_MAP, x, T.MAP_INT_TO_INT)]) + ([(T.MATRIX_VEC_MUL, "m", x)] if kind == "vec+" else [])
    out = [v]
    if depth:
        out += [(o, v, v) for o in two] + one(v)
    if depth > 1:
        first = [(o, v, v) for o in two] + one(v)
        out += [(o, x, v) for o in two for x in first] + [(o, v, x) for o in two for x in first] + [y for x in first for y in one(x)]
        out += [(o, n, v) for o in scal for n in ints[1]]
    return out


def builder(item):
    _, kind, depth = item
    res = Res()
    i = Int("i")
    try:
        with quiet():
            if kind == "int":
                e = T.get_int_expr_eq_or_below_depth(i, depth)
            else:
                v = Matrix(Int, "v") if kind == "matrix" else IR.List(Int, "v")
                e = T.get_matrix_or_vec_expr_eq_or_below_depth(matrix_or_vec_var=v, int_var=i, depth=depth, additional_matrix=Matrix(Int, "m") if kind == "vec+" else None)
    except Exception as ex:
        if not from_repo(ex):
            raise
        res.bad(f"builder:{kind}-{depth}", f"{type(ex).__name__}: {ex}")
        return res
    memo = {}
    missing = [p for p in patterns(kind, depth) if not derives(e.src, p, memo)]
    res.add("states", len(memo))
    res.add("transitions", len(patterns(kind, depth)))
    if missing:
        res.bad(f"missing:{kind}-{depth}", f"{len(missing)} expressions of up to two operations are not in the space, e.g. {missing[:4]}")
    return res


def native(b):
    """The C++ program computes what the reference does."""
    rows = lambda m: "{" + ",".join("{" + ",".join(map(str, x)) + "}" for x in m) + "}"
    calls = [(x, y, s) for x, y in b.inputs() for s in b.scalars]
    main = "#include <cstdio>\n" + b.source + "int main() {\n" + "".join(
        f"for (auto v : {b.name}({rows(x)}, {rows(y)}{''.join(', ' + str(z) for z in s)})) {{ for (int w : v) printf(\"%d \", w); printf(\"|\"); }} puts(\"\");\n" for x, y, s in calls) + "return 0; }\n"
    p = os.path.join(DIR, b.name + "_native")
    with open(p + ".cc", "w") as f:
        f.write(main)
    subprocess.run(["g++", "-O0", "-o", p, p + ".cc"], check=True)
    out = subprocess.run([p], stdout=subprocess.PIPE, check=True).stdout.decode().split("\n")
    for c, line in zip(calls, out):
        got = tuple(tuple(map(int, x.split())) for x in line.split("|")[:-1])
        assert got == b.run(*c), (b.name, c, got, b.run(*c))


def body(chk):
    global DIR
    DIR = env.scratch()
    lib = llvmfront.build_pass()
    llvmfront.fresh_contexts()
    for b in benches().values():
        llvmfront.compile_ll(DIR, b.name, b.source, "cc", lib, STUB)
        native(b)
    deep = chk.tier == "thorough"
    holing = [n for n, b in benches().items() if b.space]
    work = [("general", g[0]) for g in reversed(generals(deep))] + [("program", n) for n in holing] + [("relaxed", n) for n in holing if not n.endswith("_columns")]
    work += [("general", g, n) for g, n in PLAIN]
    work += [("builder", k, n) for k in ("int", "matrix", "vec", "vec+") for n in range(6)]
    chk.pmap(run, work)
    chk.assume("matrices of four shapes over a few pixel values that tell the programs apart", "integer_sqrt's placeholder in the bounded library has the right type")
    chk.finish(rule="all builders at depths up to five contain all expressions of up to two operations; all spaces at all depths up to the bound, relaxed or not; all words of the benchmarks' spaces up to behaviour on the states the programs reach")


if __name__ == "__main__":
    env.main("P33", body)
