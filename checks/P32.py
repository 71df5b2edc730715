"""P32: the tensor vocabulary means the same mathematics in every form it ships in, and its lemmas are true."""
import itertools
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import env
from mc.env import REPO, Res, from_repo, quiet

from metalift import ir  # noqa: E402
from metalift.utils.tenspiler import constants as TC, tenspiler_common as T  # noqa: E402
from mc.irsem import BUILTIN, Sem, Undef, div_agree, mod_agree, type_kind  # noqa: E402
from mc.rkt import RktError, load_runtime, same  # noqa: E402
from mc.sexp import read_all  # noqa: E402

# --- the mathematics
def zipw(f):
    return lambda x, y: tuple(f(p, q) for p, q in zip(x, y)) if len(x) == len(y) else ()


def rowsw(f):
    g = zipw(f)
    return lambda x, y: tuple(g(p, q) for p, q in zip(x, y)) if len(x) == len(y) else ()


def tensw(f):
    g = rowsw(f)
    return lambda x, y: tuple(g(p, q) for p, q in zip(x, y)) if len(x) == len(y) else ()


def div(a, b):
    if b <= 0 or a < 0:
        raise Undef("div")
    return a // b


def scal(f):
    return lambda a, x: tuple(f(a, v) for v in x)


def mscal(f):
    return lambda a, m: tuple(tuple(f(a, v) for v in r) for r in m)


def sel(p, q):
    return 3 * p - q


def dsel(p, q, o, r):
    return p if r > o else q


def matvec(m, x):
    out = []
    for r in m:
        if len(r) < 1 or len(r) != len(x):
            break
        out.append(sum(p * q for p, q in zip(r, x)))
    return tuple(out)


def prod(x):
    r = 1
    for v in x:
        r *= v
    return r


OPS = {"add": lambda a, b: a + b, "sub": lambda a, b: a - b, "mul": lambda a, b: a * b, "div": div}
SPEC = {
    "reduce_sum": lambda x: sum(x), "reduce_mul": prod, "reduce_max": lambda x: max(x) if x else -32,
    "matrix_vec_mul": matvec, "ite_int": lambda c, a, b: a if c else b,
    "selection_two_args": lambda x, y, f: zipw(f)(x, y), "matrix_selection_two_args": lambda x, y, f: rowsw(f)(x, y),
    "dissolve_selection_two_args": lambda x, y, o, r, f: zipw(lambda p, q: f(p, q, o, r))(x, y),
    "dissolve_matrix_selection_two_args": lambda x, y, o, r, f: rowsw(lambda p, q: f(p, q, o, r))(x, y),
    "vec_map": lambda x, f: tuple(f(v) for v in x), "integer_exp": lambda n: pow(3, n, 64) if n > 0 else 1,
}
for _n, _f in OPS.items():
    SPEC[f"vec_elemwise_{_n}"], SPEC[f"matrix_elemwise_{_n}"], SPEC[f"tensor3d_elemwise_{_n}"] = zipw(_f), rowsw(_f), tensw(_f)
    SPEC[f"vec_scalar_{_n}"] = scal(lambda a, v, f=_f: f(v, a))
    SPEC[f"matrix_scalar_{_n}"] = mscal(lambda a, v, f=_f: f(v, a))
    SPEC[f"scalar_vec_{_n}"], SPEC[f"scalar_matrix_{_n}"] = scal(_f), mscal(_f)


def firsts(m):
    if not all(m):
        raise Undef("empty row")
    return tuple(r[0] for r in m)


def rests(m):
    if not m:
        return ()
    if len({len(r) for r in m}) != 1 or not m[0]:
        raise Undef("ragged")
    return tuple(r[1:] for r in m)


for _n in ("vec_slice", "vec_slice_with_length", "matrix_row_slice", "matrix_row_slice_with_length", "matrix_col_slice",
           "matrix_col_slice_with_length", "matrix_transpose"):
    SPEC[_n] = BUILTIN[_n]
SPEC["firsts"], SPEC["rests"] = firsts, rests
NO_SPEC = {"integer_sqrt", "integer_sqrt_helper"}
TARGETS = {"select_two_args_arg": sel, "dissolve_select_two_args_arg": dsel, "map_int_to_int": lambda v: v * v - 2,
           "select_two_args": sel, "dissolve_select_two_args": dsel}


def decls():
    out = {}
    for v in list(vars(T).values()) + list(TC.TENSPILER_FNS):
        if isinstance(v, (ir.FnDecl, ir.FnDeclRecursive)) and v.body() is not None:
            out.setdefault(v.name(), v)
    return out


def lists(alphabet, n):
    return [t for k in range(n + 1) for t in itertools.product(alphabet, repeat=k)]


def values(kind, n):
    """The values of a kind at size n (1: the smallest set)."""
    if kind == "int":
        return list(range(-1, n + 2))
    if kind == "bool":
        return [False, True]
    if kind == "list":
        return lists((0, 1, 3) if n > 2 else (1, 3), n)
    if kind == "matrix":
        if n <= 2:
            return lists([(), (1,), (2, 3), (3, 1)][: n + 2], 2)
        rows = lists((1, 2), 2)
        out = lists(rows, 2)
        out += [t for t in itertools.product([(1,), (2,), (4, 2)], repeat=3)]
        out += [((1, 2, 3), (4, 5, 6)), ((0, 2, 1), (3, 1, 0), (1, 1, 5)), ((7, 8, 9),)]
        return out
    if kind == "tensor3d":
        ms = [(), ((1,),), ((1, 2), (3, 4)), ((2, 2), (0, 1)), ((1, 2),), ((1,), (2,))]
        return lists(ms[:n + 3], 2)
    raise KeyError(kind)


def product_within(kinds, n, cap, fixed=None):
    """All combinations at the largest size (at most n) that has no more than cap of them; nothing is left out."""
    for size in range(n, 0, -1):
        doms = [fixed[i] if fixed and i in fixed else values(k, size) for i, k in enumerate(kinds)]
        total = 1
        for x in doms:
            total *= len(x)
        if total <= cap:
            break
    return list(itertools.product(*doms))


def rows_of(d, n):
    """The argument tuples a function is evaluated on."""
    kinds = [type_kind(a.type) for a in d.arguments()]
    fixed = {i: [TARGETS[a.args[0]]] for i, a in enumerate(d.arguments()) if kinds[i] == "fn"}
    if d.name() in NO_SPEC:  # only its use on non-negative numbers is the same division in every form
        return list(itertools.product(range(4 * n * n), repeat=len(kinds)))
    return product_within(kinds, n, 6000 if n < 4 else 60000, fixed)


def nested(v):
    return [nested(x) for x in v] if isinstance(v, tuple) else v


def unnested(v):
    return tuple(unnested(x) for x in v) if isinstance(v, list) else v


def ragged(v):
    """Does the value contain an empty row or slab (which the bounded runtime cannot represent)?"""
    return isinstance(v, tuple) and any(isinstance(x, tuple) and (x == () or ragged(x)) for x in v)


def smt_script(names):
    """The DSL emitted for SMT behind the shipped prelude, in the order its functions use each other."""
    from mc import smt
    import importlib.resources as resources
    from metalift import utils

    s = smt.Script(interp=dict(TOTAL, **TARGETS), use_bodies=True, fuel=300)
    for p in ("tuples.smt", "integer-fn-axioms.smt", "list-axioms.smt"):
        s.load(resources.read_text(utils, p))
    return s


from checks.P30 import TOTAL  # noqa: E402

HIGHER = ("selection_two_args", "vec_map")


def run_fn(job):
    name, n = job
    r = Res()
    d = decls()[name]
    r.add("states")
    ds = decls()
    sem = Sem(TARGETS, div=div_agree, mod=mod_agree)
    for x in ds.values():
        sem.declare(x)
    forms = {"IR": (lambda *a: sem.fns[name](*a), None)}
    # Python text of the declarations
    higher = any(type_kind(a.type) == "fn" for a in d.arguments())
    t3 = any(type_kind(a.type) == "tensor3d" for a in d.arguments())
    if not t3:
        try:
            ns = dict(TARGETS)
            exec("from typing import *", ns)
            with quiet():
                for x in ds.values():
                    if not any(type_kind(a.type) == "tensor3d" for a in x.arguments()):
                        exec(x.to_python(), ns)
            forms["to_python"] = (lambda *a: unnested(ns[name](*[nested(v) for v in a])), None)
        except Exception as ex:
            if not from_repo(ex) and not isinstance(ex, (SyntaxError, NameError)):
                raise
            r.bad(f"python:{name}", f"{type(ex).__name__}: {ex}")
    # the hand-kept Python version
    dsl = {}
    exec(compile(open(os.path.join(REPO, "llmlift_scripts/dsl.py")).read(), "dsl.py", "exec"), dsl)
    if name in dsl:
        forms["dsl.py"] = (lambda *a: unnested(dsl[name](*[nested(v) for v in a])), None)
    # Rosette text on the shipped runtime
    rt = load_runtime()
    for k, f in TARGETS.items():
        rt.top[k] = f
    try:
        with quiet():
            texts = {k: x.to_rosette() for k, x in ds.items()}
        for t in texts.values():
            rt.load(t)
        if name not in ("integer_sqrt", "integer_sqrt_helper"):
            forms["Rosette"] = (lambda *a: rt.top[name](*a), ragged)
    except Exception as ex:
        r.bad(f"rosette:{name}", f"{type(ex).__name__}: {ex}")
    # SMT text behind the prelude (first-order functions; the others are specialised first, see P13)
    if not higher and not t3:
        s = smt_script(ds)
        try:
            emitted = set()

            def emit(k):
                if k in emitted or k in s.sig:
                    return
                emitted.add(k)
                x = ds[k]
                for c in calls(x.body()):
                    if c in ds and c != k:
                        emit(c)
                with quiet():
                    s.load(x.toSMT())

            emit(name)
            forms["SMT"] = (lambda *a: s.code[name](*a), None)
        except Exception as ex:
            r.bad(f"smt:{name}", f"{type(ex).__name__}: {ex}")
    spec = SPEC.get(name)
    if spec is None and name not in NO_SPEC:
        r.add("unspecified")
    for row in rows_of(d, n):
        try:
            want = spec(*row) if spec else None
        except Undef:
            continue
        for form, (f, skip) in forms.items():
            if skip and (any(skip(v) for v in row) or skip(want)):
                continue
            r.add("transitions")
            if form in ("dsl.py", "to_python"):
                r.add("traces")
            try:
                got = f(*row)
            except Undef as u:
                if form == "IR" and ("div" in str(u) or "mod" in str(u)):
                    continue
                got = f"no value ({u})"
            except RecursionError:
                got = "no value (recursion)"
            except (RktError, IndexError, ZeroDivisionError, TypeError, NameError) as x:
                got = f"no value ({type(x).__name__}: {x})"
            if spec is None:
                if want is None:
                    want = got = stable(got)
                got = stable(got)
            if not same(got, want):
                r.bad(f"value:{name}:{form}", f"{name}{tuple(a for a in row if not callable(a))} is {got} in {form}, expected {want}")
                return r
        r.outcome(name)
    return r


def stable(v):
    return "no value" if isinstance(v, str) else v


def calls(e):
    if isinstance(e, ir.Call):
        yield e.name()
    if isinstance(e, ir.Expr):
        for a in e.args:
            yield from calls(a)


def run_axiom(job):
    name, i, n = job
    r = Res()
    ax = TC.TENSPILER_FN_NAME_TO_AXIOMS[name][i]
    tot = dict(TOTAL)
    tot.update(TARGETS)
    tot["vec_slice"] = lambda l, s, e: TOTAL["list_tail"](TOTAL["list_take"](l, e), s)
    tot["matrix_row_slice"] = lambda l, s, e: TOTAL["matrix_tail"](TOTAL["matrix_take"](l, e), s)
    tot["vec_slice_with_length"] = lambda l, s, k: tot["vec_slice"](l, s, s + k)
    tot["matrix_row_slice_with_length"] = lambda l, s, k: tot["matrix_row_slice"](l, s, s + k)

    def tdiv(a, b):
        return 0 if b == 0 else (a - a % abs(b)) // b

    sem = Sem(tot, div=tdiv)
    for x in decls().values():
        if x.name() not in tot:
            sem.declare(x)
    for k in ("selection_two_args", "matrix_selection_two_args", "dissolve_selection_two_args", "dissolve_matrix_selection_two_args"):
        if k in sem.fns:
            # the lemma mentions the function without its function argument, which is fixed when the problem is emitted
            sem.fns[k] = with_target(sem.fns[k], dsel if k.startswith("dissolve") else sel, 5 if k.startswith("dissolve") else 3)
    f = sem.compile(ax.e())
    r.add("states")
    free = ir_free(ax.e())
    names = [v.args[0] for v in ax.vars()]
    if set(free) - set(names):
        r.bad(f"axiom:{name}", f"the axiom of {name} mentions {set(free) - set(names)}, which it does not quantify")
        return r
    kinds = [type_kind(v.type) for v in ax.vars()]
    for row in axiom_rows(kinds, n):
        r.add("transitions")
        try:
            ok = f(dict(zip(names, row)))
        except Undef as u:
            ok = f"no value ({u})"
        if ok is not True:
            r.bad(f"axiom:{name}", f"the axiom of {name} does not hold ({ok}) at {dict(zip(names, row))}")
            break
    r.outcome("axiom holds")
    return r


def with_target(f, t, n):
    return lambda *a: f(*a) if len(a) == n else f(*a, t)


def ir_free(e):
    from mc.irsem import free_vars

    return free_vars(e)


def axiom_rows(kinds, n):
    ls = [t for k in range(n + 1) for t in itertools.product((-40, 0, 2) if n < 4 else (-40, -1, 0, 2), repeat=k)]
    rows = [t for k in range(3) for t in itertools.product((1, -2), repeat=k)]
    ms = [t for k in range(3) for t in itertools.product(rows, repeat=k)]
    ms3 = [t for k in range(4) for t in itertools.product([(), (1,), (3,)] if n < 4 else rows[:4], repeat=k)]
    nm = kinds.count("matrix")
    pools = [[]] if not nm else [ms, ms3]
    ints = list(range(-1, n + 2))
    for pool in pools:
        doms = [{"int": ints, "list": ls if not nm or n >= 4 else ls[:13], "matrix": pool, "bool": [False, True]}[k] for k in kinds]
        if kinds.count("int") >= 3:
            doms = [d if k != "int" or i == len(kinds) - 1 else [0, 2] for i, (d, k) in enumerate(zip(doms, kinds))]
        yield from itertools.product(*doms)


def body(chk):
    n = 4 if chk.tier == "thorough" else 3
    ds = decls()
    missing = set(SPEC) - set(ds) - {"vec_scalar_add", "scalar_vec_add", "scalar_matrix_add", "scalar_vec_mul", "scalar_matrix_mul",
                                     "tensor3d_elemwise_sub", "tensor3d_elemwise_div"}
    for m in sorted(missing):
        chk.bad(f"missing:{m}", f"{m} is no longer part of the vocabulary")
    chk.pmap(run_fn, [(k, n) for k in sorted(ds)])
    jobs = [(k, i, n) for k, v in TC.TENSPILER_FN_NAME_TO_AXIOMS.items() for i in range(len(v))]
    chk.pmap(run_axiom, jobs)
    chk.add("functions", len(ds))
    chk.add("lemmas", len(jobs))
    chk.assume("division of non-negative by positive integers; in the bounded runtime, matrices without empty rows",
               "lemmas are read over the total functions of the SMT prelude, with 0 for an element outside a list",
               "integer_sqrt is a placeholder in the bounded runtime and has no fixed meaning; its SMT, IR and Python forms must agree")
    chk.finish(rule=f"every function of the tensor vocabulary in five forms (IR, emitted SMT on the prelude, emitted Rosette on the runtime, "
                    f"emitted Python, dsl.py) over all lists of at most {n} elements and matrices of at most 3 rows; every lemma likewise")


if __name__ == "__main__":
    env.main("P32", body)
