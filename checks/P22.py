"""P22: IR built through the object layer denotes what the Python operation says, has that result's type, and leaves its operands alone."""
import itertools
import operator
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import env
from mc.env import Res, from_repo

from metalift import ir  # noqa: E402
from mc import exprs as X  # noqa: E402
from mc.irsem import BUILTIN, Sem, Tup, Undef, div_agree, mod_agree, transpose  # noqa: E402

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import P32  # noqa: E402  (the mathematics of the tensor vocabulary)

B = BUILTIN
NI = ir.List[ir.List[ir.Int]]  # a list of lists: the untyped spelling of a matrix
SL = ir.Set[ir.List[ir.Int]]
TYPE = dict({k: v for k, v in X.TYPE.items() if k not in ("t1", "t3")}, nested=NI, tb=ir.make_tuple_type(ir.Int, ir.Bool, ir.Int), setl=SL)
CONST = {"cint": "int", "cbool": "bool"}  # Python constants in the place of Int and Bool objects


class Op:
    def __init__(self, name, res, args, build, ref, inplace=None):
        self.name, self.res, self.args, self.build, self.ref = name, res, args, build, ref
        self.inplace = inplace  # index of the operand that is updated in place


def variants(args):
    """The signature, and the ones with a Python constant in the place of some operands."""
    alts = [(a, "cint") if a == "int" else (a, "cbool") if a == "bool" else (a,) for a in args]
    return list(itertools.product(*alts))


def slices(kind, el, p):
    get = lambda l, i: B["list_get"](l, i)
    o = []
    for n, a, b, f in (
        ("get", ("int",), lambda l, i: l[i], get),
        ("tail", ("int",), lambda l, i: l[i:], B["list_tail"]),
        ("take", ("int",), lambda l, i: l[:i], B["list_take"]),
        ("slice", ("int", "int"), lambda l, i, j: l[i:j], B["vec_slice"]),
        ("slice_with_length", ("int", "int"), lambda l, i, j: l.slice_with_length(i, j), B["vec_slice_with_length"]),
    ):
        for v in variants(a):
            o.append(Op(f"{kind}.{n}", el if n == "get" else kind, (kind,) + v, b, f))
    for v in variants(("int",)):
        o.append(Op(f"{kind}.setitem", kind, (kind,) + v + (el,), setitem, B["list_set"], 0))
    o += [
        Op(f"{kind}.len", "int", (kind,), lambda l: l.len(), len),
        Op(f"{kind}.append", kind, (kind, el), lambda l, v: l.append(v), lambda l, v: l + (v,), 0),
        Op(f"{kind}.prepend", kind, (kind, el), lambda l, v: l.prepend(v), lambda l, v: (v,) + l, 0),
        Op(f"{kind}.eq", "bool", (kind, kind), operator.eq, operator.eq),
        Op(f"{kind}.ne", "bool", (kind, kind), operator.ne, operator.ne),
    ]
    if kind != "tensor":
        o.append(Op(f"{kind}.concat", kind, (kind, kind), operator.add, operator.add))
    return o


def setitem(l, i, v):
    l[i] = v
    return l


def numeric(kind, cls, p):
    o = []
    for n in ("add", "sub", "mul", "div"):
        S = P32.SPEC
        o.append(Op(f"{cls.__name__}.{n}", kind, (kind, kind), getattr(cls, n), S[f"{p}_elemwise_{n}"]))
        scal, rev = S[f"{p}_scalar_{n}"], S.get(f"scalar_{p}_{n}", S[f"{p}_scalar_{n}"])
        for k in ("int", "cint"):
            o.append(Op(f"{cls.__name__}.{n}", kind, (kind, k), getattr(cls, n), lambda x, a, f=scal: f(a, x)))
            o.append(Op(f"{cls.__name__}.{n}", kind, (k, kind), getattr(cls, n), rev))
    return o


def ops():
    o = []
    for n, f, g in (("+", operator.add, operator.add), ("-", operator.sub, operator.sub), ("*", operator.mul, operator.mul),
                    ("//", operator.floordiv, div_agree), ("%", operator.mod, mod_agree)):
        for a in (("int", "int"), ("int", "cint"), ("cint", "int")):
            o.append(Op(n, "int", a, f, g))
    for n in ("eq", "ne", "lt", "le", "gt", "ge"):
        f = getattr(operator, n)
        for a in (("int", "int"), ("int", "cint"), ("cint", "int")):
            o.append(Op(n, "bool", a, f, f))
        if n in ("eq", "ne"):
            for a in (("bool", "bool"), ("bool", "cbool"), ("cbool", "bool")):
                o.append(Op(n + "b", "bool", a, f, f))
    o.append(Op("Not", "bool", ("bool",), lambda a: a.Not(), operator.not_))
    for rest in itertools.chain(itertools.product(("bool", "cbool"), repeat=1), itertools.product(("bool", "cbool"), repeat=2)):
        o.append(Op("And", "bool", ("bool",) + rest, lambda a, *r: a.And(*r), lambda *a: all(a)))
        o.append(Op("Or", "bool", ("bool",) + rest, lambda a, *r: a.Or(*r), lambda *a: any(a)))
    o.append(Op("implies", "bool", ("bool", "bool"), ir.implies, lambda a, b: (not a) or b))
    o.append(Op("and_objects", "bool", ("bool", "bool"), and_objects, lambda a, b: a and b))
    o.append(Op("or_objects", "bool", ("bool", "bool"), or_objects, lambda a, b: a or b))
    for k in ("int", "bool", "list", "matrix", "nested", "tensor", "set", "t2", "tb"):
        o.append(Op("ite", k, ("bool", k, k), ir.ite, lambda c, a, b: a if c else b))
    o.append(Op("relaxed", "int", ("int",), lambda a: a.maybe_relaxed(False), lambda a: a))
    o += slices("list", "int", "list") + slices("matrix", "list", "matrix") + slices("tensor", "matrix", "tensor3d")
    o += slices("nested", "list", "matrix")
    o += [
        Op("list.empty", "list", (), lambda: ir.List.empty(ir.Int), lambda: ()),
        Op("list.default", "list", (), lambda: ir.List.default_value(), lambda: ()),
        Op("nested.empty", "nested", (), lambda: ir.List.empty(ir.List[ir.Int]), lambda: ()),
        Op("matrix.empty", "matrix", (), lambda: ir.Matrix.empty(ir.Int), lambda: ()),
        Op("matrix.default", "matrix", (), lambda: ir.Matrix.default_value(), lambda: ()),
        Op("tensor.empty", "tensor", (), lambda: ir.Tensor3D.empty(ir.Int), lambda: ()),
        Op("int.default", "int", (), lambda: ir.Int.default_value(), lambda: 0),
        Op("bool.default", "bool", (), lambda: ir.Bool.default_value(), lambda: False),
        Op("set.empty", "set", (), lambda: ir.Set.empty(ir.Int), lambda: frozenset()),
        Op("set.singleton", "set", ("int",), lambda v: ir.Set.singleton(v), lambda v: frozenset([v])),
        Op("set.add", "set", ("set", "int"), lambda s, v: s.add(v), lambda s, v: s | {v}),
        Op("set.remove", "set", ("set", "int"), lambda s, v: s.remove(v), lambda s, v: s - {v}),
        Op("set.union", "set", ("set", "set"), lambda s, t: s.union(t), operator.or_),
        Op("set.difference", "set", ("set", "set"), lambda s, t: s.difference(t), operator.sub),
        Op("set.contains", "bool", ("set", "int"), lambda s, v: s.__contains__(v), lambda s, v: v in s),
        Op("set.eq", "bool", ("set", "set"), operator.eq, operator.eq),
        Op("set.ne", "bool", ("set", "set"), operator.ne, operator.ne),
        Op("setl.singleton", "setl", ("list",), lambda v: ir.Set.singleton(v), lambda v: frozenset([v])),
        Op("setl.add", "setl", ("setl", "list"), lambda s, v: s.add(v), lambda s, v: s | {v}),
        Op("setl.remove", "setl", ("setl", "list"), lambda s, v: s.remove(v), lambda s, v: s - {v}),
        Op("setl.contains", "bool", ("setl", "list"), lambda s, v: s.__contains__(v), lambda s, v: v in s),
    ]
    for v in variants(("int", "int")):
        o.append(Op("matrix.col_slice", "matrix", ("matrix",) + v, lambda m, i, j: m.col_slice(i, j), B["matrix_col_slice"]))
        o.append(Op("matrix.col_slice_with_length", "matrix", ("matrix",) + v, lambda m, i, j: m.col_slice_with_length(i, j),
                    B["matrix_col_slice_with_length"]))
    for v in variants(("int",)):
        o.append(Op("matrix.col_vec", "list", ("matrix",) + v, lambda m, i: m.col_vec(i), col_vec))
    o.append(Op("matrix.transpose", "matrix", ("matrix",), lambda m: m.transpose(), transpose))
    o += numeric("list", ir.List, "vec") + numeric("matrix", ir.Matrix, "matrix")
    o += [
        Op("make_tuple2", "t2", ("int", "int"), ir.make_tuple, lambda *a: Tup(a)),
        Op("make_tuple3", "tb", ("int", "bool", "int"), ir.make_tuple, lambda *a: Tup(a)),
        Op("t2.0", "int", ("t2",), lambda t: t[0], lambda t: t[0]), Op("t2.1", "int", ("t2",), lambda t: t[1], lambda t: t[1]),
        Op("t2.Int(1)", "int", ("t2",), lambda t: t[ir.Int(1)], lambda t: t[1]),
        Op("tb.0", "int", ("tb",), lambda t: t[0], lambda t: t[0]), Op("tb.1", "bool", ("tb",), lambda t: t[1], lambda t: t[1]),
        Op("tb.2", "int", ("tb",), lambda t: t[2], lambda t: t[2]),
    ]
    for k in ("int", "bool", "list", "matrix", "tensor", "set", "t2", "tb", "nested"):
        o.append(Op(f"call->{k}", k, (k, "int"), lambda a, b, k=k: ir.call("first_" + k, TYPE[k], a, b), lambda a, b: a))
        o.append(Op(f"call_value->{k}", k, (k, "int"),
                    lambda a, b, k=k: ir.call_value(ir.Fn((TYPE[k], TYPE[k], ir.Int), "first_" + k), a, b), lambda a, b: a))
    return o


def col_vec(m, i):
    if not m:
        raise Undef("no rows")
    return B["matrix_transpose"](B["matrix_col_slice"](m, i, i + 1))[0]


def and_objects(a, b):
    from metalift.vc_util import and_objects as f

    return f(a, b)


def or_objects(a, b):
    from metalift.vc_util import or_objects as f

    return f(a, b)


NAMES = {"int": ("x", "y"), "bool": ("b", "c"), "list": ("l", "k"), "matrix": ("m", "w"), "nested": ("n",), "tensor": ("z",),
         "set": ("s", "r"), "setl": ("q",), "t2": ("t",), "tb": ("u",)}
VALUES = dict(
    {k: v for k, v in X.VALUES.items() if k not in "u"}, k=((2, 0), (), (1,)), w=(((2,),), ((0, 1), (1, 1))),
    n=X.VALUES["m"], r=(frozenset({1}), frozenset({0, 2})), q=(frozenset({(1,)}), frozenset({(), (2, 0)})),
    u=(Tup((1, True, 3)), Tup((0, False, 2))), z=X.VALUES["z"])
FNS = dict(P32.SPEC, **{f"first_{k}": (lambda a, b: a) for k in TYPE})


def level(v):
    """How deep the sequences in a value nest, as far as one can tell: (least, most)."""
    if not isinstance(v, tuple) or isinstance(v, Tup):
        return (0, 0)
    if not v:
        return (1, 9)
    lo, hi = zip(*[level(x) for x in v])
    return (1 + max(lo), 1 + min(hi))


def strict(name, f, seq, lev):
    """The library functions are not interchangeable between lists, matrices and tensors."""

    def g(*a):
        if seq is None:
            return f(*a)
        lo, hi = level(a[seq])
        if not lo <= lev <= hi:
            raise TypeError(f"{name} applied to {a[seq]}")
        return f(*a)

    return g


for _lev, _p in ((1, "list"), (2, "matrix"), (3, "tensor3d")):
    for _n, _s in (("length", 0), ("get", 0), ("append", 0), ("prepend", 1), ("tail", 0), ("take", 0)):
        FNS[f"{_p}_{_n}"] = strict(f"{_p}_{_n}", B[f"{_p}_{_n}"], _s, _lev)
for _lev, _p in ((1, "vec_slice"), (2, "matrix_row_slice"), (3, "tensor3d_slice"), (2, "matrix_col_slice")):
    for _n in (_p, _p + "_with_length"):
        FNS[_n] = strict(_n, B[_n], 0, _lev)
FNS["matrix_transpose"] = strict("matrix_transpose", transpose, 0, 2)
SEM = dict(div=div_agree, mod=mod_agree)


class Leaf:
    def __init__(self, kind, make, ref):
        self.kind, self.make, self.ref = kind, make, ref


def leaves(kind, rich):
    if kind == "cint":
        return [Leaf(kind, lambda v=v: v, lambda env, v=v: v) for v in ((0, 1, 2) if rich else (1,))]
    if kind == "cbool":
        return [Leaf(kind, lambda v=v: v, lambda env, v=v: v) for v in (True, False)]
    out = []
    for n in NAMES[kind][: 2 if rich else 1]:
        out.append(Leaf(kind, lambda n=n: ir.create_object(TYPE[kind], n), lambda env, n=n: env[n]))
    if kind == "int":
        out += [Leaf(kind, lambda v=v: ir.Int(v), lambda env, v=v: v) for v in ((0, 1, -1) if rich else (1,))]
    if kind == "bool" and rich:
        out += [Leaf(kind, lambda v=v: ir.Bool(v), lambda env, v=v: v) for v in (True, False)]
    return out


def trees(opers):
    by = {}
    for o in opers:
        by.setdefault(o.res, []).append(o)
    memo = {}

    def of(kind, depth, rich):
        key = (kind, depth, rich)
        if key not in memo:
            out = list(leaves(kind, rich)) + [(o, ()) for o in by.get(kind, []) if not o.args]
            if depth > 0:
                for o in by.get(kind, []):
                    if o.args:
                        out += [(o, a) for a in itertools.product(*[of(k, depth - 1, rich) for k in o.args])]
            memo[key] = out
        return memo[key]

    return by, of


def tree_set(tier):
    """Depth 1 with every leaf in every place; below that, one operand at a time is an operation
    (thorough: two levels of those) and the others are variables."""
    opers = ops()
    by, of = trees(opers)
    out = []
    for kind in TYPE:
        out += of(kind, 1, True)
    small = lambda o: [of(k, 0, False)[:2] for k in o.args]

    def below(depth):
        """applications with exactly one non-leaf operand, nested `depth` deep"""
        inner = {}
        for o in opers:
            if depth == 0:
                inner.setdefault(o.res, []).extend((o, a) for a in itertools.product(*[of(k, 0, False)[:1] for k in o.args]))
        if depth == 0:
            return inner
        prev = below(depth - 1)
        for o in opers:
            for i, k in enumerate(o.args):
                for sub in prev.get(k, []):
                    rest = small(o)
                    rest[i] = [sub]
                    if depth > 1:
                        rest = [r[:1] for r in rest]
                    inner.setdefault(o.res, []).extend((o, a) for a in itertools.product(*rest))
        return inner

    for d in range(1, 3 if tier == "thorough" else 2):
        for v in below(d).values():
            out += v
    return out


def variables(t, acc):
    if isinstance(t, Leaf):
        return acc
    for a in t[1]:
        variables(a, acc)
    return acc


def build(t, r, k):
    """The object; operands are checked to be untouched unless the operation updates them in place."""
    if isinstance(t, Leaf):
        return t.make()
    o, args = t
    objs = [build(a, r, k) for a in args]
    before = [(x.src, str(x.src)) if isinstance(x, ir.Object) else (x, str(x)) for x in objs]
    out = o.build(*objs)
    for i, (x, (src, s)) in enumerate(zip(objs, before)):
        if not isinstance(x, ir.Object):
            continue
        if i == o.inplace:
            if out is not x:
                r.bad(f"inplace:{o.name}", f"{o.name} updates its operand in place but returns another object")
            if str(x.src) == s:
                r.bad(f"inplace:{o.name}", f"{o.name} left its receiver {s} as it was")
        elif x.src is not src:
            r.bad(f"operand:{o.name}", f"{o.name} replaced its operand {s} by {x.src}")
        if str(src) != s:
            r.bad(f"operand:{o.name}", f"{o.name} changed the expression {s} of an operand to {src}")
    return out


def ref(t, e):
    if isinstance(t, Leaf):
        return t.ref(e)
    o, args = t
    return o.ref(*[ref(a, e) for a in args])


def key(t):
    if isinstance(t, Leaf):
        return "." if t.kind not in CONST else "const"
    return t[0].name + "(" + ",".join(key(a) for a in t[1]) + ")"


def top(t):
    return t[0].name + "(" + ",".join(a[0].name if not isinstance(a, Leaf) else ("const" if a.kind in CONST else ".") for a in t[1]) + ")"


def run(chunk):
    from mc.irsem import free_vars

    r = Res()
    for t in chunk:
        if isinstance(t, Leaf):
            if t.kind in CONST:
                continue
            want, k = t.kind, "leaf"
        else:
            want, k = t[0].res, top(t)
        r.add("states")
        try:
            obj = build(t, r, k)
        except Exception as x:
            if not from_repo(x) and not isinstance(x, (TypeError, AttributeError)):
                raise
            r.bad(f"build:{k}", f"{key(t)} raises {type(x).__name__}: {x}")
            continue
        if not isinstance(obj, ir.Object):
            r.bad(f"object:{k}", f"{key(t)} is {obj!r}, not an IR object")
            continue
        if obj.type != TYPE[want] or obj.src.type != TYPE[want]:
            r.bad(f"type:{k}", f"{key(t)} has type {obj.type} (expression: {obj.src.type}), expected {TYPE[want]}")
            continue
        try:
            f = Sem(FNS, **SEM).compile(obj.src)
        except NotImplementedError as x:
            r.bad(f"object:{k}", f"{key(t)} built {obj.src}: {x}")
            continue
        names = list(free_vars(obj.src))
        for n in list(names):
            if n.startswith("first_"):
                names.remove(n)
        envs = X.envs(names_of(t, names), VALUES)
        for e in envs:
            try:
                w = ref(t, e)
            except Undef:
                continue
            r.add("transitions")
            try:
                g = f(e)
            except Exception as x:
                g = f"{type(x).__name__}: {x}"
            if type(g) != type(w) or g != w:
                r.bad(f"value:{k}", f"{key(t)} built {obj.src}, which with {e} is {g}; expected {w}")
                break
            r.outcome(str(w)[:20])
    return r


def names_of(t, extra, acc=None):
    acc = list(extra) if acc is None else acc
    if isinstance(t, Leaf):
        class E(dict):
            def __missing__(self, n):
                if n not in acc:
                    acc.append(n)
                return VALUES[n][0]

        t.ref(E())
        return acc
    for a in t[1]:
        names_of(a, (), acc)
    return acc


OPERATORS = {n: getattr(operator, n) for n in ("add", "sub", "mul", "floordiv", "mod", "lt", "le", "gt", "ge")}


def run_types(_):
    """Ill-typed combinations are refused and change nothing."""
    r = Res()
    mk = lambda k, n="v": ir.create_object(TYPE[k], n)
    kinds = ("int", "bool", "list", "nested", "matrix", "tensor", "set", "setl", "t2", "tb")

    def refused(name, f, *objs):
        r.add("states")
        before = [str(o.src) for o in objs]
        try:
            out = f(*objs)
        except Exception:
            out = None
        if out is not None:
            r.bad(f"types:{name}", f"{name} of {[str(o.type) for o in objs]} is accepted: {out}")
        elif [str(o.src) for o in objs] != before:
            r.bad(f"types:{name}", f"{name} was refused but changed its operands to {[str(o.src) for o in objs]}")

    el = {"list": "int", "nested": "list", "matrix": "list", "tensor": "matrix", "set": "int", "setl": "list"}
    for k, e in el.items():
        for o in kinds:
            if o == e:
                continue
            if k in ("list", "nested", "matrix", "tensor"):
                refused(f"{k}.append", lambda a, b: a.append(b), mk(k), mk(o, "w"))
                refused(f"{k}.prepend", lambda a, b: a.prepend(b), mk(k), mk(o, "w"))
                refused(f"{k}.setitem", lambda a, b: setitem(a, 0, b), mk(k), mk(o, "w"))
            else:
                refused(f"{k}.add", lambda a, b: a.add(b), mk(k), mk(o, "w"))
                refused(f"{k}.remove", lambda a, b: a.remove(b), mk(k), mk(o, "w"))
                got = mk(k).__contains__(mk(o, "w"))
                if not (isinstance(got, ir.Bool) and Sem().eval(got.src) is False):
                    r.bad(f"types:{k}.contains", f"{o} in {k} is {got}, expected false")
    for k in ("list", "nested", "matrix", "set", "setl"):
        for o in ("list", "nested", "matrix", "tensor", "set", "setl"):
            if k != o:
                if k in ("set", "setl"):
                    if o in ("set", "setl"):
                        refused(f"{k}.union", lambda a, b: a.union(b), mk(k), mk(o, "w"))
                        refused(f"{k}.difference", lambda a, b: a.difference(b), mk(k), mk(o, "w"))
                else:
                    refused(f"{k}+", operator.add, mk(k), mk(o, "w"))
    for k in ("list", "nested", "matrix", "tensor"):
        for o in ("list", "nested", "matrix", "tensor"):
            if k != o:
                r.add("states")
                got = mk(k) == mk(o, "w")
                if not (isinstance(got, ir.Bool) and Sem().eval(got.src) is False):
                    r.bad(f"types:{k}.eq", f"{k} == {o} is {got}, expected false")
                got = mk(k) != mk(o, "w")
                if not (isinstance(got, ir.Bool) and Sem().eval(got.src) is True):
                    r.bad(f"types:{k}.ne", f"{k} != {o} is {got}, expected true")
    for n, f in OPERATORS.items():
        for a in ("int",):
            for b in kinds:
                if b != "int":
                    refused(n, f, mk(a), mk(b, "w"))
    for cls, k in ((ir.Int, "int"), (ir.Bool, "bool")):
        for o in kinds:
            if o != k:
                refused(f"{cls.__name__}()", lambda a: cls(a.src), mk(o))
    for a in kinds:
        for b in kinds:
            if a != b:
                refused("ite", lambda x, y: ir.ite(ir.Bool("c"), x, y), mk(a), mk(b, "w"))
            if a != "bool" or b != "bool":
                refused("implies", ir.implies, mk(a), mk(b, "w"))
                if a == "bool":
                    refused("And", lambda x, y: x.And(y), mk(a), mk(b, "w"))
                    refused("Or", lambda x, y: x.Or(y), mk(a), mk(b, "w"))
    return r


def run_helpers(_):
    """choose, fn_decl, synth and function objects."""
    r = Res()
    mk = lambda k, n: ir.create_object(TYPE[k], n)
    for k in ("int", "bool", "list", "matrix", "nested", "tensor", "set", "t2", "tb"):
        for n in (1, 2, 3):
            r.add("states")
            objs = [mk(k, f"v{i}") for i in range(n)]
            c = ir.choose(*objs)
            if c.type != TYPE[k] or not isinstance(c.src, ir.Choose) or [a.name() for a in c.src.arguments()] != [f"v{i}" for i in range(n)]:
                r.bad(f"choose:{k}", f"choose of {n} {k} is {c} of type {c.type}")
        for cls, f in ((ir.FnDecl, ir.fn_decl), (ir.FnDeclRecursive, ir.fn_decl_recursive)):
            r.add("states")
            a, b = mk(k, "a"), ir.Int("i")
            d = f("second", TYPE[k], ir.ite(b > 0, a, a), b, a)
            if not isinstance(d, cls) or d.return_type() != TYPE[k] or [p.name() for p in d.arguments()] != ["i", "a"] \
                    or [p.type for p in d.arguments()] != [ir.Int, TYPE[k]]:
                r.bad(f"fn_decl:{k}", f"{d}")
                continue
            fun = Sem()
            fun.declare(d)
            v = VALUES[NAMES[k][0]]
            for x in v:
                r.add("transitions")
                if fun.fns["second"](1, x) != x:
                    r.bad(f"fn_decl:{k}", f"{d} returned {fun.fns['second'](1, x)} on (1, {x})")
            o = ir.Fn((TYPE[k], ir.Int, TYPE[k]), d)
            got = ir.call_value(o, ir.Int(1), a)
            if got.type != TYPE[k] or o.name != "second" or o.type.return_type(ir.get_args(o.type)) != TYPE[k] \
                    or tuple(o.type.argument_types(ir.get_args(o.type))) != (ir.Int, TYPE[k]):
                r.bad(f"fn:{k}", f"calling {o} gives {got} of type {got.type}")
            s = ir.synth("s", a, b, a)
            if s.name() != "s" or s.body() != a.src or [p.name() for p in s.arguments()] != ["i", "a"]:
                r.bad(f"synth:{k}", str(s))
    # relaxation offers exactly the neighbours
    c = ir.Int("x").maybe_relaxed(True)
    r.add("states")
    for x in (0, 1, 5):
        if sorted(Sem().eval(a, {"x": x}) for a in c.src.arguments()) != [x - 1, x, x + 1]:
            r.bad("relaxed", f"{c}")
    # arithmetic on bare expressions
    x, y, z = (ir.Var(n, ir.Int) for n in "xyz")
    ARITH = {"+": operator.add, "-": operator.sub, "*": operator.mul}
    for (p, f), (q, g) in itertools.product(ARITH.items(), repeat=2):
        for name, h in ((f"(x{p}y){q}z", lambda a, b, c: g(f(a, b), c)), (f"x{p}(y{q}z)", lambda a, b, c: f(a, g(b, c)))):
            r.add("states")
            try:
                e = h(x, y, z)
            except Exception as ex:
                r.bad(f"expr:{name}", f"{name} on expressions raises {type(ex).__name__}: {ex}")
                continue
            for row in itertools.product((0, 1, 2, 5), repeat=3):
                r.add("transitions")
                if Sem().eval(e, dict(zip("xyz", row))) != h(*row):
                    r.bad(f"expr:{name}", f"{name} built {e}")
                    break
    return r


def body(chk):
    chk.pmap(run, env.chunks(tree_set(chk.tier), 400))
    chk.pmap(run_types, [0])
    chk.pmap(run_helpers, [0])
    chk.assume("elements of tuples are integers and booleans; tuple == is structural and not compared",
               "Python constants stand for Int and Bool operands, not for list or set elements")
    chk.finish(rule="every method and operator with every leaf in every place, then every operation on the result of every operation"
               + (", two levels" if chk.tier == "thorough" else ""))


if __name__ == "__main__":
    env.main("P22", body)
