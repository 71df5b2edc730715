"""Bounded-exhaustive enumeration of well-typed IR expressions."""
import itertools
from functools import lru_cache

from metalift import ir
from metalift.ir import (Add, And, BoolLit, Call, CallValue, Div, Eq, Fn, Ge, Gt, Implies, IntLit, Ite, Le, Let, Lt, Mod,
                         Mul, Not, Or, Sub, TupleExpr, Var)

from mc.irsem import Tup

Int, Bool = ir.Int, ir.Bool
LI = ir.List[Int]
MI = ir.Matrix[Int]
TI = ir.Tensor3D[Int]
SI = ir.Set[Int]
T2 = ir.make_tuple_type(Int, Int)
T1 = ir.make_tuple_type(Int)
T3 = ir.make_tuple_type(Int, LI, Bool)
TYPE = {"int": Int, "bool": Bool, "list": LI, "matrix": MI, "tensor": TI, "set": SI, "t1": T1, "t2": T2, "t3": T3}
FNT = ir.make_fn_type(Int, Int)


class Op:
    def __init__(self, name, res, args, build, tags=()):
        self.name, self.res, self.args, self.build, self.tags = name, res, args, build, frozenset(tags)


def C(name, res, *args, tags=()):
    return Op(name, res, args, lambda *a: Call(name, TYPE[res], *a), tags)


def core_ops():
    o = [
        Op("Add", "int", ("int", "int"), Add), Op("Sub", "int", ("int", "int"), Sub),
        Op("Mul", "int", ("int", "int"), Mul), Op("Div", "int", ("int", "int"), Div),
        Op("Mod", "int", ("int", "int"), Mod), Op("Add3", "int", ("int", "int", "int"), Add),
        Op("Mul3", "int", ("int", "int", "int"), Mul),
        Op("Eq", "bool", ("int", "int"), Eq), Op("EqB", "bool", ("bool", "bool"), Eq),
        Op("Lt", "bool", ("int", "int"), Lt), Op("Le", "bool", ("int", "int"), Le),
        Op("Gt", "bool", ("int", "int"), Gt), Op("Ge", "bool", ("int", "int"), Ge),
        Op("And", "bool", ("bool", "bool"), And), Op("Or", "bool", ("bool", "bool"), Or),
        Op("And3", "bool", ("bool", "bool", "bool"), And), Op("Or3", "bool", ("bool", "bool", "bool"), Or),
        Op("Not", "bool", ("bool",), Not), Op("Implies", "bool", ("bool", "bool"), Implies, {"nopy"}),
        Op("Ite", "int", ("bool", "int", "int"), Ite), Op("IteB", "bool", ("bool", "bool", "bool"), Ite),
        Op("Let", "int", ("int", "int"), lambda a, b: Let(Var("x", Int), a, b), {"nopy"}),
        Op("LetB", "bool", ("bool", "bool"), lambda a, b: Let(Var("b", Bool), a, b), {"nopy"}),
    ]
    return o


def seq_ops():
    o = []
    for p, k, el in (("list", "list", "int"), ("matrix", "matrix", "list"), ("tensor3d", "tensor", "matrix")):
        t = {"nosmt", "nopy"} if k == "tensor" else set()
        o += [
            C(f"{p}_length", "int", k, tags=t), C(f"{p}_get", el, k, "int", tags=t),
            C(f"{p}_append", k, k, el, tags=t), C(f"{p}_prepend", k, el, k, tags=t),
            C(f"{p}_tail", k, k, "int", tags=t), C(f"{p}_take", k, k, "int", tags=t),
        ]
    o += [
        C("vec_slice", "list", "list", "int", "int"), C("vec_slice_with_length", "list", "list", "int", "int"),
        C("matrix_row_slice", "matrix", "matrix", "int", "int"),
        C("matrix_row_slice_with_length", "matrix", "matrix", "int", "int"),
        C("tensor3d_slice", "tensor", "tensor", "int", "int", tags={"nosmt", "nopy"}),
        C("tensor3d_slice_with_length", "tensor", "tensor", "int", "int", tags={"nosmt", "nopy"}),
        C("matrix_col_slice", "matrix", "matrix", "int", "int", tags={"nopy"}),
        C("matrix_col_slice_with_length", "matrix", "matrix", "int", "int", tags={"nopy"}),
        C("matrix_transpose", "matrix", "matrix", tags={"nopy"}),
        C("list_concat", "list", "list", "list", tags={"nopy"}),
        C("list_eq", "bool", "list", "list", tags={"nopy"}),
        Op("EqL", "bool", ("list", "list"), Eq), Op("EqM", "bool", ("matrix", "matrix"), Eq),
        Op("IteL", "list", ("bool", "list", "list"), Ite), Op("IteM", "matrix", ("bool", "matrix", "matrix"), Ite),
    ]
    return o


def set_ops():
    return [
        C("set-singleton", "set", "int", tags={"nopy"}), C("set-insert", "set", "int", "set", tags={"nopy"}),
        C("set-union", "set", "set", "set", tags={"nopy"}), C("set-minus", "set", "set", "set", tags={"nopy"}),
        C("set-member", "bool", "int", "set", tags={"nopy"}), C("set-subset", "bool", "set", "set", tags={"nopy"}),
        Op("EqS", "bool", ("set", "set"), Eq, {"nopy"}), Op("IteS", "set", ("bool", "set", "set"), Ite, {"nopy"}),
    ]


def tuple_ops():
    o = [
        Op("Tuple2", "t2", ("int", "int"), TupleExpr), Op("Tuple3", "t3", ("int", "list", "bool"), TupleExpr),
        Op("make2", "t2", ("int", "int"), lambda a, b: Call("make-tuple", T2, a, b), {"nopy"}),
        Op("EqT", "bool", ("t2", "t2"), Eq), Op("IteT", "t2", ("bool", "t2", "t2"), Ite),
    ]
    o.append(Op("Tuple1", "t1", ("int",), TupleExpr))
    o.append(Op("Get1.0", "int", ("t1",), lambda t: ir.TupleGet(t, IntLit(0)), {"tget"}))
    for i in (0, 1):
        o.append(Op(f"get2.{i}", "int", ("t2",), lambda t, i=i: Call("tupleGet", Int, t, IntLit(i)), {"tget"}))
        o.append(Op(f"Get2.{i}", "int", ("t2",), lambda t, i=i: ir.TupleGet(t, IntLit(i)), {"tget"}))
    for i, k in ((0, "int"), (1, "list"), (2, "bool")):
        o.append(Op(f"get3.{i}", k, ("t3",), lambda t, i=i, k=k: Call("tupleGet", TYPE[k], t, IntLit(i)), {"tget"}))
        o.append(Op(f"Get3.{i}", k, ("t3",), lambda t, i=i: ir.TupleGet(t, IntLit(i)), {"tget"}))
    return o


# user-defined functions, including names that resemble the builtin vocabulary
USER = {
    "g": ("int", ("int",), lambda a: 3 * a + 1),
    "pair_of": ("t2", ("int", "int"), lambda a, b: Tup((b, a))),
    "list_total": ("int", ("list",), lambda l: sum(l)),
    "vec_first": ("int", ("list", "int"), lambda l, d: l[0] if l else d),
    "matrix_rows": ("int", ("matrix",), lambda m: 7 + len(m)),
    "integer_half": ("int", ("int",), lambda a: a + 5),
    "invert": ("int", ("int",), lambda a: -a),
    "psum": ("int", ("int", "int"), lambda a, b: 2 * a - b),
    "item": ("bool", ("int",), lambda a: a > 0),
    "setter": ("list", ("list", "int"), lambda l, v: (v,) + l),
    "mapper": ("list", ("list",), lambda l: tuple(x + 1 for x in l)),
    "tensor3d_weight": ("int", ("int",), lambda a: a * 5),
}


def user_ops():
    o = [C(n, r, *a) for n, (r, a, _) in USER.items()]
    o += [
        Op("apply", "int", ("int",), lambda a: CallValue(Var("fun", FNT), a)),
        Op("nullary", "int", (), lambda: Call("konst", Int)),
        C("ite", "int", "bool", "int", "int", tags={"nopy"}),
    ]
    return o


OPS = core_ops() + seq_ops() + set_ops() + tuple_ops() + user_ops()


def leaves(kind, rich):
    V = lambda n: Var(n, TYPE[kind])
    if kind == "int":
        return [V("x"), IntLit(2)] + ([V("y"), IntLit(0), IntLit(-1)] if rich else [])
    if kind == "bool":
        return [V("b")] + ([BoolLit(True), BoolLit(False), V("c")] if rich else [])
    if kind == "list":
        return [V("l")] + ([Call("list_empty", LI)] if rich else [])
    if kind == "matrix":
        return [V("m")] + ([Call("matrix_empty", MI)] if rich else [])
    if kind == "tensor":
        return [V("z")] + ([Call("tensor3d_empty", TI)] if rich else [])
    if kind == "set":
        return [V("s")] + ([Call("set-create", SI)] if rich else [])
    if kind == "t1":
        return []
    if kind == "t2":
        return [V("t")]
    if kind == "t3":
        return [V("u")]
    raise KeyError(kind)


VALUES = {
    "x": (0, 1, 3), "y": (2, 1), "b": (True, False), "c": (False, True),
    "l": ((), (1,), (2, 0), (1, 3, 2)),
    "m": (((1, 2), (3, 0)), ((2,),), ((0, 1, 2),)),
    "z": ((((1, 2), (3, 0)), ((0, 1), (2, 2))), (((5,),),)),
    "s": (frozenset(), frozenset({1, 2}), frozenset({0, 2, 3})),
    "t": (Tup((1, 2)), Tup((2, 0))), "u": (Tup((1, (2, 3), True)), Tup((0, (), False))),
}


class Space:
    """All expressions of at most `size` nodes over the operations `ops`.

    Beyond `rich` nodes only the core leaves are used.  `fix` restricts, for expressions larger than
    it, the number of operations below the root's children (None: unrestricted)."""

    def __init__(self, ops, rich=3):
        self.ops, self.rich_to = ops, rich
        self.by_res = {}
        for o in ops:
            self.by_res.setdefault(o.res, []).append(o)

    @lru_cache(None)
    def of(self, kind, n, rich):
        out = []
        if n == 1:
            out += leaves(kind, rich)
        for o in self.by_res.get(kind, []):
            if len(o.args) == 0:
                if n == 1:
                    out.append(o.build())
                continue
            if n < 1 + len(o.args):
                continue
            for split in compositions(n - 1, len(o.args)):
                for args in itertools.product(*[self.of(k, m, rich) for k, m in zip(o.args, split)]):
                    out.append((o, args))
        return tuple(out)

    def all(self, size, kinds=("int", "bool", "list", "matrix", "tensor", "set", "t1", "t2", "t3")):
        for n in range(1, size + 1):
            for k in kinds:
                yield from self.of(k, n, n <= self.rich_to)


def compositions(n, k):
    if k == 1:
        yield (n,)
        return
    for i in range(1, n - k + 2):
        for r in compositions(n - i, k - 1):
            yield (i,) + r


def build(x):
    """The IR expression of an element of a Space."""
    if isinstance(x, tuple):
        o, args = x
        return o.build(*[build(a) for a in args])
    return x


def used_tags(x):
    if isinstance(x, tuple):
        o, args = x
        t = set(o.tags)
        for a in args:
            t |= used_tags(a)
        return t
    return set()


def envs(names, values=VALUES, cap=24):
    """Every assignment of the variables in `names`; when that is more than cap, every assignment over
    the first two values of each variable, and every assignment that differs from those in one variable."""
    doms = [values[n] for n in names]
    total = 1
    for d in doms:
        total *= len(d)
    if total <= cap:
        return [dict(zip(names, r)) for r in itertools.product(*doms)]
    rows = list(itertools.product(*[d[:2] for d in doms]))
    for i, d in enumerate(doms):
        for v in d[2:]:
            for k in (0, 1):
                rows.append(tuple(v if j == i else doms[j][k] for j in range(len(doms))))
    return [dict(zip(names, r)) for r in dict.fromkeys(rows)]
