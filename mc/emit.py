"""Shared parts of the emission checks (P10, P11, P12): items, references, wrapping in functions."""
import copy

from metalift import ir

from mc import exprs as X
from mc.env import from_repo
from mc.irsem import Sem, Tup, Undef, free_vars

USERFN = {n: f for n, (r, a, f) in X.USER.items()}
REFERENCE = dict(USERFN, konst=lambda: 5, fun=lambda a: a * a + 1)


def items(size, skip_tags, ops=None):
    """Enumerated elements of the space without operations carrying one of skip_tags."""
    drop = set(skip_tags)
    sp = X.Space([o for o in (ops or X.OPS) if not (o.tags & drop)])
    kinds = [k for k in X.TYPE if not (k == "tensor" and drop or k == "set" and "nopy" in drop)]
    return list(sp.all(size, kinds))


class Item:
    def __init__(self, x):
        self.x = x
        self.e = X.build(x)
        self.free = free_vars(self.e)
        self.names = [n for n in self.free if n != "fun"]
        self.rows = X.envs(self.names)

    def reference(self, fns=None, **kw):
        """[(env, value)] where the expression is defined"""
        f = Sem(fns or REFERENCE, **kw).compile(self.e)
        out = []
        for row in self.rows:
            try:
                out.append((row, f(row)))
            except Undef:
                pass
        return out


def item(x, r):
    """The Item of x; None, and a violation, when the IR refuses to build it."""
    try:
        return Item(x)
    except Exception as ex:
        if not from_repo(ex):
            raise
        r.bad(f"build:{key_of(x)}", f"{type(ex).__name__}: {ex} while building {key_of(x)}")
        return None


def shadowed(e):
    """Every way to rename the variable of one let of e to a variable of another type that occurs in e outside the body
    of that let: the same meaning, with a name that has two types."""
    out = []

    def rename(b, old, new):
        if isinstance(b, ir.Var):
            return ir.Var(new, b.type) if b.args[0] == old else b
        if isinstance(b, ir.Let) and b.args[0].args[0] == old:
            return ir.Let(b.args[0], rename(b.args[1], old, new), b.args[2])
        return b.map_args(lambda a: rename(a, old, new)) if isinstance(b, ir.Expr) else b

    def binds(b, n):
        if not isinstance(b, ir.Expr):
            return False
        return isinstance(b, ir.Let) and b.args[0].args[0] == n or any(binds(a, n) for a in b.args)

    def go(t, rebuild):
        if not isinstance(t, ir.Expr):
            return
        if isinstance(t, ir.Let):
            v, body = t.args[0], t.args[2]
            for n, ty in free_vars(e).items():
                if ty != v.type and n != "fun" and n not in free_vars(body) and not binds(body, n):
                    out.append(rebuild(ir.Let(ir.Var(n, v.type), t.args[1], rename(body, v.args[0], n))))
        for i, a in enumerate(t.args):
            if isinstance(a, ir.Expr):

                def put(x, t=t, i=i):
                    c = copy.copy(t)
                    c.args = [x if j == i else b for j, b in enumerate(t.args)]
                    return rebuild(c)

                go(a, put)

    go(e, lambda x: x)
    return out


def key_of(x):
    """The operations at the top of an element: a stable name for a kind of failure."""
    if isinstance(x, tuple):
        o, args = x
        return o.name + "(" + ",".join(a[0].name if isinstance(a, tuple) else "." for a in args) + ")"
    return str(x)


def decl(cls, name, e, names):
    return cls(name, e.type, e, *[ir.Var(n, X.VALUES and X_type(n)) for n in names])


KIND = {"x": "int", "y": "int", "b": "bool", "c": "bool", "l": "list", "m": "matrix", "z": "tensor", "s": "set", "t": "t2",
        "u": "t3"}


def X_type(n):
    return X.TYPE[KIND[n]]




def rosette_reference():
    """The reference functions inside the domain where the bounded runtime represents values:
    rows and slabs are never empty (the runtime drops empty rows)."""
    from mc.irsem import BUILTIN

    def nonempty(f, which):
        def g(*a):
            if a[which] == ():
                raise Undef("empty row")
            return f(*a)

        return g

    def rows(f):
        def g(*a):
            r = f(*a)
            if any(x == () for x in r):
                raise Undef("empty row")
            return r

        return g

    out = dict(REFERENCE)
    for p in ("matrix", "tensor3d"):
        out[f"{p}_prepend"] = nonempty(BUILTIN[f"{p}_prepend"], 0)
        out[f"{p}_append"] = nonempty(BUILTIN[f"{p}_append"], 1)
    for n in ("matrix_col_slice", "matrix_col_slice_with_length"):
        out[n] = rows(BUILTIN[n])
    return out


def plain(v):
    """The bounded runtime's and Python's view of a value: sets as sorted lists, tuples as lists."""
    if isinstance(v, frozenset):
        return tuple(sorted(v))
    if isinstance(v, tuple):
        return tuple(plain(x) for x in v)
    return v


def wide_values(kind):
    """Larger value sets, for single operations."""
    import itertools

    if kind == "int":
        return list(range(-2, 6))
    if kind == "bool":
        return [False, True]
    if kind == "list":
        return [t for n in range(5) for t in itertools.product((0, 1, 2), repeat=n)]
    if kind == "matrix":
        out = [()]
        for r, c in ((1, 1), (1, 2), (2, 1), (2, 2), (1, 3), (3, 1), (2, 3), (3, 2)):
            rows = list(itertools.product((0, 1), repeat=c))
            out += list(itertools.product(rows, repeat=r))
        out += [((1, 2), (3,)), ((1,), (2, 3)), ((4, 5, 6), (7, 8, 9), (1, 2, 3))]
        return out
    if kind == "tensor":
        return [(), (((1, 2), (3, 4)), ((5, 6), (7, 8))), (((1,),), ((2,),), ((3,),)), (((1, 2, 3),),)]
    if kind == "set":
        return [frozenset(c) for n in range(6) for c in itertools.combinations((-1, 0, 1, 2, 3), n)]
    if kind == "t1":
        return [Tup((a,)) for a in (0, 1)]
    if kind == "t2":
        return [Tup((a, b)) for a in (0, 1) for b in (0, 2)]
    if kind == "t3":
        return [Tup((a, l, b)) for a in (0, 1) for l in ((), (3,)) for b in (False, True)]


def wide_calls(skip=()):
    """(expression of one operation over variables, variables, [rows])"""
    import itertools

    for o in X.OPS:
        if o.tags & set(skip) or not o.args:
            continue
        names = [f"a{i}" for i in range(len(o.args))]
        e = o.build(*[ir.Var(n, X.TYPE[k]) for n, k in zip(names, o.args)])
        doms = [wide_values(k) for k in o.args]
        rows = [dict(zip(names, vs)) for vs in itertools.product(*doms)]
        yield o, e, names, rows


# --- user functions with names that resemble the library's
def family():
    """Names derived from every library name: extended, prefixed, truncated and recombined."""
    from mc.irsem import BUILTIN
    import keyword

    base = set(BUILTIN) | {o.name for o in X.OPS} | {"ite", "inv", "ps", "make_tuple", "tupleGet", "set_create", "map_get", "map_insert",
                                                     "list_eq", "list_contains", "list_set", "integer_sqrt", "integer_exp", "choose",
                                                     "let", "and", "or", "not", "define", "assert", "synth"}
    base = {b.replace("-", "_") for b in base if b.replace("-", "_").replace(".", "").isidentifier()}
    base = {b.replace(".", "") for b in base}
    out = set()
    for b in base:
        first, last = b.split("_")[0], b.split("_")[-1]
        out |= {b + "2", b + "_x", "my_" + b, "x" + b, b[:-1], first + "_zz", "zz_" + last, first + "zz", "zz" + last}
    return sorted(n for n in out - base - set(BUILTIN) - set(X.USER) if len(n) > 2 and n.isidentifier() and not keyword.iskeyword(n))


SIGNATURES = (("int", ("int",)), ("int", ("int", "int")), ("bool", ("int", "int", "int")), ("int", ("bool", "int", "int")),
              ("list", ("list", "int")), ("int", ("list",)), ("int", ("list", "int")), ("t2", ("int", "int")))


def stand_in(res):
    """What a user function of the family computes: a value no library function would give."""
    def f(*a):
        n = 100
        for x in a:
            n = 3 * n + (sum(x) + 7 * len(x) if isinstance(x, (tuple, list)) else int(x))
        return {"int": n, "bool": n % 2 == 0, "list": (n, n + 1), "t2": Tup((n, n + 1))}[res]
    return f


def family_calls(names):
    """(name, result kind, expression, reference functions) calling each name at each signature, alone and nested"""
    for n in names:
        for res, args in SIGNATURES:
            vs = [ir.Var(v, X_type(v)) for v in _params(args)]
            e = ir.Call(n, X.TYPE[res], *vs)
            yield n, res, args, e
            if res == "int":
                yield n, res, args, ir.Add(ir.Call(n, X.TYPE[res], *vs), ir.IntLit(1))
            if res == "int" and args[0] == "int":
                yield n, res, args, ir.Call(n, X.TYPE[res], e, *vs[1:])


def _params(args):
    pool = {"int": ["x", "y", "x"], "bool": ["b", "c"], "list": ["l"]}
    k = {}
    out = []
    for a in args:
        i = k.get(a, 0)
        k[a] = i + 1
        out.append(pool[a][i])
    return out


class Plain:
    """An Item for a ready expression, with its own reference functions."""

    def __init__(self, e, fns):
        self.e, self.fns = e, fns
        self.free = free_vars(e)
        self.names = [n for n in self.free if n != "fun"]
        self.rows = X.envs(self.names)

    def reference(self, fns=None, **kw):
        f = Sem(dict(fns or REFERENCE, **self.fns), **kw).compile(self.e)
        return [(row, f(row)) for row in self.rows]


def recursive(name, cls=None):
    """A recursive definition named like that: name(x, y) = if x <= 0 then y else name(x - 1, y) + 2"""
    x, y = ir.Var("x", X.Int), ir.Var("y", X.Int)
    body = ir.Ite(ir.Le(x, ir.IntLit(0)), y, ir.Add(ir.Call(name, X.Int, ir.Sub(x, ir.IntLit(1)), y), ir.IntLit(2)))
    return ir.FnDeclRecursive(name, X.Int, body, x, y), ir.Call(name, X.Int, x, y), lambda a, b: b + 2 * max(a, 0)
