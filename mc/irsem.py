"""Reference semantics of metalift's intermediate representation.

Values: int, bool, tuple (list / matrix / tensor), frozenset (set), Tup (tuple value),
Python callables (function values).  Operations outside their domain (index out of range,
division by zero, ...) raise Undef: what the three backends do there is not compared.
"""
from typing import get_args, get_origin


class Undef(Exception):
    pass


class Tup(tuple):
    """A tuple value (as opposed to a list value)."""

    __slots__ = ()

    def __repr__(self):
        return "Tup" + tuple.__repr__(self)


def div_euclid(a, b):
    if b == 0:
        raise Undef("div0")
    m = a % abs(b)
    return (a - m) // b


def mod_euclid(a, b):
    if b == 0:
        raise Undef("mod0")
    return a % abs(b)


def div_agree(a, b):
    """Division, where every backend agrees: non-negative operands, positive divisor."""
    if b <= 0 or a < 0:
        raise Undef("div")
    return a // b


def mod_agree(a, b):
    if b <= 0 or a < 0:
        raise Undef("mod")
    return a % b


def lst_get(l, i):
    if not (0 <= i < len(l)):
        raise Undef("index")
    return l[i]


def lst_set(l, i, v):
    if not (0 <= i < len(l)):
        raise Undef("index")
    return l[:i] + (v,) + l[i + 1 :]


def lst_tail(l, n):
    if not (0 <= n <= len(l)):
        raise Undef("tail")
    return l[n:]


def lst_take(l, n):
    if not (0 <= n <= len(l)):
        raise Undef("take")
    return l[:n]


def lst_slice(l, s, e):
    if not (0 <= s <= e <= len(l)):
        raise Undef("slice")
    return l[s:e]


def lst_slice_len(l, s, n):
    return lst_slice(l, s, s + n)


def col_slice(m, s, e):
    return tuple(lst_slice(r, s, e) for r in m)


def col_slice_len(m, s, n):
    return col_slice(m, s, s + n)


def transpose(m):
    if not m:
        return ()
    w = {len(r) for r in m}
    if len(w) != 1 or w == {0}:
        raise Undef("ragged")
    return tuple(tuple(r[c] for r in m) for c in range(len(m[0])))


LISTFNS = {
    "length": lambda l: len(l),
    "get": lst_get,
    "set": lst_set,
    "append": lambda l, v: l + (v,),
    "prepend": lambda v, l: (v,) + l,
    "concat": lambda a, b: a + b,
    "empty": lambda: (),
    "tail": lst_tail,
    "take": lst_take,
    "eq": lambda a, b: a == b,
    "contains": lambda l, v: v in l,
}

BUILTIN = {}
for _p in ("list", "matrix", "tensor3d"):
    for _k, _f in LISTFNS.items():
        BUILTIN[f"{_p}_{_k}"] = _f
BUILTIN.update(
    {
        "vec_slice": lst_slice,
        "vec_slice_with_length": lst_slice_len,
        "matrix_row_slice": lst_slice,
        "matrix_row_slice_with_length": lst_slice_len,
        "tensor3d_slice": lst_slice,
        "tensor3d_slice_with_length": lst_slice_len,
        "matrix_col_slice": col_slice,
        "matrix_col_slice_with_length": col_slice_len,
        "matrix_transpose": transpose,
        "set-create": lambda: frozenset(),
        "set-singleton": lambda v: frozenset([v]),
        "set-insert": lambda v, s: s | {v},
        "set-union": lambda a, b: a | b,
        "set-minus": lambda a, b: a - b,
        "set-member": lambda v, s: v in s,
        "set-subset": lambda a, b: a <= b,
        "set-eq": lambda a, b: a == b,
        "make-tuple": lambda *a: Tup(a),
        "tupleGet": lst_get,
    }
)


def eq(a, b):
    return type(a) == type(b) and a == b


def _shortcut(fs, absorbing):
    """And / Or evaluated left to right."""

    def f(env):
        for g in fs:
            if bool(g(env)) == absorbing:
                return absorbing
        return not absorbing

    return f


def _kleene(fs, absorbing):
    """And / Or that is not disturbed by an undefined operand beside an absorbing one."""

    def f(env):
        undef = None
        for g in fs:
            try:
                if bool(g(env)) == absorbing:
                    return absorbing
            except Undef as u:
                undef = u
        if undef is not None:
            raise undef
        return not absorbing

    return f


class Sem:
    """Compiles expressions to Python closures over an environment dict."""

    def __init__(self, fns=None, div=div_euclid, mod=mod_euclid, depth=200, leftright=False):
        self.junction = _shortcut if leftright else _kleene
        self.fns = dict(BUILTIN)
        if fns:
            self.fns.update(fns)
        self.div = div
        self.mod = mod
        self.maxdepth = depth
        self.depth = 0

    # FnDecl / FnDeclRecursive: adds them to the function table
    def declare(self, decl):
        from metalift import ir

        name = decl.name()
        params = [a.name() for a in decl.arguments()]
        body = decl.body()
        code = self.compile(body)

        def fn(*vals):
            if len(vals) != len(params):
                raise TypeError(f"{name}: {len(vals)} arguments for {len(params)} parameters")
            self.depth += 1
            try:
                if self.depth > self.maxdepth:
                    raise Undef("recursion")
                return code(dict(zip(params, vals)))
            finally:
                self.depth -= 1

        self.fns[name] = fn
        return fn

    def compile(self, e):
        from metalift import ir

        if isinstance(e, ir.Object):
            e = e.src
        c = self.compile
        if isinstance(e, ir.Var):
            n = e.args[0]
            fns = self.fns

            def var(env):
                if n in env:
                    return env[n]
                if n in fns:
                    return fns[n]
                raise KeyError(f"variable {n} is not defined")

            return var
        if isinstance(e, ir.Lit):
            v = e.args[0]
            return lambda env: v
        if isinstance(e, (ir.FnDecl, ir.FnDeclRecursive)):
            n = e.args[0]
            return lambda env: self.fns[n]
        if isinstance(e, ir.Add):
            a = [c(x) for x in e.args]
            return lambda env: sum(f(env) for f in a)
        if isinstance(e, ir.Mul):
            a = [c(x) for x in e.args]

            def mul(env):
                r = 1
                for f in a:
                    r *= f(env)
                return r

            return mul
        if isinstance(e, ir.Sub):
            a = [c(x) for x in e.args]
            if len(a) == 1:
                return lambda env: -a[0](env)

            def sub(env):
                r = a[0](env)
                for f in a[1:]:
                    r -= f(env)
                return r

            return sub
        if isinstance(e, ir.Div):
            x, y = map(c, e.args)
            return lambda env: self.div(x(env), y(env))
        if isinstance(e, ir.Mod):
            x, y = map(c, e.args)
            return lambda env: self.mod(x(env), y(env))
        if isinstance(e, ir.Eq):
            x, y = map(c, e.args)
            return lambda env: x(env) == y(env)
        if isinstance(e, ir.Lt):
            x, y = map(c, e.args)
            return lambda env: x(env) < y(env)
        if isinstance(e, ir.Le):
            x, y = map(c, e.args)
            return lambda env: x(env) <= y(env)
        if isinstance(e, ir.Gt):
            x, y = map(c, e.args)
            return lambda env: x(env) > y(env)
        if isinstance(e, ir.Ge):
            x, y = map(c, e.args)
            return lambda env: x(env) >= y(env)
        if isinstance(e, ir.And):
            return self.junction([c(x) for x in e.args], False)
        if isinstance(e, ir.Or):
            return self.junction([c(x) for x in e.args], True)
        if isinstance(e, ir.Not):
            x = c(e.args[0])
            return lambda env: not x(env)
        if isinstance(e, ir.Implies):
            x, y = map(c, e.args)
            return self.junction([lambda env: not x(env), y], True)
        if isinstance(e, ir.Ite):
            x, y, z = map(c, e.args)
            return lambda env: y(env) if x(env) else z(env)
        if isinstance(e, ir.Let):
            n = e.args[0].args[0]
            x, y = c(e.args[1]), c(e.args[2])
            return lambda env: y({**env, n: x(env)})
        if isinstance(e, ir.TupleExpr):
            a = [c(x) for x in e.args]
            return lambda env: Tup(f(env) for f in a)
        if isinstance(e, ir.TupleGet):
            x, y = map(c, e.args)
            return lambda env: lst_get(x(env), y(env))
        if isinstance(e, ir.CallValue):
            f = c(e.args[0])
            a = [c(x) for x in e.args[1:]]
            return lambda env: f(env)(*[x(env) for x in a])
        if isinstance(e, ir.Call):
            n = e.args[0]
            a = [c(x) for x in e.args[1:]]
            fns = self.fns
            if n == "ite" and len(a) == 3:
                return lambda env: a[1](env) if a[0](env) else a[2](env)

            def call(env):
                f = env.get(n)
                if not callable(f):
                    f = fns.get(n)
                if f is None:
                    raise KeyError(f"function {n} is not defined")
                return f(*[x(env) for x in a])

            return call
        if isinstance(e, (ir.Assert, ir.Constraint)):
            return c(e.args[0])
        raise NotImplementedError(f"no semantics for {type(e).__name__}")

    def eval(self, e, env=None):
        return self.compile(e)(env or {})


def origin(t):
    return get_origin(t) or t


def free_vars(e, acc=None, bound=frozenset()):
    """Ordered {name: type} of the variables free in e."""
    from metalift import ir

    if acc is None:
        acc = {}
    if isinstance(e, ir.Object):
        e = e.src
    if isinstance(e, ir.Var):
        if e.args[0] not in bound:
            acc.setdefault(e.args[0], e.type)
        return acc
    if isinstance(e, ir.Let):
        free_vars(e.args[1], acc, bound)
        free_vars(e.args[2], acc, bound | {e.args[0].args[0]})
        return acc
    if isinstance(e, ir.Expr):
        for a in e.args:
            if isinstance(a, (ir.Expr, ir.Object)):
                free_vars(a, acc, bound)
    return acc


def type_kind(t):
    """A short description of an IR type: int, bool, list, matrix, tensor3d, set, tuple."""
    from metalift import ir

    if t == ir.Int:
        return "int"
    if t == ir.Bool:
        return "bool"
    o = get_origin(t) or t
    if o is ir.Matrix:
        return "matrix"
    if o is ir.Tensor3D:
        return "tensor3d"
    if o is ir.List:
        a = get_args(t)
        if a and (get_origin(a[0]) is ir.List):
            return "matrix"
        return "list"
    if o is ir.Set:
        return "set"
    if o is ir.Tuple:
        return "tuple"
    if o is ir.Fn:
        return "fn"
    raise NotImplementedError(f"type {t}")
