"""A small Racket evaluator: enough of rosette/safe to run utils.rkt and the generated problems
with concrete values.  Lists are tuples, booleans Python bools, procedures Python callables."""
from mc.sexp import Str, Sym, read_all, show


class RktError(Exception):
    """A Racket run-time error (contract violation, unbound name, failed assertion)."""


def num(*a):
    for x in a:
        if isinstance(x, bool) or not isinstance(x, int):
            raise RktError(f"expected a number, got {x!r}")


def lst(x):
    if not isinstance(x, tuple):
        raise RktError(f"expected a list, got {x!r}")
    return x


def same(a, b):
    if isinstance(a, bool) or isinstance(b, bool):
        return a is b
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return type(a) == type(b) and a == b


def quotient(a, b):
    num(a, b)
    if b == 0:
        raise RktError("quotient by zero")
    q = abs(a) // abs(b)
    return q if (a >= 0) == (b >= 0) else -q


def remainder(a, b):
    num(a, b)
    if b == 0:
        raise RktError("remainder by zero")
    return a - b * quotient(a, b)


def modulo(a, b):
    num(a, b)
    if b == 0:
        raise RktError("modulo by zero")
    return a % b


def list_ref(l, i):
    num(i)
    if not 0 <= i < len(lst(l)):
        raise RktError("list-ref: index")
    return l[i]


def list_tail(l, i):
    num(i)
    if not 0 <= i <= len(lst(l)):
        raise RktError("list-tail: index")
    return l[i:]


def take(l, i):
    num(i)
    if not 0 <= i <= len(lst(l)):
        raise RktError("take: index")
    return l[:i]


def cmp(op):
    def f(*a):
        num(*a)
        return all(op(x, y) for x, y in zip(a, a[1:]))

    return f


def add(*a):
    num(*a)
    return sum(a)


def mul(*a):
    num(*a)
    r = 1
    for x in a:
        r *= x
    return r


def sub(*a):
    num(*a)
    if len(a) == 1:
        return -a[0]
    r = a[0]
    for x in a[1:]:
        r -= x
    return r


def boolean(x):
    if not isinstance(x, bool):
        raise RktError(f"expected a boolean, got {x!r}")
    return x


def car(l):
    if not lst(l):
        raise RktError("car of empty list")
    return l[0]


def cdr(l):
    if not lst(l):
        raise RktError("cdr of empty list")
    return l[1:]


def list_set(l, i, v):
    num(i)
    if not 0 <= i < len(lst(l)):
        raise RktError("list-set: index")
    return l[:i] + (v,) + l[i + 1 :]


def remove_duplicates(l):
    out = []
    for x in lst(l):
        if not any(same(x, y) for y in out):
            out.append(x)
    return tuple(out)


def sort(l, less):
    import functools

    return tuple(sorted(lst(l), key=functools.cmp_to_key(lambda a, b: -1 if less(a, b) else (1 if less(b, a) else 0))))


def append(*ls):
    r = ()
    for l in ls:
        r += lst(l)
    return r


def cons(a, l):
    return (a,) + lst(l)


PRIM = {
    "+": add, "*": mul, "-": sub, "quotient": quotient, "remainder": remainder, "modulo": modulo,
    "<": cmp(lambda a, b: a < b), "<=": cmp(lambda a, b: a <= b), ">": cmp(lambda a, b: a > b),
    ">=": cmp(lambda a, b: a >= b), "=": cmp(lambda a, b: a == b),
    "equal?": lambda a, b: same(a, b), "eq?": lambda a, b: same(a, b),
    "not": lambda a: a is False, "!": lambda a: not boolean(a),
    "list": lambda *a: tuple(a), "cons": cons, "car": car, "cdr": cdr, "first": car, "rest": cdr,
    "length": lambda l: len(lst(l)), "append": append, "list-ref": list_ref, "list-tail": list_tail,
    "take": take, "drop": list_tail, "list-set": list_set, "list?": lambda l: isinstance(l, tuple),
    "null?": lambda l: l == () and isinstance(l, tuple), "empty?": lambda l: isinstance(l, tuple) and l == (),
    "reverse": lambda l: lst(l)[::-1], "remove-duplicates": remove_duplicates, "sort": sort,
    "map": lambda f, *ls: tuple(f(*xs) for xs in zip(*[lst(l) for l in ls])),
    "filter": lambda f, l: tuple(x for x in lst(l) if f(x) is not False),
    "ormap": lambda f, l: any(f(x) is not False for x in lst(l)),
    "andmap": lambda f, l: all(f(x) is not False for x in lst(l)),
    "foldl": None, "min": lambda *a: min(a), "max": lambda *a: max(a), "abs": abs,
    "integer?": lambda x: isinstance(x, int) and not isinstance(x, bool),
    "boolean?": lambda x: isinstance(x, bool), "add1": lambda a: add(a, 1), "sub1": lambda a: sub(a, 1),
    "even?": lambda a: a % 2 == 0, "zero?": lambda a: a == 0,
}
CONST = {"true": True, "false": False, "#t": True, "#f": False, "null": (), "empty": ()}


class Rkt:
    """Top-level environment; load() evaluates the definitions of a text."""

    def __init__(self, text="", fuel=64):
        self.top = dict(PRIM)
        self.top.update(CONST)
        self.fuel0 = fuel
        self.fuel = fuel
        self.grammars = {}
        self.other = []
        self.defined = []
        self.symbolic = {}
        if text:
            self.load(text)

    def load(self, text):
        # the #lang line is not an s-expression
        body = "\n".join(l for l in text.split("\n") if not l.startswith("#lang"))
        for f in read_all(body):
            self.form(f)
        return self

    def form(self, f):
        if isinstance(f, list) and f and isinstance(f[0], Sym):
            k = str(f[0])
            if k in ("define", "define-bounded"):
                if isinstance(f[1], list):
                    name = str(f[1][0])
                    self.top[name] = self.procedure(name, f[1][1:], f[2:], k == "define-bounded")
                    self.defined.append(name)
                elif k == "define":
                    name = str(f[1])
                    if isinstance(f[2], list) and f[2] and f[2][0] == "make-parameter":
                        self.fuel = self.fuel0 = f[2][1]
                        return
                    self.top[name] = self.eval(f[2], {})
                    self.defined.append(name)
                else:
                    raise RktError(show(f))
                return
            if k == "define-symbolic":
                for n in f[1:-1]:
                    self.symbolic[str(n)] = f[-1]
                    self.top.setdefault(str(n), None)
                return
            if k == "define-grammar":
                self.grammars[str(f[1][0])] = ([str(p) for p in f[1][1:]], f[2:])
                return
            if k in ("require", "provide", "current-bitwidth", "current-solver", "define-syntax-rule"):
                self.other.append(f)
                return
        self.other.append(f)

    def procedure(self, name, params, body, bounded=False, env=None):
        ps = [str(p) for p in params]
        rest = None
        if "." in ps:
            i = ps.index(".")
            rest = ps[i + 1]
            ps = ps[:i]
        if len(set(ps)) != len(ps):
            raise RktError(f"{name}: duplicate argument name")
        code = self.body(body)
        base = env

        def run(*a):
            if len(a) < len(ps) or (rest is None and len(a) != len(ps)):
                raise RktError(f"{name}: arity mismatch, {len(a)} arguments for {len(ps)}")
            e = dict(base) if base else {}
            e.update(zip(ps, a))
            if rest is not None:
                e[rest] = tuple(a[len(ps):])
            if bounded:
                if self.fuel <= 0:
                    raise RktError("Out of fuel.")
                self.fuel -= 1
                try:
                    return code(e)
                finally:
                    self.fuel += 1
            return code(e)

        run.arity = len(ps)
        return run

    def body(self, forms):
        fs = [self.compile(f) for f in forms]
        if len(fs) == 1:
            return fs[0]

        def seq(e):
            r = None
            for f in fs:
                r = f(e)
            return r

        return seq

    def eval(self, f, env):
        return self.compile(f)(env)

    def run(self, text, env=None):
        r = read_all(text)
        if len(r) != 1:
            raise RktError(f"not one expression: {text}")
        return self.compile(r[0])(env or {})

    def compile(self, t):
        if isinstance(t, bool):
            raise RktError("python bool")
        if isinstance(t, int) or isinstance(t, Str):
            return lambda e: t
        if isinstance(t, Sym):
            n = str(t)
            top = self.top

            def var(e):
                if n in e:
                    return e[n]
                v = top.get(n, self)
                if v is self:
                    raise RktError(f"{n}: unbound identifier")
                return v

            return var
        if not t:
            raise RktError("missing procedure expression: ()")
        h = t[0]
        if isinstance(h, Sym):
            sf = getattr(self, "form_" + SPECIAL.get(str(h), "?"), None) if str(h) in SPECIAL else None
            if sf:
                return sf(t)
        fs = [self.compile(x) for x in t]

        def app(e):
            f = fs[0](e)
            if not callable(f):
                raise RktError(f"{show(t[0])} is not a procedure in {show(t)[:200]}")
            a = [g(e) for g in fs[1:]]
            try:
                return f(*a)
            except TypeError as x:
                raise RktError(f"{show(t)[:200]}: {x}")

        return app

    def form_if(self, t):
        if len(t) != 4:
            raise RktError(f"if: {show(t)}")
        c, a, b = map(self.compile, t[1:])
        return lambda e: a(e) if c(e) is not False else b(e)

    def form_and(self, t):
        fs = [self.compile(x) for x in t[1:]]

        def f(e):
            r = True
            for g in fs:
                r = g(e)
                if r is False:
                    return False
            return r

        return f

    def form_or(self, t):
        fs = [self.compile(x) for x in t[1:]]

        def f(e):
            for g in fs:
                r = g(e)
                if r is not False:
                    return r
            return False

        return f

    def form_land(self, t):
        fs = [self.compile(x) for x in t[1:]]
        return lambda e: all(boolean(g(e)) for g in fs)

    def form_lor(self, t):
        fs = [self.compile(x) for x in t[1:]]
        return lambda e: any(boolean(g(e)) for g in fs)

    def form_implies(self, t):
        if len(t) != 3:
            raise RktError(f"=>: {show(t)}")
        a, b = self.compile(t[1]), self.compile(t[2])
        return lambda e: boolean(b(e)) if boolean(a(e)) else True

    def form_let(self, t):
        bs = [(str(b[0]), self.compile(b[1])) for b in t[1]]
        code = self.body(t[2:])
        return lambda e: code({**e, **{n: f(e) for n, f in bs}})

    def form_letstar(self, t):
        bs = [(str(b[0]), self.compile(b[1])) for b in t[1]]
        code = self.body(t[2:])

        def f(e):
            e = dict(e)
            for n, g in bs:
                e[n] = g(e)
            return code(e)

        return f

    def form_cond(self, t):
        cl = [(None if c[0] == "else" else self.compile(c[0]), self.body(c[1:])) for c in t[1:]]

        def f(e):
            for c, b in cl:
                if c is None or c(e) is not False:
                    return b(e)
            raise RktError("cond: no clause")

        return f

    def form_lambda(self, t):
        ps = t[1]
        return lambda e: self.procedure("lambda", ps, t[2:], env=e)

    def form_begin(self, t):
        return self.body(t[1:])

    def form_quote(self, t):
        def conv(x):
            return tuple(conv(y) for y in x) if isinstance(x, list) else x

        v = conv(t[1])
        return lambda e: v

    def form_assert(self, t):
        c = self.compile(t[1])

        def f(e):
            if c(e) is False:
                raise RktError("assert: failed")
            return None

        return f

    def form_match(self, t):
        # (match* (e ...) [(pat ...) body ...] ...)  and  (match e [pat body ...] ...)
        star = t[0] == "match*"
        es = [self.compile(x) for x in (t[1] if star else [t[1]])]
        cls = []
        for c in t[2:]:
            pats = c[0] if star else [c[0]]
            cls.append(([self.pattern(p) for p in pats], self.body(c[1:])))

        def f(e):
            vs = [g(e) for g in es]
            for ps, b in cls:
                e2 = dict(e)
                if len(ps) == len(vs) and all(p(v, e2) for p, v in zip(ps, vs)):
                    return b(e2)
            raise RktError("match: no matching clause")

        return f

    def pattern(self, p):
        if isinstance(p, Sym):
            n = str(p)
            if n == "_":
                return lambda v, e: True

            def bind(v, e):
                e[n] = v
                return True

            return bind
        if isinstance(p, list) and p and p[0] == "list":
            items = p[1:]
            dots = len(items) >= 2 and items[-1] == "..."
            fixed = [self.pattern(x) for x in (items[:-2] if dots else items)]
            tail = str(items[-2]) if dots else None

            def m(v, e):
                if not isinstance(v, tuple):
                    return False
                if len(v) < len(fixed) or (not dots and len(v) != len(fixed)):
                    return False
                if not all(q(x, e) for q, x in zip(fixed, v)):
                    return False
                if dots:
                    e[tail] = v[len(fixed):]
                return True

            return m
        if isinstance(p, list) and p and p[0] == "cons":
            a, b = self.pattern(p[1]), self.pattern(p[2])
            return lambda v, e: isinstance(v, tuple) and bool(v) and a(v[0], e) and b(v[1:], e)
        raise RktError(f"pattern {show(p)}")


SPECIAL = {
    "if": "if", "and": "and", "or": "or", "&&": "land", "||": "lor", "=>": "implies", "let": "let", "let*": "letstar",
    "cond": "cond", "lambda": "lambda", "λ": "lambda", "begin": "begin", "quote": "quote", "assert": "assert",
    "match": "match", "match*": "match",
}


def load_runtime():
    """utils.rkt of the working tree."""
    import os

    from mc.env import REPO

    r = Rkt()
    r.load(open(os.path.join(REPO, "metalift/utils/bounded.rkt")).read())
    r.load(open(os.path.join(REPO, "metalift/utils/utils.rkt")).read())
    return r
