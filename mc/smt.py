"""A small SMT-LIB evaluator with sort checking.

Sorts: "Int", "Bool", ("MLList", s), ("Set", s), ("TupleN", s...).  Values as in mc/irsem.py.
Declared functions get an interpretation from outside (the reference vocabulary); defined
functions can be evaluated from their own bodies.
"""
from mc.irsem import BUILTIN, Tup, Undef, div_euclid, mod_euclid
from mc.sexp import Sym, read_all, show


class SortError(Exception):
    pass


class Unbound(Exception):
    pass


def fold(op):
    def f(*a):
        r = a[0]
        for x in a[1:]:
            r = op(r, x)
        return r

    return f


class Script:
    """The declarations of a text and the means to evaluate terms over them."""

    def __init__(self, text="", interp=None, use_bodies=True, fuel=400):
        self.sorts = {}  # alias -> sort
        self.datatypes = {"MLList": 1}
        self.ctors = {}
        self.sig = {}  # name -> ([sorts], sort)
        self.code = {}  # name -> python callable
        self.order = []  # names in order of definition
        self.asserts = []
        self.constraints = []
        self.synths = []
        self.commands = []
        self.vars = {}
        self.interp = interp if interp is not None else {}
        self.use_bodies = use_bodies
        self.fuel = fuel
        self.depth = 0
        self.bodies = {}
        if text:
            self.load(text)

    # -- sorts
    def sort(self, s, tv=()):
        if isinstance(s, Sym):
            if s in ("Int", "Bool"):
                return str(s)
            if s in tv:
                return ("var", str(s))
            if s in self.sorts:
                return self.sorts[s]
            if s in self.datatypes and self.datatypes[s] == 0:
                return (str(s),)
            raise SortError(f"unknown sort {s}")
        if isinstance(s, list) and s and isinstance(s[0], Sym):
            n = str(s[0])
            if n == "Set" and len(s) == 2:
                return ("Set", self.sort(s[1], tv))
            if n in self.datatypes:
                if len(s) - 1 != self.datatypes[n]:
                    raise SortError(f"{n} takes {self.datatypes[n]} parameters")
                return (n,) + tuple(self.sort(x, tv) for x in s[1:])
        raise SortError(f"unknown sort {show(s)}")

    # -- scripts
    def load(self, text):
        for c in read_all(text):
            self.command(c)
        return self

    def command(self, c):
        if not isinstance(c, list) or not c:
            raise SortError(f"not a command: {show(c)}")
        k = str(c[0])
        if k == "declare-datatypes":
            for (name, ar), d in zip(c[1], c[2]):
                self.datatypes[str(name)] = ar
            for (name, ar), d in zip(c[1], c[2]):
                params = []
                if d and d[0] == "par":
                    params = [str(x) for x in d[1]]
                    d = d[2]
                res = (str(name),) + tuple(("var", p) for p in params)
                for ct in d:
                    sels = [(str(s[0]), self.sort(s[1], params)) for s in ct[1:]]
                    self.ctors[str(ct[0])] = (params, sels, res)
                    self.datatype_code(str(ct[0]), sels, res)
        elif k == "define-sort":
            if c[2]:
                raise SortError("parametric define-sort")
            self.sorts[str(c[1])] = self.sort(c[3])
        elif k in ("declare-fun", "declare-const", "declare-var"):
            args = [self.sort(s) for s in c[2]] if k == "declare-fun" else []
            res = self.sort(c[-1])
            self.newname(str(c[1]))
            self.sig[str(c[1])] = (args, res)
            if k == "declare-fun" and args:
                self.code[str(c[1])] = self.interp.get(str(c[1]))
            else:
                self.vars[str(c[1])] = res
        elif k in ("define-fun", "define-fun-rec"):
            name = str(c[1])
            params = [(str(p[0]), self.sort(p[1])) for p in c[2]]
            res = self.sort(c[3])
            if len({p for p, _ in params}) != len(params):
                raise SortError(f"{name} repeats a parameter")
            self.newname(name)
            if k == "define-fun-rec":
                self.sig[name] = ([s for _, s in params], res)
            f, s = self.term(c[4], dict(params))
            if s != res:
                raise SortError(f"body of {name} has sort {s}, not {res}")
            self.sig[name] = ([s for _, s in params], res)
            self.bodies[name] = c
            names = [p for p, _ in params]
            body = self.closure(name, names, f)
            self.code[name] = body if (self.use_bodies or name not in self.interp) else self.interp[name]
            self.order.append(name)
        elif k in ("assert", "constraint"):
            f, s = self.term(c[1], {})
            if s != "Bool":
                raise SortError(f"{k} of sort {s}")
            (self.asserts if k == "assert" else self.constraints).append((f, c[1]))
        elif k == "synth-fun":
            self.synth(c)
        else:
            self.commands.append(c)

    def newname(self, n):
        if n in self.sig:
            raise SortError(f"{n} is defined twice")

    def synth(self, c):
        name = str(c[1])
        params = [(str(p[0]), self.sort(p[1])) for p in c[2]]
        res = self.sort(c[3])
        nts = {str(d[0]): self.sort(d[1]) for d in c[4]}
        scope = {**dict(params), **nts}
        if len(scope) != len(params) + len(nts) or len(nts) != len(c[4]):
            raise SortError(f"{name}: non-terminal and parameter names collide")
        prods = {}
        if [str(d[0]) for d in c[5]] != [str(d[0]) for d in c[4]]:
            raise SortError(f"{name}: grouped rules do not match their predeclaration")
        for d in c[5]:
            s = self.sort(d[1])
            if s != nts.get(str(d[0])):
                raise SortError(f"{name}: non-terminal {d[0]}")
            for t in d[2]:
                _, ts = self.term(t, scope)
                if ts != s:
                    raise SortError(f"{name}: production {show(t)} of sort {ts} in non-terminal of sort {s}")
            prods[str(d[0])] = d[2]
        first = str(c[4][0][0])
        if nts[first] != res:
            raise SortError(f"{name}: start symbol of sort {nts[first]}")
        self.newname(name)
        self.sig[name] = ([s for _, s in params], res)
        self.synths.append((name, params, res, first, prods))

    def closure(self, name, names, f):
        def run(*vals):
            self.depth += 1
            try:
                if self.depth > self.fuel:
                    raise Undef(f"recursion of {name}")
                return f(dict(zip(names, vals)))
            finally:
                self.depth -= 1

        return run

    def datatype_code(self, ctor, sels, res):
        if res[0] == "MLList":
            if ctor == "cons":
                self.code["cons"] = lambda h, t: (h,) + t
                self.code[sels[0][0]] = _head
                self.code[sels[1][0]] = _tail
            elif ctor == "nil":
                self.code["nil"] = lambda: ()
            else:
                raise SortError(f"unknown list constructor {ctor}")
        else:
            self.code[ctor] = lambda *a: Tup(a)
            for i, (s, _) in enumerate(sels):
                self.code[s] = lambda t, i=i: t[i]
        for i, (s, ty) in enumerate(sels):
            self.sig[s] = ("sel", res, ty)

    # -- terms
    def term(self, t, env):
        """(closure over a dict, sort)"""
        if isinstance(t, bool):
            raise SortError("python bool")
        if isinstance(t, int):
            if t < 0:  # SMT-LIB has no negative numerals, and cvc5 does not read them
                raise SortError(f"{t} is not a numeral")
            return (lambda e, v=t: v), "Int"
        if isinstance(t, Sym):
            n = str(t)
            if n in env:
                return (lambda e: e[n]), env[n]
            if n == "true":
                return (lambda e: True), "Bool"
            if n == "false":
                return (lambda e: False), "Bool"
            if n in self.vars:
                c = self.interp.get(n)
                return (lambda e: e[n] if n in e else c()), self.vars[n]
            if n in self.sig and self.sig[n][0] == []:
                f = self.code[n]
                return (lambda e: f()), self.sig[n][1]
            raise Unbound(f"{n} is not declared")
        if not isinstance(t, list) or not t:
            raise SortError(f"not a term: {show(t)}")
        h = t[0]
        if h == "let":
            vals = []
            inner = dict(env)
            for b in t[1]:
                f, s = self.term(b[1], env)
                vals.append((str(b[0]), f))
                inner[str(b[0])] = s
            f, s = self.term(t[2], inner)

            def let(e):
                e2 = dict(e)
                for n, g in vals:
                    e2[n] = g(e)
                return f(e2)

            return let, s
        if h in ("forall", "exists"):
            inner = dict(env)
            bound = []
            for b in t[1]:
                s = self.sort(b[1])
                inner[str(b[0])] = s
                bound.append((str(b[0]), s))
            if len({n for n, _ in bound}) != len(bound):
                raise SortError("a quantifier repeats a variable")
            f, s = self.term(t[2], inner)
            if s != "Bool":
                raise SortError("quantified term")
            return Quant(str(h), bound, f, self), "Bool"
        if h == "as":
            s = self.sort(t[2])
            if t[1] == "nil" and s[0] == "MLList":
                return (lambda e: ()), s
            if t[1] in ("set.empty", "emptyset") and s[0] == "Set":
                return (lambda e: frozenset()), s
            raise SortError(show(t))
        if isinstance(h, list):
            raise SortError(f"head of an application: {show(h)}")
        args = [self.term(a, env) for a in t[1:]]
        fs = [a[0] for a in args]
        ss = [a[1] for a in args]
        n = str(h)
        r = self.core(n, fs, ss, t)
        if r is not None:
            return r
        if n in env or n in self.vars:
            raise SortError(f"{n} is applied but it is a variable")
        if n in self.ctors:
            params, sels, res = self.ctors[n]
            if len(sels) != len(ss):
                raise SortError(f"{n}: {len(ss)} arguments")
            if not sels and params:
                raise SortError(f"{n} needs a qualified sort")
            m = {}
            for (_, want), got in zip(sels, ss):
                self.match(want, got, m, t)
            f = self.code[n]
            return (lambda e: f(*[g(e) for g in fs])), self.subst(res, m)
        if n not in self.sig:
            raise Unbound(f"{n} is not declared")
        sg = self.sig[n]
        if sg[0] == "sel":
            if len(ss) != 1:
                raise SortError(show(t))
            m = {}
            self.match(sg[1], ss[0], m, t)
            f = self.code[n]
            g = fs[0]
            return (lambda e: f(g(e))), self.subst(sg[2], m)
        want, res = sg
        if not want:
            raise SortError(f"{n} takes no arguments: {show(t)}")
        if want != ss:
            raise SortError(f"{n} expects {want}, got {ss} in {show(t)}")

        def app(e):
            f = self.code.get(n)
            if f is None:
                raise Undef(f"{n} has no interpretation")
            return f(*[g(e) for g in fs])

        return app, res

    def match(self, want, got, m, t):
        if isinstance(want, tuple) and want[0] == "var":
            if m.setdefault(want[1], got) != got:
                raise SortError(f"{show(t)}: {m[want[1]]} and {got}")
        elif isinstance(want, tuple) and isinstance(got, tuple) and want[0] == got[0] and len(want) == len(got):
            for a, b in zip(want[1:], got[1:]):
                self.match(a, b, m, t)
        elif want != got:
            raise SortError(f"{show(t)}: expected {want}, got {got}")

    def subst(self, s, m):
        if isinstance(s, tuple):
            if s[0] == "var":
                return m[s[1]]
            return (s[0],) + tuple(self.subst(x, m) for x in s[1:])
        return s

    def core(self, n, fs, ss, t):
        def need(*want):
            if tuple(ss) != want:
                raise SortError(f"{n} over {ss} in {show(t)}")

        def all_of(k, least):
            if len(ss) < least or any(s != k for s in ss):
                raise SortError(f"{n} over {ss} in {show(t)}")

        if n in ("+", "*"):
            all_of("Int", 2)  # SMT-LIB: left-associative with at least two arguments
            op = (lambda a, b: a + b) if n == "+" else (lambda a, b: a * b)
            g = fold(op)
            return (lambda e: g(*[f(e) for f in fs])), "Int"
        if n == "-":
            all_of("Int", 1)
            if len(fs) == 1:
                return (lambda e: -fs[0](e)), "Int"
            g = fold(lambda a, b: a - b)
            return (lambda e: g(*[f(e) for f in fs])), "Int"
        if n in ("div", "mod"):
            need("Int", "Int")
            op = div_euclid if n == "div" else mod_euclid
            a, b = fs
            return (lambda e: op(a(e), b(e))), "Int"
        if n in ("<", "<=", ">", ">="):
            all_of("Int", 2)
            import operator as o

            op = {"<": o.lt, "<=": o.le, ">": o.gt, ">=": o.ge}[n]

            def chain(e):
                v = [f(e) for f in fs]
                return all(op(a, b) for a, b in zip(v, v[1:]))

            return chain, "Bool"
        if n in ("=", "distinct"):
            if len(ss) < 2 or any(s != ss[0] for s in ss):
                raise SortError(f"{n} over {ss} in {show(t)}")
            if n == "=":
                def eq(e):
                    v = [f(e) for f in fs]
                    return all(a == b for a, b in zip(v, v[1:]))

                return eq, "Bool"
            return (lambda e: len({f(e) for f in fs}) == len(fs)), "Bool"
        if n in ("and", "or"):
            all_of("Bool", 2)
            from mc.irsem import _kleene

            return _kleene(fs, n == "or"), "Bool"
        if n == "not":
            need("Bool")
            f = fs[0]
            return (lambda e: not f(e)), "Bool"
        if n == "=>":
            all_of("Bool", 2)
            from mc.irsem import _kleene

            neg = [(lambda e, f=f: not f(e)) for f in fs[:-1]]
            return _kleene(neg + [fs[-1]], True), "Bool"
        if n == "ite":
            if len(ss) != 3 or ss[0] != "Bool" or ss[1] != ss[2]:
                raise SortError(f"ite over {ss} in {show(t)}")
            c, a, b = fs
            return (lambda e: a(e) if c(e) else b(e)), ss[1]
        if n.startswith("set."):
            k = n[4:]
            if k in ("union", "inter", "minus", "subset"):
                if len(ss) != 2 or ss[0] != ss[1] or ss[0][0] != "Set":
                    raise SortError(f"{n} over {ss} in {show(t)}")
                a, b = fs
                op = {"union": frozenset.union, "inter": frozenset.intersection, "minus": frozenset.difference,
                      "subset": frozenset.issubset}[k]
                return (lambda e: op(a(e), b(e))), ("Bool" if k == "subset" else ss[0])
            if k == "member":
                if len(ss) != 2 or ss[1] != ("Set", ss[0]):
                    raise SortError(f"{n} over {ss} in {show(t)}")
                a, b = fs
                return (lambda e: a(e) in b(e)), "Bool"
            if k == "singleton" and len(ss) == 1:
                f = fs[0]
                return (lambda e: frozenset([f(e)])), ("Set", ss[0])
            if k == "insert":
                if len(ss) < 2 or any(("Set", s) != ss[-1] for s in ss[:-1]):
                    raise SortError(f"{n} over {ss} in {show(t)}")
                return (lambda e: fs[-1](e) | {f(e) for f in fs[:-1]}), ss[-1]
            if k == "card" and len(ss) == 1 and ss[0][0] == "Set":
                f = fs[0]
                return (lambda e: len(f(e))), "Int"
            raise Unbound(f"{n} is not a set operation")
        return None


class Quant:
    """A quantified formula; holds() enumerates the bounded domain of each sort."""

    def __init__(self, kind, bound, f, script):
        self.kind, self.bound, self.f, self.script = kind, bound, f, script

    def __call__(self, e):
        raise Undef("quantifier")


def _head(l):
    if not l:
        raise Undef("head of nil")
    return l[0]


def _tail(l):
    if not l:
        return ()  # the prelude's axioms force (tail nil) = nil
    return l[1:]


def evaluate(text, env=None, **k):
    s = Script(**k)
    f, _ = s.term(read_all(text)[0], {})
    return f(env or {})
