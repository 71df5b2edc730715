"""Deciding emitted solver files by evaluating them on every assignment of a small domain."""
import itertools

from mc import env, irsem  # noqa: F401
from mc.irsem import BUILTIN
from mc.rkt import RktError, load_runtime
from mc.sexp import Sym, read_all, show
from mc.smt import Script, SortError, Unbound
from mc.grammar import rosette_words


class Globals(dict):
    """The built-in functions; every other declared name is looked up in the current assignment."""

    def __init__(self, fns):
        super().__init__({**BUILTIN, **fns})
        self.row = {}

    def get(self, n, d=None):
        return dict.get(self, n) or (lambda *a: self.row[n])


def symbols(t, acc):
    if isinstance(t, list):
        for x in t:
            symbols(x, acc)
    elif isinstance(t, Sym):
        acc.add(str(t))
    return acc


def conjuncts(t):
    if isinstance(t, list) and t and str(t[0]) in ("and", "&&"):
        return [c for x in t[1:] for c in conjuncts(x)]
    return [t]


def used_by(c, bodies):
    names, todo = set(), symbols(c, set())
    while todo:
        n = todo.pop()
        if n not in names:
            names.add(n)
            todo |= bodies.get(n, set())
    return names


def smt(text, domain, fns={}):
    """cvc5's answer to a verification file: "unsat", "sat" or an error; None: not a verification file.
    Universally quantified assertions before the goal (axioms) are not needed for a true goal."""
    g = Globals(fns)
    try:
        sc = Script(interp=g, use_bodies=False).load(text)
        goal = sc.asserts[-1][1]
        if not (isinstance(goal, list) and str(goal[0]) == "not" and len(goal) == 2):
            return None
        bodies = {n: symbols(c[4], set()) - {str(p[0]) for p in c[2]} for n, c in sc.bodies.items()}
        for c in conjuncts(goal[1]):
            f, _ = sc.term(c, {})
            vs = sorted(n for n in used_by(c, bodies) if n in sc.vars)
            for vals in itertools.product(*[domain(sc.vars[v]) for v in vs]):
                g.row = dict(zip(vs, vals))
                try:
                    if f(g.row) is False:
                        return "sat"
                except irsem.Undef:
                    pass
                except RecursionError:
                    return "unknown"
        return "unsat"
    except (SortError, Unbound) as ex:
        return f'(error "{ex}")'


class Query:
    """An emitted synthesis file: its grammars, and whether a choice of words fulfils its assertions."""

    def __init__(self, text, domain, fns={}):
        self.rk = load_runtime()
        self.kinds, self.rules, self.params, self.heads = {}, {}, {}, {}
        self.goal, self.forall = None, None
        defined = set()
        for f in read_all("\n".join(l for l in text.split("\n") if not l.startswith("#lang"))):
            k = str(f[0]) if isinstance(f, list) and f else ""
            names = f[1:-1] if k == "define-symbolic" else [f[1][0] if isinstance(f[1], list) else f[1]] if k.startswith("define") else []
            for n in map(str, names):
                if n in defined:
                    raise RktError(f"module: identifier already defined: {n}")
                defined.add(n)
            if k == "define-grammar":
                self.rules[str(f[1][0])] = ([str(p) for p in f[1][1:]], {str(r[0]): r[1] for r in f[2:]}, str(f[2][0]))
            elif k == "define-symbolic":
                for n in f[1:-1]:
                    self.kinds[str(n)] = str(f[-1])
                    self.rk.top[str(n)] = None
            elif k == "define" and isinstance(f[1], list) and str(f[1][0]) == "assertions":
                if len(f) != 3 or str(f[2][0]) != "assert":
                    raise RktError("assertions: " + show(f)[:200])
                self.goal = f[2][1]
            elif k == "define" and isinstance(f[1], list) and isinstance(f[2], list) and str(f[2][0]) in self.rules:
                n, g = str(f[1][0]), str(f[2][0])
                args = [str(a) for a in f[2][1:]]
                ps, rules, start = self.rules[g]
                own = [str(a) for a in f[1][1:]]
                if args[: len(ps)] != own or args[len(ps)] != "#:depth":
                    raise RktError("call of a grammar: " + show(f)[:200])
                self.params[n] = own
                self.heads[n] = (rules, start, dict(zip(ps, own)))
            elif k == "define" and isinstance(f[1], Sym) and isinstance(f[2], list) and str(f[2][0]) == "synthesize":
                if self.forall is None:
                    self.forall = {str(x) for x in f[2][f[2].index("#:forall") + 1][1:]}
            elif k == "define" and isinstance(f[1], Sym):
                self.kinds[str(f[1])] = show(f[2])
                self.rk.top[str(f[1])] = None
            elif k in ("define", "define-bounded"):
                self.rk.form(f)
        self.domain = domain
        for n in fns:
            self.kinds.pop(n, None)
        for n, f in fns.items():
            self.rk.top[n] = f

    def words(self, n):
        rules, start, _ = self.heads[n]
        return rosette_words(rules, start)

    def choose(self, n, word):
        self.rk.form(thaw(("define", (n,) + tuple(self.params[n]), word)))

    def holds(self, c, bodies={}):
        """Whether a conjunct is true for every value of the variables (also of those not quantified over)."""
        fn = self.rk.compile(c)
        vs = sorted(n for n in symbols(c, set()) if n in self.kinds and self.kinds[n] is not None)
        for vals in itertools.product(*[self.domain(self.kinds[v]) for v in vs]):
            self.rk.top.update(zip(vs, vals))
            try:
                if fn({}) is False:
                    return False
            except RktError as ex:
                if "unbound" in str(ex) or "arity" in str(ex):
                    raise
                return False  # a failing path
        return True

    def right(self, choice):
        for n, w in choice.items():
            self.choose(n, w)
        return all(self.holds(c) for c in conjuncts(self.goal))


def thaw(t):
    if isinstance(t, (tuple, list)):
        return [thaw(x) for x in t]
    return Sym(t) if isinstance(t, str) and not isinstance(t, Sym) else t


def text_of(word):
    return show(thaw(word))
