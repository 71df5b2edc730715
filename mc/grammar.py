"""Languages of grammars: of a Choose tree, of a Rosette define-grammar and of a SyGuS synth-fun."""
import itertools

from metalift import ir
from metalift.ir import Choose

from mc.sexp import Sym, read_all, show


class TooMany(Exception):
    pass


class GrammarError(Exception):
    pass


def count(e):
    """How many expansions a Choose tree has."""
    if isinstance(e, Choose):
        return sum(count(a) for a in e.args)
    n = 1
    if isinstance(e, ir.Expr):
        for a in e.args:
            if isinstance(a, ir.Expr):
                n *= count(a)
    return n


def expansions(e):
    """Every expression obtained by resolving each occurrence of a Choose independently."""
    if isinstance(e, Choose):
        for a in e.args:
            yield from expansions(a)
        return
    if not isinstance(e, ir.Expr) or isinstance(e, (ir.Var, ir.Lit)):
        yield e
        return
    opts = [list(expansions(a)) if isinstance(a, ir.Expr) else [a] for a in e.args]
    for args in itertools.product(*opts):
        yield rebuild(e, args)


def rebuild(e, args):
    if isinstance(e, ir.Call):
        return ir.Call(args[0], e.type, *args[1:])
    if isinstance(e, ir.Lambda):
        return ir.Lambda(e.type, *args)
    return type(e)(*args)


def freeze(t):
    return tuple(freeze(x) for x in t) if isinstance(t, list) else (str(t) if isinstance(t, Sym) else t)


def _product(parts, limit):
    n = 1
    for p in parts:
        n *= len(p)
    if n > limit:
        raise TooMany()
    return [tuple(c) for c in itertools.product(*parts)]


def rosette(text, limit=4000):
    """(name, parameters, start, rules, language) of one define-grammar form."""
    f = read_all(text)
    if len(f) != 1 or str(f[0][0]) != "define-grammar":
        raise GrammarError(f"not one define-grammar: {text[:200]}")
    head, rules = f[0][1], f[0][2:]
    names = [str(r[0]) for r in rules]
    params = [str(p) for p in head[1:]]
    if len(set(names)) != len(names) or len(set(params)) != len(params) or set(names) & set(params):
        raise GrammarError(f"non-terminals {names} and parameters {params} collide")
    by = {}
    for r in rules:
        if len(r) != 2:
            raise GrammarError(f"rule {show(r)}")
        by[str(r[0])] = r[1]
    return str(head[0]), params, names[0], by, rosette_words(by, names[0], limit)


def rosette_words(by, start, limit=4000):
    memo, busy = {}, set()

    def nt(n):
        if n in memo:
            return memo[n]
        if n in busy:
            raise GrammarError(f"non-terminal {n} derives itself")
        busy.add(n)
        memo[n] = words(by[n])
        busy.discard(n)
        return memo[n]

    def words(t):
        if isinstance(t, list):
            if t and str(t[0]) == "choose":
                if len(t) == 1:
                    raise GrammarError("choose without alternatives")
                return sorted({w for x in t[1:] for w in words(x)}, key=repr)
            if len(t) == 1 and str(t[0]) in by:
                return nt(str(t[0]))
            return _product([words(x) for x in t], limit)
        if isinstance(t, Sym) and str(t) in by:
            raise GrammarError(f"non-terminal {t} is used as a variable")
        return [freeze(t)]

    return nt(start)


def sygus(start, prods, limit=4000):
    """Language of the productions of a synth-fun."""
    memo, busy = {}, set()

    def nt(n):
        if n in memo:
            return memo[n]
        if n in busy:
            raise GrammarError(f"non-terminal {n} derives itself")
        busy.add(n)
        memo[n] = sorted({w for t in prods[n] for w in words(t)}, key=repr)
        busy.discard(n)
        return memo[n]

    def words(t):
        if isinstance(t, list):
            return _product([words(x) for x in t], limit)
        if isinstance(t, Sym) and str(t) in prods:
            return nt(str(t))
        return [freeze(t)]

    return nt(start)
