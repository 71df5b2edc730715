"""Least model of a verification condition read as Horn clauses, by explicit-state search.

A verification condition  AND_k (premises_k => conclusion_k)  over unknown predicates (loop
invariants, function summaries) is valid for an interpretation of the predicates iff that
interpretation is a model of the Horn clauses.  The least model is what can be derived from
the program inputs; it is computed here by breadth-first exploration over concrete tuples:

  * soundness of the VC  <=>  every concrete execution's (inputs, result) is in the least model;
  * precision of the VC  <=>  the least model contains nothing else.
"""
from collections import deque

from mc.irsem import Sem, Undef, free_vars, type_kind


class NotHorn(Exception):
    pass


class UnknownPred(Undef):
    """The value of a term hangs on an unknown predicate the premises do not settle."""


def settle(e, premises, is_pred):
    """Predicates inside a term (merged values test path conditions): those the clause assumes are true, any other
    one is left undecided; path conditions of the other branches are refuted by their branch conditions."""
    from metalift import ir

    if isinstance(e, ir.Object):
        e = e.src
    if not isinstance(e, ir.Expr) or not mentions(e, is_pred):
        return e
    if isinstance(e, ir.Call) and is_pred(e.args[0]):
        for name, args in premises:
            if name == e.args[0] and len(args) == len(e.args) - 1 and all(same(a, b) for a, b in zip(args, e.args[1:])):
                return ir.Lit(True, ir.Bool)
        return ir.Call(UNKNOWN, ir.Bool)
    return e.map_args(lambda a: settle(a, premises, is_pred))


UNKNOWN = "undecided predicate"


def same(a, b):
    from metalift import ir

    a = a.src if isinstance(a, ir.Object) else a
    b = b.src if isinstance(b, ir.Object) else b
    return repr(a) == repr(b)


def mentions(e, is_pred):
    from metalift import ir

    if isinstance(e, ir.Object):
        e = e.src
    if not isinstance(e, ir.Expr):
        return False
    return (isinstance(e, ir.Call) and is_pred(e.args[0])) or any(mentions(a, is_pred) for a in e.args)


def undecided():
    raise UnknownPred()


class Clause:
    __slots__ = ("premises", "guards", "head", "text")

    def __init__(self, premises, guards, head):
        self.premises, self.guards, self.head = premises, guards, head


def clauses(f, is_pred):
    """Horn clauses of formula f; is_pred(name) tells which calls are unknown predicates."""
    from metalift import ir

    memo = {}

    def has(e):
        if isinstance(e, ir.Object):
            e = e.src
        if not isinstance(e, ir.Expr):
            return False
        k = id(e)
        if k not in memo:
            memo[k] = (isinstance(e, ir.Call) and is_pred(e.args[0])) or (
                not isinstance(e, (ir.Lt, ir.Le, ir.Gt, ir.Ge))
                and not (isinstance(e, ir.Eq) and e.args[0].type != ir.Bool)
                and any(has(a) for a in e.args)
            )
            keep.append(e)
        return memo[k]

    keep = []

    # pos(f): list of clauses [lits] (CNF) equivalent to f; neg(f): same for not f
    # lit = (polarity, expr)
    def pos(e):
        if isinstance(e, ir.Object):
            e = e.src
        if not has(e):
            return [[(True, e)]]
        if isinstance(e, ir.And):
            return [c for a in e.args for c in pos(a)]
        if isinstance(e, ir.Or):
            return cross([pos(a) for a in e.args])
        if isinstance(e, ir.Implies):
            return cross([neg(e.args[0]), pos(e.args[1])])
        if isinstance(e, ir.Not):
            return neg(e.args[0])
        if isinstance(e, ir.Ite):
            c, a, b = e.args
            return cross([neg(c), pos(a)]) + cross([pos(c), pos(b)])
        if isinstance(e, ir.Call) and is_pred(e.args[0]):
            return [[(True, e)]]
        if isinstance(e, ir.Eq):
            a, b = e.args
            return cross([neg(a), pos(b)]) + cross([neg(b), pos(a)])
        raise NotHorn(f"predicate below {type(e).__name__}")

    def neg(e):
        if isinstance(e, ir.Object):
            e = e.src
        if not has(e):
            return [[(False, e)]]
        if isinstance(e, ir.And):
            return cross([neg(a) for a in e.args])
        if isinstance(e, ir.Or):
            return [c for a in e.args for c in neg(a)]
        if isinstance(e, ir.Implies):
            return pos(e.args[0]) + neg(e.args[1])
        if isinstance(e, ir.Not):
            return pos(e.args[0])
        if isinstance(e, ir.Ite):
            c, a, b = e.args
            return cross([neg(c), neg(a)]) + cross([pos(c), neg(b)])
        if isinstance(e, ir.Call) and is_pred(e.args[0]):
            return [[(False, e)]]
        if isinstance(e, ir.Eq):
            a, b = e.args
            return cross([neg(a), neg(b)]) + cross([pos(a), pos(b)])
        raise NotHorn(f"predicate below {type(e).__name__}")

    def cross(cs):
        out = [[]]
        for c in cs:
            out = [x + y for x in out for y in c]
            if len(out) > 4096:
                raise NotHorn("too many clauses")
        return out

    res = []
    for lits in pos(f):
        prem, guards, heads = [], [], []
        for pol, e in lits:
            if isinstance(e, ir.Call) and is_pred(e.args[0]):
                (heads if pol else prem).append((e.args[0], list(e.args[1:])))
            else:
                guards.append((not pol, e))  # guard: e must evaluate to (not pol)
        if len(heads) > 1:
            raise NotHorn("two conclusions")
        res.append(Clause(prem, guards, heads[0] if heads else None))
    return res


class Solver:
    def __init__(self, formulas, is_pred, domain, fns=None, limit=60, max_tuples=20000, sem=None, inputs=None):
        """domain(name, type) -> values a variable bound by no premise ranges over; inputs {name: values}
        restricts a variable wherever it is bound."""
        from metalift import ir

        self.sem = sem or Sem(fns)
        self.sem.fns[UNKNOWN] = undecided
        self.rel = {}
        self.queue = deque()
        self.limit = limit
        self.max_tuples = max_tuples
        self.clipped = 0
        self.undef = 0
        self.fired = 0
        self.failed_goals = []
        self.rules = []
        self.by_pred = {}
        self.domain = domain
        self.inputs = {k: set(v) for k, v in (inputs or {}).items()}
        comp = self.sem.compile
        for f in formulas:
            for cl in clauses(f, is_pred):
                ps0 = cl.premises
                fix = lambda a: settle(a, ps0, is_pred)
                if cl.head:
                    cl.head = (cl.head[0], [fix(a) for a in cl.head[1]])
                cl.premises = [(n, [fix(a) for a in args]) for n, args in ps0]
                cl.guards = [(w, fix(g)) for w, g in cl.guards]
                vs = {}
                for _, args in cl.premises:
                    for a in args:
                        free_vars(a, vs)
                if cl.head:
                    for a in cl.head[1]:
                        free_vars(a, vs)
                for _, g in cl.guards:
                    free_vars(g, vs)
                prem = []
                bound = set()
                for name, args in cl.premises:
                    pat = []
                    for a in args:
                        if isinstance(a, ir.Object):
                            a = a.src
                        if isinstance(a, ir.Var):
                            pat.append(("v", a.args[0]))
                            bound.add(a.args[0])
                        else:
                            pat.append(("e", comp(a)))
                    prem.append((name, pat))
                free = [(n, t) for n, t in vs.items() if n not in bound and type_kind(t) != "fn"]
                guards = []
                for want, g in cl.guards:
                    guards.append((want, comp(g), set(free_vars(g))))
                head = None
                if cl.head:
                    head = (cl.head[0], [comp(a) for a in cl.head[1]])
                r = (prem, free, guards, head, cl)
                self.rules.append(r)
                for k, (name, _) in enumerate(prem):
                    self.by_pred.setdefault(name, []).append((r, k))

    def run(self):
        for r in self.rules:
            if not r[0]:
                self.fire(r, -1, None)
        while self.queue:
            name, t = self.queue.popleft()
            for r, k in self.by_pred.get(name, []):
                self.fire(r, k, t)
        return self.rel

    def fire(self, r, k, t):
        prem, free, guards, head, cl = r

        def join(i, env, checks):
            if i == len(prem):
                return self.ground(r, env, checks)
            name, pat = prem[i]
            if i == k:
                cand = [t]
            else:
                cand = list(self.rel.get(name, ()))
            for tup in cand:
                if len(tup) != len(pat):
                    raise NotHorn(f"arity of {name}")
                e2, c2, ok = dict(env), list(checks), True
                for (kind, x), v in zip(pat, tup):
                    if kind == "v":
                        if x in e2:
                            if e2[x] != v:
                                ok = False
                                break
                        elif x in self.inputs and v not in self.inputs[x]:
                            ok = False
                            break
                        else:
                            e2[x] = v
                    else:
                        c2.append((x, v))
                if ok:
                    join(i + 1, e2, c2)

        join(0, {}, [])

    def ground(self, r, env, checks):
        prem, free, guards, head, cl = r
        todo = [(n, t) for n, t in free if n not in env]

        # evaluate the guards as soon as their variables are bound
        order = [n for n, _ in todo]
        staged = [[] for _ in range(len(order) + 1)]
        for g in guards:
            need = [i for i, n in enumerate(order) if n in g[2]]
            staged[(need[-1] + 1) if need else 0].append(g)

        late = []

        def passes(gs, env):
            undef = False
            for want, f, _ in gs:
                try:
                    if bool(f(env)) != want:
                        return False
                except UnknownPred:
                    late.append((want, f, None))
                except Undef:
                    undef = True
            if undef:
                self.undef += 1
                return False
            return True

        def rec(i, env):
            n0 = len(late)
            try:
                return rec1(i, env)
            finally:
                del late[n0:]

        def rec1(i, env):
            if not passes(staged[i], env):
                return
            if i == len(todo):
                if late:
                    raise NotHorn("a condition depends on a predicate that the path does not settle")
                for f, v in checks:
                    try:
                        if f(env) != v:
                            return
                    except Undef:
                        return
                self.fired += 1
                if head is None:
                    self.failed_goals.append((cl, dict(env)))
                    return
                try:
                    tup = tuple(f(env) for f in head[1])
                except UnknownPred:
                    raise NotHorn(f"a value depends on a predicate that the path does not settle: {cl.head}")
                except Undef:
                    self.undef += 1
                    return
                self.emit(head[0], tup)
                return
            n, t = todo[i]
            for v in self.domain(n, t):
                rec(i + 1, {**env, n: v})

        rec(0, env)

    def emit(self, name, tup):
        s = self.rel.setdefault(name, set())
        if tup in s:
            return
        for v in tup:
            if too_big(v, self.limit):
                self.clipped += 1
                return
        if len(s) >= self.max_tuples:
            self.clipped += 1
            return
        s.add(tup)
        self.queue.append((name, tup))


def too_big(v, limit):
    if isinstance(v, bool):
        return False
    if isinstance(v, int):
        return abs(v) > limit
    if isinstance(v, (tuple, frozenset)):
        return len(v) > 8 or any(too_big(x, limit) for x in v)
    return False
