"""P07: the addEmptyBlock pass keeps what a function does and leaves every branch edge its own block."""
import itertools
import os
import re
import shutil
import sys
import tempfile

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import env, llvmfront
from mc.env import Res

LIB = None


def terminators(n, kinds):
    """Terminators of a block in a function of blocks 0..n-1 (0, the entry, has no predecessors)."""
    t = range(1, n)
    out = [("ret",)]
    out += [("br", a) for a in t]
    out += [("cond", a, b) for a in t for b in t]
    if "switch" in kinds:
        out += [("switch", a, b) for a in t for b in t]
    if "invoke" in kinds:
        out += [("invoke", a) for a in t]
    return out


def preds(cfg):
    """[edges (pred, arm)] per block, one entry per arm."""
    p = [[] for _ in cfg]
    for i, t in enumerate(cfg):
        for k, s in enumerate(t[1:]):
            p[s].append((i, k))
    return p


def text(cfg, name, style):
    """Every block reports which edge it was entered through (two phis) and asks for its branch decision."""
    out = [f"define i32 @{name}(i32 %a, i1 %q) {{"]
    ps = preds(cfg)
    for i, t in enumerate(cfg):
        out.append(f"b{i}:")
        if ps[i]:
            # several entries of one predecessor have to agree
            out.append(f"  %p{i} = phi i32 " + ", ".join(f"[ {10 * p + 1}, %b{p} ]" for p, _ in ps[i]))
            out.append(f"  %w{i} = phi i32 " + ", ".join(f"[ %v{p}, %b{p} ]" for p, _ in ps[i]))
        else:
            out.append(f"  %p{i} = add i32 %a, 0")
            out.append(f"  %w{i} = add i32 %a, 1")
        out.append(f"  %v{i} = call i32 @trace(i32 {i}, i32 %p{i}, i32 %w{i})")
        cond = f"%c{i}"
        if t[0] == "ret":
            out.append(f"  ret i32 %w{i}")
        elif t[0] == "br":
            out.append(f"  br label %b{t[1]}")
        elif t[0] == "cond":
            if style == "arg":
                cond = "%q"  # one condition shared by all branches
            else:
                out.append(f"  %c{i} = call i1 @ask(i32 {i})")
            out.append(f"  br i1 {cond}, label %b{t[1]}, label %b{t[2]}")
        elif t[0] == "switch":
            out.append(f"  %c{i} = call i32 @pick(i32 {i})")
            out.append(f"  switch i32 %c{i}, label %b{t[1]} [ i32 7, label %b{t[2]} ]")
    out.append("}")
    return "\n".join(out) + "\n"


DECLS = "declare i32 @trace(i32, i32, i32)\ndeclare i1 @ask(i32)\ndeclare i32 @pick(i32)\n"


class Fn:
    """A function read from text: {label: (phis, calls, terminator)}."""

    def __init__(self, lines):
        self.blocks, self.entry, self._crossing, cur = {}, None, None, None
        for l in lines:
            l = l.split(";")[0].rstrip()
            if not l.strip():
                continue
            m = re.match(r"^(\S+):", l)
            if m:
                cur = m.group(1).strip('"')
                self.blocks[cur] = ([], [], [])
                self.entry = self.entry or cur
                continue
            if cur is None:
                cur = "%entry"
                self.blocks[cur] = ([], [], [])
                self.entry = cur
            phis, body, term = self.blocks[cur]
            l = l.strip()
            m = re.match(r"(%\S+) = phi \S+ (.*)$", l)
            if m:
                inc = re.findall(r"\[ (\S+), %(\S+) \]", m.group(2))
                phis.append((m.group(1), inc))
                continue
            m = re.match(r"(?:(%\S+) = )?(?:tail )?call \S+ @(\w+)\((.*)\)", l)
            if m:
                body.append(("call", m.group(1), m.group(2), [a.split()[-1] for a in m.group(3).split(",")]))
                continue
            m = re.match(r"(%\S+) = add i32 (\S+), (\S+)$", l)
            if m:
                body.append(("add", m.group(1), m.group(2), m.group(3)))
                continue
            m = re.match(r"br i1 (\S+), label %(\S+), label %(\S+)$", l)
            if m:
                term.append(("cond",) + m.groups())
                continue
            m = re.match(r"br label %(\S+)$", l)
            if m:
                term.append(("br", m.group(1)))
                continue
            m = re.match(r"ret i32 (\S+)$", l)
            if m:
                term.append(("ret", m.group(1)))
                continue
            m = re.match(r"switch i32 (\S+), label %(\S+) \[(.*)$", l)
            if m:
                self.sw = [m.group(1), m.group(2)]
                cases = re.findall(r"i32 (-?\d+), label %(\S+)", m.group(3))
                term.append(("switch", m.group(1), m.group(2), cases))
                self.open = term if "]" not in m.group(3) else None
                continue
            m = re.match(r"i32 (-?\d+), label %(\S+)$", l)
            if m and term and term[-1][0] == "switch":
                term[-1][3].append(m.groups())
                continue
            if l in ("]", "unreachable"):
                if l == "unreachable":
                    term.append(("unreachable",))
                continue
            raise ValueError(f"unread line: {l}")

    def crossing(self):
        if self._crossing is None:
            names = {"%a", "%q"}
            for phis, body, term in self.blocks.values():
                own = {ins[1] for ins in body} | {x for x, _ in phis}
                used = {v for ins in body for v in (ins[2:] if ins[0] == "add" else ins[3])} | set(term[0][1:2])
                names |= {u for u in used if u not in own}
                names |= {v for _, inc in phis for v, _ in inc}
            self._crossing = names
        return self._crossing

    def edges(self):
        for b, (_, _, t) in self.blocks.items():
            t = t[0]
            if t[0] == "cond":
                yield b, 0, t[2]
                yield b, 1, t[3]
            elif t[0] == "br":
                yield b, 0, t[1]
            elif t[0] == "switch":
                yield b, 0, t[2]
                for k, (_, s) in enumerate(t[3]):
                    yield b, k + 1, s


def functions(ll):
    out, cur, name = {}, None, None
    for line in ll.splitlines():
        m = re.match(r"define .*@(\w+)\(", line)
        if m:
            name, cur = m.group(1), []
        elif line.startswith("}") and cur is not None:
            out[name] = Fn(cur)
            cur = None
        elif cur is not None:
            cur.append(line)
    return out


class Machine:
    """One function being executed; values are terms over the trace so far."""

    def __init__(self, fn):
        self.fn, self.block, self.prev, self.env = fn, fn.entry, None, {"%a": "a", "%q": "q"}

    def copy(self):
        m = Machine.__new__(Machine)
        m.fn, m.block, m.prev, m.env = self.fn, self.block, self.prev, dict(self.env)
        return m

    def val(self, x):
        if re.match(r"-?\d+$", x):
            return x
        if x not in self.env:
            raise ValueError(f"{x} is read before it is written")
        return self.env[x]

    def run(self, decide):
        """Execute until a branch needs a decision (returns it) or the end; yields observable events."""
        events = []
        for _ in range(40):
            phis, body, term = self.fn.blocks[self.block]
            new = {}
            for x, inc in phis:
                vals = {self.val(v) for v, p in inc if p == self.prev}
                if len(vals) != 1:
                    raise ValueError(f"phi {x} has {len(vals)} values for the edge from {self.prev}")
                new[x] = vals.pop()
            self.env.update(new)
            for ins in body:
                if ins[0] == "add":
                    self.env[ins[1]] = f"({self.val(ins[2])}+{self.val(ins[3])})"
                else:
                    _, res, f, args = ins
                    ev = (f,) + tuple(self.val(a) for a in args)
                    events.append(ev)
                    if res:
                        self.env[res] = "%s" % (f + ev[1])
            t = term[0]
            if t[0] == "ret":
                return events + [("ret", self.val(t[1]))], None
            if t[0] == "unreachable":
                return events + [("unreachable",)], None
            if t[0] == "br":
                self.drop()
                self.prev, self.block = self.block, t[1]
                if events:
                    return events, [self]
                continue
            cond = self.val(t[1])
            self.drop()
            nxt = []
            arms = [("1", t[2]), ("0", t[3])] if t[0] == "cond" else [("d", t[2])] + [(c, s) for c, s in t[3]]
            for lab, s in arms:
                m = self.copy()
                m.prev, m.block = self.block, s
                nxt.append((cond, lab, m))
            return events, nxt
        return events + [("silent loop",)], None

    def drop(self):
        """Forget values that no other block can read."""
        keep = self.fn.crossing()
        self.env = {k: v for k, v in self.env.items() if k in keep}

    def key(self):
        return (self.block, self.prev, tuple(sorted(self.env.items())))


def step(m):
    """Run to the next observable point: (events, {decision: machine} or None)."""
    m = m.copy()
    ev, nxt = m.run(None)
    while nxt is not None and isinstance(nxt[0], Machine):
        e2, nxt = nxt[0].run(None)
        ev = ev + e2
        if len(ev) > 30:
            return ev, None
    if nxt is None:
        return ev, None
    return ev, {(c, l): x for c, l, x in nxt}


def bisimulate(f, g, res, shared):
    """All reachable pairs of states of the two functions do the same; returns a disagreement or None."""
    seen = set()
    todo = [(Machine(f), Machine(g), ())]
    while todo:
        a, b, path = todo.pop()
        k = (a.key(), b.key(), shared and dict(path).get("q"))
        if k in seen:
            continue
        seen.add(k)
        try:
            ea, na = step(a)
        except ValueError as e:
            raise AssertionError(f"reference: {e}")
        try:
            eb, nb = step(b)
        except ValueError as e:
            return f"after decisions {path}: {e}"
        except KeyError as e:
            return f"after decisions {path}: no block {e}"
        if ea != eb:
            return f"after decisions {path}: {ea} became {eb}"
        if (na is None) != (nb is None) or (na is not None and set(na) != set(nb)):
            return f"after decisions {path}: choices {na and sorted(na)} became {nb and sorted(nb)}"
        res.add("transitions")
        for d in na or ():
            if d[0] == "q" and dict(path).get("q", d[1]) != d[1]:
                continue  # the argument does not change
            todo.append((na[d], nb[d], path + (d,)))
        if len(path) > 2000:
            raise AssertionError("the reference does not repeat")
    res.add("states", len(seen))
    return None


def shape_problem(fn):
    """Each arm of a conditional branch leads to a block of its own that nothing else leads to."""
    into = {}
    for b, k, s in fn.edges():
        into.setdefault(s, []).append((b, k))
    for b, (phis, body, t) in fn.blocks.items():
        if t[0][0] == "cond":
            for k, s in enumerate(t[0][2:4]):
                if into[s] != [(b, k)]:
                    return f"the block {s} a conditional branch of {b} leads to is also reached from {into[s]}"
                if fn.blocks[s][0]:
                    return f"the block {s} a conditional branch leads to still merges values"
    return None


def explore(item):
    n, cfgs, style, passes = item
    res = Res()
    d = tempfile.mkdtemp(prefix="mlverif-")
    try:
        raw = os.path.join(d, "p.ll")
        src = DECLS + "".join(text(c, f"f{i}", style) for i, c in enumerate(cfgs))
        with open(raw, "w") as f:
            f.write(src)
        before = functions(src)
        todo = [(cfgs, raw)]
        after = {}
        bad = {}
        try:
            after = functions(llvmfront.sh(llvmfront.OPT + ["-load", LIB, *passes, "-S", raw]))
        except RuntimeError:
            for i, c in enumerate(cfgs):  # which ones
                with open(raw, "w") as f:
                    f.write(DECLS + text(c, f"f{i}", style))
                try:
                    after.update(functions(llvmfront.sh(llvmfront.OPT + ["-load", LIB, *passes, "-S", raw])))
                except RuntimeError as e:
                    bad[f"f{i}"] = str(e)[-300:]
        for i, c in enumerate(cfgs):
            key = f"{' '.join(passes)} {style} {c}"
            res.add("programs")
            if f"f{i}" in bad:
                res.bad(key, f"{text(c, 'f', style)} -> opt fails: {bad[f'f{i}']}")
                continue
            g = after[f"f{i}"]
            p = shape_problem(g) or bisimulate(before[f"f{i}"], g, res, style == "arg")
            res.add("traces")
            res.outcome(len(g.blocks))
            if p:
                res.bad(key, f"{text(c, 'f', style)}-> {p}")
            elif i == 0:
                res.sample({"cfg": c, "blocks_after": len(g.blocks)})
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return res


def reachable(cfg):
    seen, todo = {0}, [0]
    while todo:
        for s in cfg[todo.pop()][1:]:
            if s not in seen:
                seen.add(s)
                todo.append(s)
    return len(seen) == len(cfg)


def canonical(cfg):
    """Blocks are numbered in the order a depth-first walk meets them (one of all renamings)."""
    order, todo = [], [0]
    while todo:
        b = todo.pop()
        if b in order:
            continue
        order.append(b)
        todo.extend(reversed(cfg[b][1:]))
    return order == sorted(order)


def body(chk):
    global LIB
    LIB = llvmfront.build_pass()
    full = llvmfront.script_passes()
    work = []

    def add(n, kinds, style, passes, canon):
        cs = [c for c in itertools.product(terminators(n, kinds), repeat=n) if (not canon or (reachable(c) and canonical(c)))]
        work.extend((n, ch, style, passes) for ch in env.chunks(cs, 250))

    for style in ("ask", "arg"):
        for n in (1, 2, 3):
            add(n, ("switch",), style, ["-addEmptyBlock"], False)
            add(n, ("switch",), style, full, True)
        add(4, (), style, ["-addEmptyBlock"], True)
    if chk.tier == "thorough":
        add(4, ("switch",), "ask", ["-addEmptyBlock"], True)
        add(4, ("switch",), "ask", full, True)
        add(4, (), "ask", ["-addEmptyBlock"], False)
        work.extend((5, ch, "ask", ["-addEmptyBlock"]) for ch in env.chunks(five(), 250))
    chk.pmap(explore, work)
    chk.finish(rule="all control-flow graphs of up to 3 blocks (br, conditional br, switch, ret; also unreachable blocks) and all reachable ones of 4 (thorough: 5) up to renaming, "
               "with phis on every edge; product of the states before and after the pass explored completely")


def five():
    """Reachable graphs of five blocks up to renaming, built along the depth-first order."""
    n, out = 5, []
    ts = terminators(n, ())

    def go(cfg, met):
        i = len(cfg)
        if i == n:
            c = tuple(cfg)
            if reachable(c) and canonical(c):
                out.append(c)
            return
        if i >= met:
            return
        for t in ts:
            m, ok = met, True
            for s in t[1:]:
                if s > m:
                    # depth first: a later block may be met by a descendant first; keep, canonical() decides
                    pass
                m = max(m, s + 1)
            go(cfg + [t], m)

    go([], 1)
    return out


if __name__ == "__main__":
    env.main("P07", body)
