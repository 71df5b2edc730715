"""The LLVM frontend under exploration: compile C/C++ as the repository's scripts do (clang -O0, the
addEmptyBlock pass, instnamer, loop analysis), run Driver.analyze, read the verification condition."""
import ctypes
import os
import re
import subprocess

from mc import env
from mc.env import quiet

CLANG = {"c": ["clang-14"], "cc": ["clang++-14"]}
OPT = ["opt-14", "-enable-new-pm=0"]
OUT_OF_FUEL = -777777


def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)
    if r.returncode != 0:
        raise RuntimeError(f"{' '.join(cmd)}: {r.stderr[-1500:]}")
    return r.stdout


def build_pass():
    """The repository's pass, built in a scratch directory; returns the library."""
    d = env.scratch()
    sh(["cmake", "-S", os.path.join(env.REPO, "llvm-pass"), "-B", d, "-DLLVM_DIR=/usr/lib/llvm-14/cmake",
        "-DCMAKE_C_COMPILER=/usr/bin/gcc", "-DCMAKE_CXX_COMPILER=/usr/bin/g++"])
    sh(["cmake", "--build", d])
    return os.path.join(d, "addEmptyBlocks", "libAddEmptyBlocksPass.so")


def script_passes():
    """The opt flags of the repository's compile script (what its users run)."""
    p = os.path.join(env.REPO, "tests", "llvm", "compile-add-blocks.sh")
    for line in open(p):
        w = line.split()
        if w[:2] == ["opt", "-load"] and "-addEmptyBlock" in w:
            return w[3 : w.index("-S")]
    return ["-addEmptyBlock", "-lowerinvoke", "--unreachableblockelim", "-instnamer"]


def compile_ll(d, base, source, lang, lib, flags=()):
    src = os.path.join(d, f"{base}.{lang}")
    with open(src, "w") as f:
        f.write(source)
    raw, ll, loops = (os.path.join(d, f"{base}{x}") for x in (".raw.ll", ".ll", ".loops"))
    sh(CLANG[lang] + ["-O0", "-c", "-emit-llvm", "-fno-discard-value-names", "-S", *flags, src, "-o", raw])
    finish_ll(raw, ll, loops, lib)
    return ll, loops


def finish_ll(raw, ll, loops, lib):
    text = sh(OPT + ["-load", lib, *script_passes(), "-S", raw])
    with open(ll, "w") as f:
        f.write(text)
    with open(loops, "w") as f:
        f.write(sh(OPT + ["-analyze", "-loops", ll]))
    # clang 14 writes two attributes that llvmlite's LLVM 11 cannot read; clang 11 does not write them
    with open(ll, "w") as f:
        f.write(re.sub(r"\bsret\([^)]*\)", "sret", re.sub(r"\bmustprogress\b", "", text)))


_fresh = False
_contexts = []


def fresh_contexts():
    """llvmlite's global context renames struct types every time a module is parsed again in the same
    process; users analyze one file per process, so give every parse its own context."""
    global _fresh
    if _fresh:
        return
    from metalift.frontend import llvm as L

    real = L.llvm.parse_assembly

    def parse(text, context=None):
        _contexts.append(context or L.llvm.create_context())  # they have to outlive their modules
        return real(text, _contexts[-1])

    import types

    proxy = types.SimpleNamespace(**{k: getattr(L.llvm, k) for k in dir(L.llvm) if not k.startswith("__")})
    proxy.parse_assembly = parse
    L.llvm = proxy
    _fresh = True


def no_grammar(writes, reads, in_scope, relaxed):
    from metalift import ir

    return ir.Bool(True)


def objects(params):
    from metalift import ir

    mk = {"int": lambda n: ir.Int(n), "bool": lambda n: ir.Bool(n), "vec": lambda n: ir.List(ir.Int, n),
          "list": lambda n: ir.List(ir.Int, n), "set": lambda n: ir.Set(ir.Int, n), "mat": lambda n: ir.Matrix(ir.Int, n)}
    return [mk[k](n) for n, k in params]


HIDDEN = re.compile(r"^(retval|result\.ptr|nrvo|cleanup|exn\.|ehselector|ref\.tmp|saved)")


def locals_of(ll, fname):
    """Names of the storage of a function's variables (what its loop invariants may speak about)."""
    out, on = [], False
    for line in open(ll):
        if line.startswith("define "):
            on = re.search(rf"@(_Z\d*)?{fname}\w*\(", line) is not None
            if on and " sret " in line:
                out.append("agg.result")
        elif on:
            m = re.match(r"\s+%(\S+) = alloca ", line)
            if m and not HIDDEN.match(m.group(1)):
                out.append(m.group(1))
    return out


def analyze(ll, loops, fname, params, uninterp=(), driver=None, maxinv=8, assume=None):
    from metalift.frontend.llvm import Driver, InvGrammar

    with quiet():
        d = driver or Driver()
        scope = locals_of(ll, fname)
        invs = {f"{fname}_inv{i}": InvGrammar(no_grammar, list(scope)) for i in range(maxinv)}
        fn = d.analyze(ll, loops, fname, lambda: [], invs, no_grammar)
        objs = objects(params)
        d.add_var_objects(objs)
        if assume:
            d.add_precondition({o.var_name(): o for o in objs}[assume[1]] <= assume[2])
        fn(*objs, uninterp_fns=list(uninterp))
    return d


def native_lib(d, base, source, lang, flags=()):
    src = os.path.join(d, f"{base}.native.{lang}")
    so = os.path.join(d, f"{base}.so")
    with open(src, "w") as f:
        f.write(source)
    sh(CLANG[lang] + ["-O0", "-w", "-shared", "-fPIC", *flags, src, "-o", so])
    return ctypes.CDLL(so)
