"""llmlift_scripts in a scratch directory (it rewrites its own dsl.py), with the network clients stubbed."""
import ast
import os
import shutil
import sys
import types

from mc import env, irsem

_AT = None  # (pid, directory)


def setup():
    """Per process: a private copy of /repo/llmlift_scripts that `import llmlift_scripts` finds; cwd is its parent."""
    global _AT
    if _AT is not None and _AT[0] == os.getpid():
        os.chdir(_AT[1])
        return _AT[1]
    d = env.scratch()
    shutil.copytree(os.path.join(env.REPO, "llmlift_scripts"), os.path.join(d, "llmlift_scripts"),
                    ignore=shutil.ignore_patterns("__pycache__"))
    for m in [m for m in sys.modules if m.split(".")[0] == "llmlift_scripts"]:
        del sys.modules[m]
    sys.path.insert(0, d)
    env.COPIES.append(d)
    os.chdir(d)
    _AT = (os.getpid(), d)
    return d


def stubs():
    """Stand-ins for the clients of the language models and for dotenv; returns the object to script them with."""
    box = types.SimpleNamespace(reply=None, calls=[])

    def mod(name, **kw):
        m = types.ModuleType(name)
        m.__dict__.update(kw)
        sys.modules[name] = m
        return m

    def ask(kind, messages):
        box.calls.append((kind, messages))
        return box.reply(kind, messages)

    class Anthropic:
        def __init__(self, *a, **k):
            self.messages = types.SimpleNamespace(create=self.create)

        def create(self, *, messages, **k):
            return types.SimpleNamespace(content=[types.SimpleNamespace(text=ask("claude", messages))])

    class OpenAI:
        def __init__(self, *a, **k):
            self.chat = types.SimpleNamespace(completions=types.SimpleNamespace(create=self.create))

        def create(self, *, messages, n=1, **k):
            text = ask("gpt", messages)
            return types.SimpleNamespace(choices=[types.SimpleNamespace(message=types.SimpleNamespace(content=text))])

    class GenerativeModel:
        def __init__(self, *a, **k):
            pass

        def start_chat(self, history=()):
            return types.SimpleNamespace(
                send_message=lambda parts: types.SimpleNamespace(text=ask("gemini", [*history, {"role": "user", "parts": parts}])))

    google = mod("google")
    google.generativeai = mod("google.generativeai", GenerativeModel=GenerativeModel, configure=lambda **k: None)
    mod("anthropic", Anthropic=Anthropic)
    mod("openai", OpenAI=OpenAI)
    mod("dotenv", load_dotenv=lambda *a, **k: None)
    return box


class Outside(Exception):
    """Python evaluates something outside the domain on which the IR is meant to agree."""


def _get(x, i):
    if not 0 <= i < len(x):
        raise Outside
    return x[i]


def _slice(x, lo, hi):
    lo = 0 if lo is None else lo
    hi = len(x) if hi is None else hi
    if not 0 <= lo <= hi <= len(x):
        raise Outside
    return x[lo:hi]


def _div(a, b):
    if b <= 0:
        raise Outside
    return a // b


def _mod(a, b):
    if b <= 0:
        raise Outside
    return a % b


class _Guard(ast.NodeTransformer):
    def visit_arg(self, node):
        node.annotation = None
        return node

    def visit_FunctionDef(self, node):
        node.returns = None
        return self.generic_visit(node)

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.slice, ast.Slice):
            none = ast.Constant(None)
            args = [node.value, node.slice.lower or none, node.slice.upper or none]
            if node.slice.step is not None:
                return node
            return ast.Call(ast.Name("_slice", ast.Load()), args, [])
        return ast.Call(ast.Name("_get", ast.Load()), [node.value, node.slice], [])

    def visit_BinOp(self, node):
        self.generic_visit(node)
        for op, f in ((ast.FloorDiv, "_div"), (ast.Mod, "_mod")):
            if isinstance(node.op, op):
                return ast.Call(ast.Name(f, ast.Load()), [node.left, node.right], [])
        return node


def run_python(source, base=None):
    """Namespace of a solution run by Python itself, with guards on the domain."""
    tree = ast.fix_missing_locations(_Guard().visit(ast.parse(source)))
    ns = dict(base or {})
    ns.update(_get=_get, _slice=_slice, _div=_div, _mod=_mod)
    exec(compile(tree, "solution", "exec"), ns)
    return ns


class ClosureSem(irsem.Sem):
    """Function definitions in argument position are closures over their environment."""

    def compile(self, e):
        from metalift import ir

        if isinstance(e, (ir.FnDecl, ir.FnDeclRecursive)):
            params = [a.name() for a in e.arguments()]
            code = self.compile(e.body())
            return lambda env: lambda *v: code({**env, **dict(zip(params, v, strict=True))})
        return super().compile(e)
