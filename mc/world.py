"""A controlled environment for the synthesis drivers: stand-ins for the Rosette and cvc5 processes and for time.

The stand-in of the racket process executes the output section of the emitted program as a sequence of atomic
events (a file appears, a part of it is on disk, it is complete, it is renamed, the process ends).  A schedule
says how many events happen at each point where the program under test observes or waits for its environment.
"""
import functools
import io
import os
import subprocess
import time

from mc.sexp import Str, Sym, read_all, show

REAL = (subprocess.Popen, subprocess.run, subprocess.check_output, subprocess.call, time.sleep)


class Hang(BaseException):
    """The program under test keeps waiting although nothing more can happen."""


@functools.lru_cache(64)
def outputs(text):
    """[(round, [("write", path, with_status) | ("rename", a, b)])] of an emitted program, in order."""
    body = "\n".join(l for l in text.split("\n") if not l.startswith("#lang"))
    rounds = []
    for f in read_all(body):
        if not isinstance(f, list) or not f:
            continue
        if str(f[0]) == "define" and isinstance(f[1], Sym) and isinstance(f[2], list) and f[2] and str(f[2][0]) == "synthesize":
            rounds.append((str(f[1]), [], f[2]))
        elif str(f[0]) in ("with-output-to-file", "rename-file-or-directory"):
            rounds[-1][1].append(f)
        elif str(f[0]) in ("begin", "when", "let", "if") and "with-output-to-file" in show(f):
            raise ValueError("the output section has a form this stand-in does not know: " + show(f)[:200])
    return rounds


class Racket:
    """The process started by Popen(["racket", file])."""

    def __init__(self, world, argv, **kw):
        self.world = world
        self.args = argv
        self.path = argv[-1]
        self.stdout, self.stderr = io.BytesIO(b""), io.BytesIO(b"")
        self.returncode = None
        self.pid = 999999999
        self.killed = False
        self.cwd = kw.get("cwd") or os.getcwd()
        self.events = world.script(self)
        world.processes.append(self)

    def step(self, n):
        for _ in range(n):
            if self.returncode is not None:
                return
            if not self.events:
                self.returncode = 0
                return
            ev = self.events.pop(0)
            ev()

    def poll(self):
        self.world.tick()
        return self.returncode

    def wait(self, timeout=None):
        if timeout is not None:
            self.world.tick()
            if self.returncode is None:
                raise subprocess.TimeoutExpired(self.args, timeout)
            return self.returncode
        while self.returncode is None:
            self.step(1)
        return self.returncode

    def communicate(self, input=None, timeout=None):
        self.wait(timeout)
        return b"", b""

    def terminate(self):
        self.killed = True
        if self.returncode is None:
            self.returncode = -15

    kill = terminate

    def send_signal(self, s):
        self.terminate()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.wait()


class World:
    def __init__(self, script, schedule=(), verifier=None, patience=40):
        self.script = script
        self.schedule = list(schedule)
        self.verifier = verifier
        self.processes = []
        self.ticks = 0
        self.idle = 0
        self.patience = patience

    def tick(self):
        self.ticks += 1
        live = [p for p in self.processes if p.returncode is None]
        if not live:
            self.idle += 1
            if self.idle > self.patience:
                raise Hang()
            return
        n = self.schedule.pop(0) if self.schedule else 1
        for p in live:
            p.step(n)

    # -- installation
    def popen(self, argv, *a, **kw):
        if isinstance(argv, (list, tuple)) and os.path.basename(str(argv[0])) == "racket":
            return Racket(self, list(argv), **kw)
        if self.verifier and isinstance(argv, (list, tuple)):
            r = self.verifier(list(argv))
            if r is not None:
                return Done(argv, r)
        return REAL[0](argv, *a, **kw)

    def run(self, argv, *a, **kw):
        if self.verifier and isinstance(argv, (list, tuple)):
            r = self.verifier(list(argv))
            if r is not None:
                out, err = r[1], r[2]
                if kw.get("text") or kw.get("universal_newlines") or kw.get("encoding"):
                    out, err = out.decode(), err.decode()
                if kw.get("check") and r[0]:
                    raise subprocess.CalledProcessError(r[0], argv, out, err)
                return subprocess.CompletedProcess(argv, r[0], out, err)
        return REAL[1](argv, *a, **kw)

    def sleep(self, s=0):
        self.tick()

    def __enter__(self):
        subprocess.Popen, subprocess.run, time.sleep = self.popen, self.run, self.sleep
        return self

    def __exit__(self, *a):
        subprocess.Popen, subprocess.run, _, _, time.sleep = REAL


class Done:
    """A finished process."""

    def __init__(self, argv, r):
        self.args, self.returncode = argv, r[0]
        self.stdout, self.stderr = io.BytesIO(r[1]), io.BytesIO(r[2])
        self.pid = 999999998
        self.out = (r[1], r[2])

    def poll(self):
        return self.returncode

    def wait(self, timeout=None):
        return self.returncode

    def communicate(self, input=None, timeout=None):
        return self.out

    def terminate(self):
        pass

    kill = terminate

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


def compositions(n, stutter=0):
    """Every way to split n events over consecutive observations; up to `stutter` observations see nothing."""
    def go(n, s):
        if n == 0:
            yield ()
            return
        if s:
            for r in go(n, s - 1):
                yield (0,) + r
        for k in range(1, n + 1):
            for r in go(n - k, s):
                yield (k,) + r
    return list(dict.fromkeys(go(n, stutter)))
