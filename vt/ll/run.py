"""Compiles a C++ harness together with code cut from /repo, decides it
symbolically, and replays counterexamples on the natively compiled program."""
import os
import re
import shutil
import subprocess
import tempfile

from ..decide import Unsupported
from ..symex import BoundExceeded, Counterexample, Inconclusive, PathAbort, Stats, explore
from .exec import Machine, Trap
from .module import Module

HERE = os.path.dirname(os.path.abspath(__file__))
CPP = os.path.join(os.path.dirname(HERE), "cpp")
FLAGS = ["-std=c++17", "-fno-exceptions", "-fno-rtti", "-fwrapv", "-fno-threadsafe-statics", "-w",
         "-I" + os.path.join(CPP, "mini"), "-isystem", "/usr/include/llvm-18", "-isystem", "/usr/include/llvm-c-18", "-include", os.path.join(CPP, "mini", "cfg.h"), "-fno-strict-aliasing", "-fno-math-errno"]
IRFLAGS = ["-O1", "-fno-vectorize", "-fno-slp-vectorize", "-ffp-contract=off", "-S", "-emit-llvm", "-Xclang", "-no-opaque-pointers"][:-2]


class CompileError(Exception):
    pass


def compile_ir(src, out, extra=()):
    r = subprocess.run(["clang++", *FLAGS, *IRFLAGS, *extra, src, "-o", out], capture_output=True, text=True)
    if r.returncode:
        raise CompileError(r.stderr)
    return out


def compile_native(src, out, extra=()):
    r = subprocess.run(["clang++", *FLAGS, "-O1", "-ffp-contract=off", "-Wl,--unresolved-symbols=ignore-all", *extra, src, os.path.join(CPP, "native.cpp"), "-o", out],
                       capture_output=True, text=True)
    if r.returncode:
        raise CompileError(r.stderr)
    return out


def native_replay(src, fn, cex, extra=(), timeout=60):
    """What the compiled program reports on the counterexample's values, or None."""
    d = tempfile.mkdtemp(prefix="vtll")
    try:
        exe = compile_native(src, os.path.join(d, "a.out"), [f"-DVT_ENTRY={fn}", *extra])
        with open(os.path.join(d, "in"), "w") as f:
            for c in cex.choices:
                f.write(f"choice {c}\n")
            for k, v in cex.model.items():
                if isinstance(v, float):
                    f.write(f"f {k.replace(' ', '_')} {v.hex() if v == v and abs(v) != float('inf') else v}\n")
                else:
                    f.write(f"i {k.replace(' ', '_')} {int(v)}\n")
        try:
            r = subprocess.run([exe, os.path.join(d, "in")], capture_output=True, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            return f"does not end within {timeout} s"
        if r.returncode == 0:
            return None
        m = re.search(r"^VT-FAIL: (.*)$", r.stdout, re.M)
        if m:
            return m.group(1)
        if r.returncode < 0 or r.returncode >= 128:
            return f"crashes (signal {-r.returncode if r.returncode < 0 else r.returncode - 128})"
        if r.returncode == 127:
            raise Unsupported("the counterexample's program could not be linked: " + r.stderr[-200:])
        return f"exit {r.returncode}"
    finally:
        shutil.rmtree(d, ignore_errors=True)


def decide(mod, src, fn, stats, label, extra=(), known=None, **kw):
    """dict(status, what, replay) for the harness function `fn`."""

    def body(p):
        M = None
        try:
            M = Machine(mod, p)
            M.call(fn, [])
            stats.reached += getattr(M, "proved", 0)
        except Trap as t:
            raise Counterexample(str(t), p.model()) from None

    hit, missed = [], []

    def on_cex(c):
        w = native_replay(src, fn, c, extra)
        if w is None:
            missed.append(c)
            return len(missed) > 3
        hit.append((w, c))
        return True

    kw.setdefault("max_paths", 5000)
    kw.setdefault("max_seconds", 150)
    kw.setdefault("timeout_ms", 10000)
    try:
        explore(body, stats=stats, on_cex=on_cex, **kw)
    except (BoundExceeded, Inconclusive, Unsupported) as e:
        if not hit:
            return dict(status="inconclusive", what=f"{label}: {type(e).__name__} {e}")
    if hit:
        w, c = hit[0]
        return dict(status="cex", msg=w, what=f"{label}: {w} [symbolically: {c.what}]; values {c.model}",
                    replay=dict(case=label, what=w, values=c.model, choices=c.choices))
    if missed:
        c = missed[0]
        return dict(status="spurious", what=f"{label}: {c.what}; values {c.model}")
    return dict(status="ok", what="")
