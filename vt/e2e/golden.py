"""E03: traces hold what happened; every test ends with exactly one kind of outcome."""
import contextlib
import io

import torch

from ..symex import and_, not_, or_
from . import core
from .reports import Sig
from .values import show

BEH = ("fresh", "same", "inplace", "state", "pair", "dict", "pack", "old", "int", "list", "nested")
TARGETS = ("forward", "other", "sub.forward", "sub.sub.forward")


def cases(tier):
    out = [("golden", a, b) for a in BEH for b in BEH]
    out += [("config", c, (a, b)) for c in ("native_torch", "torchscript") for a in BEH for b in BEH]
    out += [("wrong", c, a) for c in ("native_torch", "torchscript") for a in BEH]
    out += [("targets", c, 0) for c in ("golden", "native_torch", "torchscript")]
    out += [("outcome", k, e) for k in ("factory", "invoker", "call", "compile", "factory2", "run", "none") for e in ("Runtime", "Timeout", "Assert", "Stop")]
    out += [("clone", k, 0) for k in range(9)]
    out += [("known", "E03-output-alias", 0), ("known", "E03-native-submodule", 0), ("known", "E03-timeout-text", 0)]
    out += [("convert", k, 0) for k in range(9)]
    out += [("register", n, 0) for n in (1, 2, 3)]
    if tier != "quick":
        out += [("golden3", a, b) for a in BEH for b in BEH]
    return out


def T(p, *elems):
    return core.tensor(p, elems, (len(elems),), torch.int64)


def snap(x):
    """An independent copy."""
    if isinstance(x, (core.VTensor, torch.Tensor)):
        return x.clone()
    if isinstance(x, tuple):
        return tuple(snap(y) for y in x)
    if isinstance(x, list):
        return [snap(y) for y in x]
    if isinstance(x, dict):
        return {k: snap(v) for k, v in x.items()}
    return x


def same(a, b):
    ta, tb = (isinstance(x, (core.VTensor, torch.Tensor)) for x in (a, b))
    if ta or tb:
        if not (ta and tb) or tuple(a.shape) != tuple(b.shape) or a.dtype != b.dtype:
            return False
        ea, eb = (x.elems if isinstance(x, core.VTensor) else x.reshape(-1).tolist() for x in (a, b))
        return and_(True, *[x == y for x, y in zip(ea, eb)])
    for t in (tuple, list, dict):
        if isinstance(a, t) or isinstance(b, t):
            if not (isinstance(a, t) and isinstance(b, t)) or len(a) != len(b):
                return False
            if t is dict:
                return list(a) == list(b) and and_(True, *[same(a[k], b[k]) for k in a])
            return and_(True, *[same(x, y) for x, y in zip(a, b)])
    return and_(a == b)


class Program:
    """A stateful program; `plan` says what each call does."""

    def __init__(self, p, plan, delta=0, at=None, depth=0, shared=None):
        self.shared = shared or dict(n=0, state=T(p, p.int("s0", -99, 99)))
        self.p, self.plan, self.delta, self.at = p, plan, delta, at
        self.sub = Program(p, plan, delta, at, depth + 1, self.shared) if depth < 2 else None

    def __call__(self, x, *a):
        return self.forward(x, *a)

    def forward(self, x, *rest):
        s = self.shared
        i = s["n"]
        s["n"] += 1
        b, st = self.plan[i], s["state"]
        if isinstance(x, list):
            x = x[0]
        d = self.delta if i == self.at else 0
        if b == "fresh":
            return x + 1 + d
        if b == "same":
            return x if i != self.at else x + d
        if b == "inplace":
            return x.add_(1 + d)
        if b == "state":
            return st.add_(x + d)
        if b == "pair":
            st.add_(x)
            return (x if i != self.at else x + d, st)
        if b == "dict":
            st.add_(x + d)
            return {"s": st, "n": i}
        if b == "list":
            st.add_(x + d)
            return [st, st]
        if b == "nested":
            st.add_(x + d)
            return (i, ([st], "z"))
        if b == "pack":
            return (st.add_(x + d),)
        if b == "old":
            o = x.clone() + d
            x.add_(7)
            st.add_(3)
            return o
        if b == "int":
            st.add_(x)
            return i + d
        raise KeyError(b)

    other = forward

    def to(self, *a):
        return self

    def eval(self):
        return self


def path(m, dotted):
    for part in dotted.split("."):
        m = getattr(m, part)
    return m


def make(p, F, plan, targets, args, post, log, name="t", delta=0, at=None):
    made = []

    def factory():
        # the first program gives the golden trace, the next one is compiled
        m = Program(p, plan, *((delta, at) if made else ()))
        made.append(m)
        return m

    def invoke(tracer, tu):
        prev = None
        mine = T(p, p.int("m0", -99, 99))
        for i, (t, a, q) in enumerate(zip(targets, args, post)):
            x = T(p, p.int(f"x{i}", -99, 99))
            if a == 1 and isinstance(prev, (core.VTensor, torch.Tensor)):
                x = prev
            elif a == 2:
                x = mine
            xs = [[x]] if a == 3 else [x]
            before = snap(xs)
            out = path(tracer, t)(*xs)
            log.append((t, before, snap(out), out))
            if q == 1:
                x.add_(100)
            if q == 2 and isinstance(out, (core.VTensor, torch.Tensor)):
                out.add_(1000)
            prev = out

    return F.Test(unique_name=name, program_factory=factory, program_invoker=invoke, timeout_seconds=17)


def check_trace(p, tr, log, what, inputs=True):
    p.prove(len(tr) == len(log), f"{what}: {len(tr)} items for {len(log)} calls")
    for i, (it, (t, a, o, live)) in enumerate(zip(tr, log)):
        p.prove(it.symbol == t, f"{what}: call {i} of {t} is recorded as {it.symbol!r}")
        if inputs:
            p.prove(same(list(it.inputs), a), f"{what}: inputs of call {i} recorded as {show(it.inputs)}, they were {show(a)}")
        ok = same(it.output, o)
        if not p.__dict__.get("probe"):
            ok = or_(ok, same(it.output, live))  # finding E03-output-alias
        p.prove(ok, f"{what}: output of call {i} recorded as {show(it.output)}, it was {show(o)}")


def quiet():
    s = contextlib.ExitStack()
    s.enter_context(contextlib.redirect_stdout(io.StringIO()))
    s.enter_context(contextlib.redirect_stderr(io.StringIO()))
    return s


@contextlib.contextmanager
def signals(F):
    old, F.signal = F.signal, Sig()
    try:
        yield F.signal
    finally:
        F.signal = old


def config(name):
    M = core.module("configs." + name)
    c = [v for k, v in M.__dict__.items() if k.endswith("TestConfig") and k != "TestConfig"][0]()
    c.compile = lambda program, verbose=False: program
    return c


def run(p, case):
    F = core.module("framework")
    what, a, b = case
    p.probe = what == "known"
    if what == "known":
        log = []
        if a == "E03-output-alias":
            tr = F.generate_golden_trace(make(p, F, ["state", "state"], ["forward"] * 2, [0, 0], [0, 0], log))
            return check_trace(p, tr, log, "golden trace of a program that updates and returns its state")
        if a == "E03-native-submodule":
            t = make(p, F, ["fresh"], ["sub.forward"], [0], [0], log)
            return outcome_ok(p, F, t, config("native_torch"), log, "native_torch run of sub.forward")
        return outcome(p, F, "run", "Timeout", 1)
    if what in ("golden", "golden3"):
        plan = [a, b] if what == "golden" else [a, b, BEH[p.choice(len(BEH), "third")]]
        n = len(plan)
        args = [p.choice(4, f"arg{i}") for i in range(n)]
        post = [p.choice(3, f"post{i}") for i in range(n)] if n == 2 else [0] * n
        log = []
        tr = F.generate_golden_trace(make(p, F, plan, ["forward"] * n, args, post, log))
        return check_trace(p, tr, log, f"golden trace of {plan}")
    if what == "targets":
        # finding E03-native-submodule: that config cannot call into submodules
        tg = [TARGETS[p.choice(2 if a == "native_torch" else len(TARGETS))] for _ in range(2)]
        log = []
        t = make(p, F, ["state", "fresh"], tg, [0, 0], [0, 0], log)
        if a == "golden":
            return check_trace(p, F.generate_golden_trace(t), log, f"golden trace of calls {tg}")
        return outcome_ok(p, F, t, config(a), log, f"{a} run of calls {tg}")
    if what == "config":
        log = []
        arg = 3 if p.choice(2, "arg") else 0
        t = make(p, F, list(b), ["forward"] * 2, [arg] * 2, [0, 0], log)
        return outcome_ok(p, F, t, config(a), log, f"{a} run of {b}")
    if what == "wrong":
        log = []
        d = p.int("delta", -50, 50)
        at = p.choice(2, "at")
        plan = [b, "fresh"] if at == 0 else ["fresh", b]
        t = make(p, F, plan, ["forward"] * 2, [0, 0], [0, 0], log, delta=d, at=at)
        with signals(F), quiet():
            r = F.compile_and_run_test(t, config(a))
        R = core.module("reporting")
        rep = R.SingleTestReport(r, R.ErrorContext.empty())
        p.prove(not_(d == 0) if rep.failed else (d == 0), f"a program off by {d} in call {at} ({b}) is reported as {'failing' if rep.failed else 'passing'}")
        return
    if what == "outcome":
        return outcome(p, F, a, b)
    if what == "clone":
        return clone(p, F, a)
    if what == "convert":
        return convert(p, a)
    if what == "register":
        return register(p, a)
    raise KeyError(what)


def fields(p, r, what):
    n = [r.compilation_error is not None, r.runtime_error is not None, r.trace is not None]
    p.prove(sum(n) == 1 and (r.golden_trace is None) == (r.trace is None), f"{what}: result has compilation error {n[0]}, runtime error {n[1]}, trace {n[2]}")


def outcome_ok(p, F, t, cfg, log, what):
    with signals(F) as s, quiet():
        r = F.compile_and_run_test(t, cfg)
    fields(p, r, what)
    err = r.compilation_error or r.runtime_error
    p.prove(r.trace is not None, f"{what} fails: {(err or '')[-300:]}")
    check_trace(p, r.golden_trace, log, what + ", golden trace", inputs=False)
    check_trace(p, r.trace, log, what + ", trace", inputs=False)
    R = core.module("reporting")
    rep = R.SingleTestReport(r, R.ErrorContext.empty())
    p.prove(not rep.failed, f"{what} is reported as failing: {rep.error_str() if rep.failed else ''}")
    timer(p, s, what)


def timer(p, s, what):
    p.prove(bool(s.log) and s.log[0] == 17, f"{what}: the timer is set to {s.log[:1]}, the test allows 17 s")
    p.prove(bool(s.log) and s.log[-1] == 0, f"{what}: the timer is still running afterwards ({s.log})")


class Stop(Exception):
    pass


def outcome(p, F, where, kind, kind2=None):
    """Whatever raises, one result of the right kind results and the timer stops."""
    err = {"Runtime": RuntimeError, "Timeout": TimeoutError, "Assert": AssertionError, "Stop": Stop}[kind]
    n = [0]

    def boom(at):
        if where == at:
            raise err("boom " + at)

    class M:
        def forward(self, x):
            boom("call")
            return x

    def factory():
        n[0] += 1
        boom("factory" if n[0] == 1 else "factory2")
        return M()

    def invoke(tracer, tu):
        tracer.forward(p.int("x"))
        boom("invoker")

    class C:
        def compile(self, program, verbose=False):
            boom("compile")
            return program

        def run(self, artifact, trace):
            boom("run")
            return [F.TraceItem(i.symbol, i.inputs, artifact.forward(*i.inputs)) for i in trace]

    secs = p.int("timeout", 1, 9999)
    t = F.Test("tt", factory, invoke, secs)
    with signals(F) as s, quiet():
        r = F.compile_and_run_test(t, C())
    what = f"{err.__name__} in {where}"
    fields(p, r, what)
    p.prove(r.unique_name == "tt", f"{what}: result is for {r.unique_name}")
    if where == "none":
        return p.prove(r.trace is not None, "a test that runs has no trace")
    if where == "run":
        p.prove(r.runtime_error is not None, f"{what}: no runtime error reported")
    else:
        p.prove(r.compilation_error is not None, f"{what}: no compilation error reported")
    e = r.compilation_error or r.runtime_error
    if kind == "Timeout":
        p.prove("timed out" in e and (kind2 is None or "{" not in e), f"{what}: explained as {e!r}")
    else:
        p.prove("boom " + where in e, f"{what}: the exception is not shown: {e[-200:]!r}")
    p.prove(bool(s.log) and (s.log[0] == secs), f"{what}: timer set to {s.log[:1]} instead of {secs}")
    p.prove(s.log[-1] == 0, f"{what}: the timer is still running afterwards ({s.log})")


def values(p, k):
    t, u = T(p, p.int("a", -99, 99), p.int("b", -99, 99)), T(p, p.int("c", -99, 99))
    return [lambda: t, lambda: (t, u), lambda: [t, [u]], lambda: {"k": t, "j": (u, 1)}, lambda: (t, t), lambda: ([], (), {}),
            lambda: (p.int("i"), p.real("r"), p.boolean("q"), "s"), lambda: {"a": {"b": [t]}}, lambda: [(u,), (t,)]][k]()


def tensors(x):
    if isinstance(x, (core.VTensor, torch.Tensor)):
        return [x]
    if isinstance(x, dict):
        x = list(x.values())
    if isinstance(x, (tuple, list)):
        return [t for y in x for t in tensors(y)]
    return []


def clone(p, F, k):
    v = values(p, k)
    before = snap(v)
    for f in (F.clone_torch_script_value, lambda x: F.clone_trace([F.TraceItem("s", [x], x)])[0].output,
              lambda x: F.clone_trace([F.TraceItem("s", [x], 1)])[0].inputs[0]):
        c = f(v)
        p.prove(same(c, before), f"the clone of {show(before)} is {show(c)}")
        for t in tensors(c):
            t.add_(5)
        p.prove(same(v, before), f"changing the clone of {show(before)} changes the original to {show(v)}")
        c = f(v)
        for t in tensors(v):
            t.add_(9)
        p.prove(same(c, before), f"changing the original {show(before)} changes the clone to {show(c)}")
        v = snap(before)


def convert(p, k):
    """To numpy and back is the identity."""
    U = core.module("configs.utils")
    v = values(p, k)
    before = snap(v)
    import numpy as np

    class NP:
        ndarray = (np.ndarray, core.VArray)

        def __getattr__(self, n):
            return getattr(np, n)

    old, U.np = U.np, NP()
    try:
        n = U.recursively_convert_to_numpy(v)

        def leaves(x):
            if isinstance(x, dict):
                x = list(x.values())
            if isinstance(x, (tuple, list)):
                return [t for y in x for t in leaves(y)]
            return [x]

        p.prove(not any(isinstance(x, (core.VTensor, torch.Tensor)) for x in leaves(n)), "tensors are left by the conversion to numpy")
        p.prove(same(U.recursively_convert_from_numpy(n), before), f"{show(before)} comes back as {show(U.recursively_convert_from_numpy(n))}")
        p.prove(same(v, before), "the conversion changes its argument")
    finally:
        U.np = old


def register(p, n):
    """Registered tests keep their name, program, invoker and time limit; a name is registered once."""
    G = core.module("registry")
    G.GLOBAL_TEST_REGISTRY.clear()
    G._SEEN_UNIQUE_NAMES.clear()
    want, seen = [], set()
    for i in range(n):
        nm = ("a", "b")[p.choice(2, "name")]
        secs = p.int(f"s{i}", 1, 999) if p.choice(2, "limit") else None
        fac = lambda: None

        def f(module, tu):
            pass
        f.__name__ = nm
        try:
            r = G.register_test_case(fac, **({} if secs is None else dict(timeout_seconds=secs)))(f)
        except Exception as e:
            p.prove(nm in seen, f"registering {nm} is refused: {e}")
            continue
        p.prove(nm not in seen, f"{nm} is registered twice")
        seen.add(nm)
        p.prove(r is f, "the decorator does not return the function")
        want.append((nm, fac, f, secs))
    got = G.GLOBAL_TEST_REGISTRY
    p.prove(len(got) == len(want), f"{len(got)} registered tests instead of {len(want)}")
    for t, (nm, fac, f, secs) in zip(got, want):
        p.prove(t.unique_name == nm and t.program_factory is fac and t.program_invoker is f, f"test {nm} is registered as {t}")
        p.prove(t.timeout_seconds == secs if secs is not None else t.timeout_seconds > 0, f"time limit of {nm} is {t.timeout_seconds}")
