"""E02: reports fail exactly when something is wrong; outcomes are counted right."""
import contextlib
import io
import os
import re

from ..symex import and_, not_, or_
from . import core
from .values import show

SYMS = ("f", "g.f", "")


def cases(tier):
    out = [("item", a, b) for a in range(3) for b in range(3)]
    out += [("trace", a, b) for a in range(3) for b in range(3)]
    out += [("error", k, 0) for k in range(3)]
    out += [("known", "E02-trace-length", i) for i in range(2)]
    out += [("results", n, v) for n in range(4) for v in (0, 1)]
    out += [("order", 0, 0), ("config", 0, 0)]
    out += [("run", n, k) for n in (1, 2, 3) for k in ("plain", "env", "crash", "lost", "seq")]
    if tier != "quick":
        out += [("trace", 3, b) for b in range(4)] + [("trace", b, 3) for b in range(3)] + [("results", 4, 0)]
    return out


def value(p, tag, kind=0):
    if kind == 0:
        return p.int(tag)
    if kind == 1:
        return core.tensor(p, [p.real(tag)], (1,))
    return (p.int(tag + "a"), [p.int(tag + "b")])


def item(p, F, tag, nin, kind):
    return F.TraceItem(symbol=SYMS[p.choice(2, tag)], inputs=[value(p, f"{tag}i{i}", kind) for i in range(nin)],
                       output=value(p, f"{tag}o", kind))


def specs(pairs):
    from .values import spec

    ok, bad = True, False
    for a, b in pairs:
        x, y = spec(a, b)
        ok, bad = and_(ok, x), or_(bad, y)
    return ok, bad


def item_spec(a, b):
    if a.symbol != b.symbol or len(a.inputs) != len(b.inputs):
        return False, True
    return specs(list(zip(a.inputs, b.inputs)) + [(a.output, b.output)])


def trace_spec(t, g, probe=False):
    if len(t) != len(g):
        # finding E02-trace-length: only the common part is compared
        return False, True if probe else trace_spec(t[:len(g)], g[:len(t)])[1]
    ok, bad = True, False
    for a, b in zip(t, g):
        x, y = item_spec(a, b)
        ok, bad = and_(ok, x), or_(bad, y)
    return ok, bad


def judge(p, rep, ok, bad, what, shown):
    if rep.failed:
        p.prove(not_(ok), f"{what}: reported as failing although everything agrees: {shown}")
        p.prove(bool(rep.error_str().strip()), f"{what}: failing without an explanation: {shown}")
    else:
        p.prove(not_(bad), f"{what}: reported as passing although something differs: {shown}")


def result(F, name, trace=None, golden=None, ce=None, re_=None):
    return F.TestResult(unique_name=name, compilation_error=ce, runtime_error=re_, trace=trace, golden_trace=golden)


def run(p, case):
    R, F = core.module("reporting"), core.module("framework")
    what, a, b = case
    E = R.ErrorContext.empty()
    if what == "known":
        x = F.TraceItem("f", [1], 2)
        t, g = [([x], [x, x]), ([x, x], [x])][b]
        return judge(p, R.SingleTestReport(result(F, "t", t, g), E), *trace_spec(t, g, True), f"trace of {len(t)} calls against {len(g)}", "")
    if what == "item":
        k = p.choice(3, "kind")
        x, y = item(p, F, "v", a, k), item(p, F, "g", b, k)
        return judge(p, R.TraceItemReport(x, y, E), *item_spec(x, y), "trace item", f"{show(x)} golden {show(y)}")
    if what == "trace":
        nin = p.choice(2, "nin")
        t = [item(p, F, f"v{i}", nin, 0) for i in range(a)]
        g = [item(p, F, f"g{i}", nin, 0) for i in range(b)]
        return judge(p, R.SingleTestReport(result(F, "t", t, g), E), *trace_spec(t, g), f"trace of {a} calls against {b}", f"{show(t)} golden {show(g)}")
    if what == "error":
        e = [(None, "boom"), ("boom", None), ("boom", "bang")][a]
        r = R.SingleTestReport(result(F, "t", ce=e[0], re_=e[1]), E)
        p.prove(bool(r.failed), "a test that did not compile or run is reported as passing")
        return p.prove("boom" in r.error_str(), "the error of a failed test is not shown")
    if what == "results":
        return results(p, R, F, a, bool(b))
    if what == "order":
        # the dictionary order of a reported failure does not matter
        return results(p, R, F, 2, True, names=("t1", "t0"))
    if what == "config":
        return results(p, R, F, 1, False, config="cfg")
    if what == "run":
        return runs(p, F, a, b)
    raise KeyError(what)


def results(p, R, F, n, verbose, names=None, config=""):
    names = names or tuple(f"t{i}" for i in range(n))
    rs, fails = [], []
    xfail = {"unrelated"}
    for i, nm in enumerate(names):
        k = p.choice(4, nm)
        if k == 0:  # agrees or not, the solver decides
            x, y = p.int(nm + "v"), p.int(nm + "g")
            bad = not_(x == y)
            rs.append(result(F, nm, [F.TraceItem("f", [], x)], [F.TraceItem("f", [], y)]))
        else:
            bad = k != 3
            rs.append(result(F, nm, *( [[], []] if k == 3 else [None, None]), ce="no" if k == 1 else None, re_="no" if k == 2 else None))
        if p.choice(2, nm + "x"):
            xfail.add(nm)
        fails.append(bad)
    buf = io.StringIO()
    keep, keepx = list(rs), set(xfail)
    with contextlib.redirect_stdout(buf):
        unexpected = R.report_results(rs, xfail, verbose, config)
    text = buf.getvalue()
    outs = []
    want = False
    for nm, bad in zip(names, fails):
        got = re.findall(rf'^(X?PASS|X?FAIL) - "{nm}"$', text, re.M)
        if len(got) != 1:
            p.prove(False, f"test {nm} has the outcomes {got} in the report\n{text}")
        o = got[0]
        outs.append(o)
        x = nm in keepx
        p.prove(o.startswith("X") == x, f"test {nm} ({'an' if x else 'no'} expected failure) is reported as {o}")
        says = o in ("FAIL", "XFAIL")
        p.prove(bad if says else not_(bad), f"test {nm} is reported as {o}")
        want = or_(want, or_(and_(bad, not x), and_(not_(bad), x)))
    p.prove(want if unexpected else not_(want), f"report_results returns {unexpected} for {list(zip(names, outs))}")
    for o, label in (("PASS", "Passed"), ("FAIL", "Failed"), ("XFAIL", "Expectedly Failed"), ("XPASS", "Unexpectedly Passed")):
        m = re.findall(rf"^    {label}: (\d+)$", text, re.M)
        p.prove([int(c) for c in m] == ([outs.count(o)] if o in outs else []), f"the summary counts {m} of {label}, outcomes {outs}")
    for nm, o in zip(names, outs):
        listed = len(re.findall(rf'^    (?:FAIL|XPASS) - "{nm}"$', text, re.M))
        p.prove(listed == (1 if o in ("FAIL", "XPASS") else 0), f"test {nm} ({o}) is listed {listed} times among the unexpected outcomes")
    p.prove(rs == keep and xfail == keepx, "report_results changed its arguments") if not any(type(b) is not bool for b in fails) else None


# ---------------------------------------------------------------- run_tests


class Handles:
    def __init__(self, res, steps):
        self.res, self.steps = res, steps

    def ready(self):
        self.steps -= 1
        return self.steps < 0

    def wait(self, timeout=None):
        pass

    def get(self, timeout=None):
        return list(self.res)


class Proc:
    exitcode = None


class MP:
    def __init__(self, p, lost, crash):
        self.p, self.lost, self.crash = p, lost, crash
        self.n = p.int("cpus", 1, 512)
        self.pools, self.ran = [], []

    def cpu_count(self):
        return self.n

    def Pool(self, n):
        self.pools.append(n)
        mp = self

        class Pool:
            _pool = [Proc(), Proc()]

            def starmap_async(self, fn, args):
                res = [r for i, r in enumerate([fn(*a) for a in args]) if i not in mp.lost]
                steps = 0
                if mp.crash is not None:
                    steps = 3
                    self._pool[mp.crash].exitcode = mp.p.int("exit code", 1, 255) * (1 if mp.p.choice(2, "signal") else -1)
                return Handles(res, steps)

        return Pool()


class Sig:
    SIGALRM = 14

    def __init__(self):
        self.log = []

    def signal(self, n, h):
        self.handler = h

    def alarm(self, n):
        self.log.append(n)


class Config:
    def __init__(self):
        self.compiled = []

    def compile(self, program, verbose=False):
        self.compiled.append(program)
        return program

    def run(self, artifact, trace):
        return trace


def runs(p, F, n, kind):
    """Every test gets exactly one result, in the order of the names."""
    perm = {1: [(0,)], 2: [(0, 1), (1, 0)], 3: [(0, 1, 2), (2, 0, 1), (1, 2, 0), (2, 1, 0)]}[n]
    names = [f"t{i}" for i in perm[p.choice(len(perm), "order")]]
    lost = set()
    if kind == "lost":
        lost = {i for i in range(n) if p.choice(2, f"lost{i}")}
    mp = MP(p, lost, p.choice(2, "which") if kind == "crash" else None)
    env = ("0", "1", "2", "-3", "512", "many")[p.choice(6, "env")] if kind == "env" else None
    bad = {i for i in range(n) if kind == "plain" and p.choice(2, f"bad{i}")}
    called = []

    def test(nm):
        def factory():
            return nm

        def invoke(tracer, tu):
            called.append(nm)
            if int(nm[1:]) in bad:
                raise RuntimeError("does not run")
        return F.Test(unique_name=nm, program_factory=factory, program_invoker=invoke, timeout_seconds=60)

    tests = [test(nm) for nm in names]
    given = list(tests)
    saved = {k: F.__dict__[k] for k in ("mp", "signal")}
    e0 = os.environ.pop("TORCH_MLIR_TEST_CONCURRENCY", None)
    v0 = os.environ.pop("TORCH_MLIR_TEST_VERBOSE", None)
    import torch

    grad = torch.is_grad_enabled()
    res = stopped = None
    try:
        F.mp, F.signal = mp, Sig()
        if env is not None:
            os.environ["TORCH_MLIR_TEST_CONCURRENCY"] = env
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            try:
                res = F.run_tests(tests, Config(), sequential=kind == "seq")
            except SystemExit as e:
                stopped = e.code
            except ValueError:
                if env == "many":
                    return
                raise
    finally:
        F.__dict__.update(saved)
        torch.set_grad_enabled(grad)
        for k, v in (("TORCH_MLIR_TEST_CONCURRENCY", e0), ("TORCH_MLIR_TEST_VERBOSE", v0)):
            os.environ.pop(k, None)
            if v is not None:
                os.environ[k] = v
    for m in mp.pools:
        p.prove(and_(m >= 1, m <= n), f"{n} tests are run by {m} processes")
        if env is not None and env.isdigit() and int(env) > 0:
            p.prove(m <= int(env), f"TORCH_MLIR_TEST_CONCURRENCY={env} but {m} processes")
    if kind == "crash" and mp.pools:
        return p.prove(stopped not in (None, 0), "a testing process died and the run goes on")
    p.prove(stopped is None, f"the run stops with {stopped}")
    got = [r.unique_name for r in res]
    p.prove(got == sorted(names), f"results {got} for the tests {names}")
    for r in res:
        i = int(r.unique_name[1:])
        p.prove(r.unique_name in called, f"test {r.unique_name} was not run")
        pos = sorted(names).index(r.unique_name)
        should = i in bad or (pos in lost and bool(mp.pools))
        err = r.compilation_error is not None or r.runtime_error is not None
        p.prove(err == should, f"test {r.unique_name}: {'an' if err else 'no'} error in its result")
    p.prove(tests == given, "run_tests changed the list of tests")
