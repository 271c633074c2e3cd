"""A01: the compile entry points pass on exactly what the user asked for."""
import contextlib
import io
import os
import shutil
import sys
import tempfile
import types

import torch

from ..e2e import core as e2e
from ..symex import and_, ite, mkbool, not_, or_
from . import core

DT = (torch.float32, torch.int64, torch.bool, torch.float16)
LEGAL = (None, [], ["aten.a"], ["aten.b", "aten.a", "aten.b"])
OUT = ("raw", "RAW", "torch", "linalg-on-tensors", "LINALG_ON_TENSORS", "Linalg-On_Tensors", "tosa", "stablehlo", "STABLEHLO")
KIND = {"raw": "raw", "torch": "torch", "linalg-on-tensors": "linalg-on-tensors", "tosa": "tosa", "stablehlo": "stablehlo"}


def cases(tier):
    out = [("like", r, n) for r in range(4) for n in range(4)]
    out += [("args", k, n) for k in range(5) for n in range(3)]
    out += [("tracing", r, f) for r in range(3) for f in range(4)]
    out += [("script", o, l) for o in range(len(OUT)) for l in range(len(LEGAL))]
    out += [("fx", o, l) for o in range(len(OUT)) for l in range(len(LEGAL))]
    out += [("fxopts", k, o) for k in ("export", "stateless") for o in range(len(OUT))]
    out += [("pipeline", k, v) for k in ("ok", "run", "parse") for v in (0, 1)]
    out += [("output", 0, 0), ("bad", 0, 0)]
    return out


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()):
        yield


@contextlib.contextmanager
def scratch():
    """temporary files go to a directory of this check"""
    d = tempfile.mkdtemp(prefix="vt-api-")
    old, tempfile.tempdir = tempfile.tempdir, d
    try:
        yield d
    finally:
        tempfile.tempdir = old
        shutil.rmtree(d)


def run(p, case):
    globals()["do_" + case[0]](p, *case[1:])


def kind(o):
    return KIND[o.lower().replace("_", "-")]


def shape(p, tag, r, lo):
    return [p.int(f"{tag}{i}", lo, 2**40 if not getattr(p, "concrete", False) else None) for i in range(r)]


def example(p, tag, r, dt):
    """A tensor with solver-valued sizes."""
    sh = shape(p, tag, r, 0)
    if getattr(p, "concrete", False):
        return torch.empty(sh, dtype=dt, device="meta")
    return e2e.VTensor([], sh, dt)


def do_like(p, r, n):
    U = core.install()["utils"]
    t = example(p, "d", r, DT[p.choice(len(DT))])
    if r == 0 and n:
        return
    axes = [p.int(f"a{j}", -r, r - 1) for j in range(n)] if n < 3 else None
    ph = U.TensorPlaceholder.like(t, dynamic_axes=axes) if axes is not None else U.TensorPlaceholder.like(t)
    p.prove(len(ph.shape) == r and ph.dtype == t.dtype, f"a placeholder like a {t.dtype} tensor of rank {r} has shape {ph.shape}, dtype {ph.dtype}")
    for i in range(r):
        dyn = or_(False, *[or_(a == i, a == i - r) for a in axes or []])
        got = ph.shape[i]
        p.prove(or_(and_(dyn, got == -1), and_(not_(dyn), got == t.shape[i])),
                f"placeholder like a tensor of shape {tuple(t.shape)} with dynamic axes {axes}: dimension {i} is {got}")


def same_shape(a, b):
    return len(a) == len(b) and and_(True, *[x == y for x, y in zip(a, b)])


def arg(p, U, tag):
    dt = DT[p.choice(2, tag + "dtype")]
    r = p.choice(3, tag + "rank")
    if p.choice(2, tag + "placeholder"):
        return U.TensorPlaceholder(shape(p, tag, r, -1), dt)
    return example(p, tag, r, dt)


def do_args(p, k, n):
    M = core.install()
    U, T = M["utils"], M["torchscript"]
    args = [arg(p, U, f"x{i}") for i in range(n)]
    if k == 0:
        if n != 1:
            return
        ea, want = args[0], {"forward": args}
    elif k == 1:
        ea, want = list(args), {"forward": args}
    elif k == 2:
        ea, want = tuple(args), {"forward": args}
    elif k == 3:
        other = [arg(p, U, "y")]
        ea = T.ExampleArgs().add_method("forward", list(args)).add_method("other", other[0])
        want = {"forward": args, "other": other}
    else:
        for bad in (3, "x", None, [1], [*args, 2.0]):
            try:
                T.ExampleArgs.get(bad)
            except Exception:
                continue
            p.prove(False, f"the example argument {bad!r} is accepted")
        return
    e = T.ExampleArgs.get(ea)
    p.prove(T.ExampleArgs.get(e) is e or list(T.ExampleArgs.get(e)._get_methods()) == list(want), "an ExampleArgs is not kept")
    got = e._get_for_annotation()
    p.prove(list(got) == list(want), f"methods {list(got)} instead of {list(want)}")
    for m in want:
        p.prove(len(got[m]) == len(want[m]), f"{m}: {len(got[m])} arguments instead of {len(want[m])}")
        for i, (g, w) in enumerate(zip(got[m], want[m])):
            p.prove(and_(g.dtype == w.dtype, same_shape(g.shape, w.shape)), f"{m} argument {i}: {g.shape} {g.dtype} instead of {tuple(w.shape)} {w.dtype}")


def do_tracing(p, r, flags):
    M = core.install()
    U, T = M["utils"], M["torchscript"]
    dt = DT[p.choice(len(DT))]
    ph = U.TensorPlaceholder(shape(p, "d", r, -1), dt)
    if getattr(p, "concrete", False) and any(d > 1000 for d in ph.shape):
        return
    t = example(p, "t", 1, dt)
    e = T.ExampleArgs.get([t, ph] if flags & 1 else [ph, t])
    ignore = bool(flags & 2)
    try:
        got = e._get_for_tracing(True, ignore)["forward"]
    except Exception as x:
        return p.prove(not ignore, f"placeholders with tracing are refused although shapes are ignored: {x}")
    p.prove(ignore, "a placeholder is traced without ignore_traced_shapes")
    gt, gp = got if flags & 1 else got[::-1]
    p.prove(gt is t, "an example tensor is not traced itself")
    p.prove(gp.dtype == dt, f"a {dt} placeholder of rank {r} is traced with a {gp.dtype} tensor")
    p.prove(len(gp.shape) == r, f"a placeholder of rank {r} is traced with shape {tuple(gp.shape)}")
    for a, b in zip(gp.shape, ph.shape):
        p.prove(or_(a == b, and_(b == -1, a > 0)), f"a placeholder of shape {ph.shape} is traced with shape {tuple(gp.shape)}")


class Scripted:
    class _c:
        @staticmethod
        def _type():
            return "the type"


class Native:
    """ClassAnnotator, ModuleBuilder and ImportOptions that record."""

    def __init__(self):
        log = self.log = []
        mod = self.module = core.Module("M")

        class Annotator:
            def exportNone(self, t):
                log.append(("none", t))

            def exportPath(self, t, path):
                log.append(("path", t, list(path)))

            def annotateArgs(self, t, path, ann):
                log.append(("args", t, list(path), list(ann)))

        class Options:
            pass

        class Builder:
            def __init__(self):
                self.module = mod

            def import_module(self, c, ann, opts):
                log.append(("import", c, opts.__dict__.get("ignoreExistingTensorShapesAndDtypes", False)))

        self.ClassAnnotator, self.ImportOptions, self.ModuleBuilder = Annotator, Options, Builder


def do_script(p, o, l):
    M = core.install()
    U, T = M["utils"], M["torchscript"]
    nat = Native()
    sc = Scripted()
    used = []

    class Jit:
        ScriptModule = torch.jit.ScriptModule

        @staticmethod
        def script(m):
            used.append(("script", m))
            return sc

        @staticmethod
        def trace_module(m, args):
            used.append(("trace", m, args))
            return sc

        export = staticmethod(lambda f: used.append(("export", f)) or f)

    saved = {k: T.__dict__[k] for k in ("ClassAnnotator", "ImportOptions", "ModuleBuilder", "torch")}
    ts = core.TorchShim()
    ts.jit = Jit
    T.__dict__.update(ClassAnnotator=nat.ClassAnnotator, ImportOptions=nat.ImportOptions, ModuleBuilder=nat.ModuleBuilder, torch=ts)

    class Model:
        def forward(self, *a):
            pass

        other = forward

    a0 = U.TensorPlaceholder(shape(p, "d", 2, -1), torch.float32)
    a1 = example(p, "e", 1, torch.int64)
    two = p.choice(2, "methods")
    args = [a0, a1]
    want = {"forward": [a0, a1]}
    if two:
        args = T.ExampleArgs().add_method("other", a1).add_method("forward", [a0, a1])
        want = {"other": [a1], "forward": [a0, a1]}
    trace = bool(p.choice(2, "trace"))
    if trace:
        p.assume(and_(a0.shape[0] < 50, a0.shape[1] < 50))
    ignore = trace and True
    lib = [] if p.choice(2, "library") else [func_a, func_b]
    legal = LEGAL[l]
    given = None if legal is None else list(legal)
    model = Model()
    try:
        with scratch() as d, quiet():
            got = T.compile(model, args, output_type=OUT[o], use_tracing=trace, ignore_traced_shapes=ignore, backend_legal_ops=given,
                            extra_library=lib, verbose=bool(p.choice(2, "verbose")))
            files = {f: open(os.path.join(d, f)).read() for f in os.listdir(d)}
    finally:
        T.__dict__.update(saved)
    p.prove(got is nat.module, "compile does not return the imported module")
    p.prove(used[-1][:2] == (("trace", model) if trace else ("script", model)), f"the model is converted by {used[-1][:1]}")
    if trace:
        p.prove(list(used[-1][2]) == list(want), f"methods {list(used[-1][2])} are traced")
    else:
        p.prove([f for k, f in used[:-1] if k == "export"] == [getattr(Model, m) for m in want], "a requested method is not scripted")
    log = nat.log
    p.prove(log[0] == ("none", "the type"), "methods that were not asked for are exported")
    p.prove([x[2] for x in log if x[0] == "path"] == [[m] for m in want], f"exported methods {[x[2] for x in log if x[0] == 'path']}")
    anns = [x for x in log if x[0] == "args"]
    p.prove([x[2] for x in anns] == [[m] for m in want], f"annotated methods {[x[2] for x in anns]}")
    for (_, t, path, ann), m in zip(anns, want):
        p.prove(len(ann) == 1 + len(want[m]) and ann[0] is None, f"{m}: {len(ann)} annotations")
        for g, w in zip(ann[1:], want[m]):
            p.prove(and_(g[1] == w.dtype, g[2] is True, same_shape(g[0], w.shape)), f"{m}: annotation {g} for {tuple(w.shape)} {w.dtype}")
    p.prove(log[-1] == ("import", sc._c, ignore) and [x[0] for x in log].count("import") == 1, f"import is called as {log[-1]}")
    k = kind(OUT[o])
    opts = {"backend-legal-ops": ",".join(sorted(set(legal or []))), "extra-library": ""}
    if lib:
        p.prove(len(files) == 1 and list(files.values()) == ["library of func_a,func_b"], f"the library file holds {files}")
        opts["extra-library"] = os.path.join(d, *files)
    first = ("torchscript-module-to-torch-backend-pipeline", opts)
    steps(p, got, k, [first], True, f"output {OUT[o]}, legal {legal}")
    p.prove(given == legal, "compile changes the list of legal operations")


def func_a():
    pass


def func_b():
    pass


def norm(x):
    n, o = x
    o = dict(o)
    if "backend-legal-ops" in o:
        o["backend-legal-ops"] = sorted(w for w in o["backend-legal-ops"].split(",") if w)
    o.setdefault("backend-legal-ops", [])
    o.setdefault("extra-library", "")
    b = str(o.get("allow-non-finites", "true")).lower()
    o["allow-non-finites"] = {"1": "true", "0": "false"}.get(b, b)
    return n, o


def steps(p, module, k, first, finite, what):
    """Which pipelines ran on the module, with which options."""
    got = []
    for t in module.done:
        q = core.parse_pipeline(t)
        p.prove(q is not None, f"{what}: unreadable pipeline {t}")
        got += [norm(x) for x in q]
    want = []
    if k != "raw":
        want += first
        if k != "torch":
            want.append((f"torch-backend-to-{k}-backend-pipeline", {} if k == "tosa" else {"allow-non-finites": str(finite)}))
    want = [norm(x) for x in want]
    p.prove(got == want, f"{what}: runs {got} instead of {want}")


def do_fx(p, o, l):
    M = core.install()
    U, F = M["utils"], M["fx"]
    m = core.Module()
    fin = bool(p.choice(2, "finite"))
    lib = (None, "/x/lib.mlir")[p.choice(2, "lib")]
    verbose, printing = bool(p.choice(2, "verbose")), bool(p.choice(2, "printing"))
    legal = LEGAL[l]
    fo = F.FxImportOptions(extra_library_file_name=lib, backend_legal_ops=legal)
    bo = U.BackendLoweringOptions(allow_non_finites=fin)
    kw = dict(fx_import_options=fo, backend_options=bo)
    if not fin or lib or legal or p.choice(2, "given"):
        pass
    else:
        kw = {}
    with quiet():
        got = F._module_lowering(verbose, printing, U.OutputType.get(OUT[o]), m, **kw)
    p.prove(got is m, "the lowered module is not the given one")
    fx_steps(p, m, o, legal, lib, fin)
    if core.PassManager.printed:
        p.prove(core.PassManager.printed[0] == printing, "IR printing is not as asked for")


def fx_steps(p, m, o, legal, lib, fin):
    opts = {"backend-legal-ops": ",".join(sorted(set(legal or []))), "extra-library": lib or ""}
    first = [("func.func(torch-match-quantized-custom-ops)", {}), ("torchdynamo-export-to-torch-backend-pipeline", opts)]
    got = list(m.done)
    if legal and len(set(legal)) != len(legal):
        # repeated names are harmless
        m.done[:] = [x.replace(",".join(legal), ",".join(sorted(set(legal)))) for x in got]
    steps(p, m, kind(OUT[o]), first, fin, f"output {OUT[o]}, legal {legal}, library {lib}, non-finite {fin}")


class Importer:
    def __init__(self, context=None, hooks=None, log=None):
        self.hooks = hooks
        self.log = []
        self.module = core.Module()

    def import_program(self, prog, **k):
        self.log.append(("program", prog, k))

    def import_frozen_program(self, prog, **k):
        self.log.append(("frozen", prog, k))

    def import_stateless_graph(self, g, **k):
        self.log.append(("stateless", g, k))


class Prog:
    def __init__(self, log=()):
        self.log = list(log)
        self.graph_module = types.SimpleNamespace(print_readable=lambda *a, **k: None)

    def run_decompositions(self, table):
        return Prog(self.log + [table])


def do_fxopts(p, k, o):
    M = core.install()
    U, F = M["utils"], M["fx"]
    made = []

    class Imp(Importer):
        def __init__(self, *a, **kw):
            super().__init__(*a, **kw)
            made.append(self)

    exported = []

    class Exp:
        @staticmethod
        def export(f, args, kwargs, dynamic_shapes=None, strict=None):
            exported.append((f, args, kwargs, dynamic_shapes, strict))
            return Prog(["exported"])

    class TS:
        export = Exp
        __version__ = torch.__version__

        def __getattr__(self, n):
            return getattr(torch, n)

    saved = {n: F.__dict__[n] for n in ("FxImporter", "ExportedProgram", "torch", "get_decomposition_table")}
    F.__dict__.update(FxImporter=Imp, ExportedProgram=Prog, torch=TS(), get_decomposition_table=lambda: {"default": 1})
    try:
        fin = bool(p.choice(2, "finite"))
        legal = LEGAL[p.choice(len(LEGAL), "legal")]
        name = ("main", "fn")[p.choice(2, "name")]
        own = bool(p.choice(2, "own importer"))
        hooks = object() if not own and p.choice(2, "hooks") else None
        kw = dict(output_type=OUT[o], backend_legal_ops=legal, allow_non_finites=fin, verbose=bool(p.choice(2, "verbose")))
        imp = Imp() if own else None
        if own:
            kw["fx_importer"] = imp
        if hooks is not None:
            kw["hooks"] = hooks
        if k == "stateless":
            if name != "main":
                kw["model_name"] = name
            g = object()
            with quiet():
                got = F.stateless_fx_import(types.SimpleNamespace(graph=g, print_readable=lambda: None), **kw)
            want = ("stateless", g)
        else:
            mut, sym = bool(p.choice(2, "mutation")), bool(p.choice(2, "symbolic"))
            table = (None, {}, {"own": 2})[p.choice(3, "decompositions")]
            if name != "main":
                kw["func_name"] = name
            if mut:
                kw["experimental_support_mutation"] = True
            if sym:
                kw["import_symbolic_shape_expressions"] = True
            if table is not None:
                kw["decomposition_table"] = table
            dyn = ({0: "d"},)
            if p.choice(2, "exported"):
                f, log = Prog(["given"]), ["given"]
                extra = ()
            else:
                f, log, extra = object(), ["exported"], (1, 2)
                kw["dynamic_shapes"] = dyn
                kw["strict"] = strict = bool(p.choice(2, "strict"))
                kw["k"] = 3
            with quiet():
                got = F.export_and_import(f, *extra, **kw)
            if extra:
                p.prove(exported == [(f, extra, {"k": 3}, dyn, strict)], f"exported as {exported}")
            else:
                p.prove(not exported, "an exported program is exported again")
            log = log + ([{"default": 1}] if table is None else [table] if table else [])
            want = ("program" if mut else "frozen",)
        imp = made[-1]
        p.prove(len(made) == 1, "the given importer is not used")
        p.prove(own or imp.hooks is hooks, "the hooks are not passed on")
        p.prove(got is imp.module, "the result is not the importer's module")
        p.prove(len(imp.log) == 1 and imp.log[0][0] == want[0], f"imported by {[x[0] for x in imp.log]} instead of {want[0]}")
        _, prog, opt = imp.log[0]
        p.prove(opt.get("func_name", "main") == name, f"imported as function {opt.get('func_name')} instead of {name}")
        if k == "stateless":
            p.prove(prog is want[1], "another graph is imported")
        else:
            p.prove(prog.log == log, f"decompositions applied: {prog.log} instead of {log}")
            p.prove(bool(opt.get("import_symbolic_shape_expressions", False)) == sym, "symbolic shape expressions are not as asked for")
        fx_steps(p, imp.module, o, legal, None, fin)
    finally:
        F.__dict__.update(saved)


def do_pipeline(p, k, printing):
    err = RuntimeError("the pass says no")
    U = core.install({"p1": err} if k == "run" else {"parse": err} if k == "parse" else {})["utils"]
    named = p.choice(2, "named")
    m = core.Module("Mod" if named else None)
    m.done.append("before")
    desc = ("", "Lowering it")[p.choice(2, "description")]
    old = sys.stderr
    mine = io.StringIO()
    sys.stderr = mine
    try:
        with scratch() as d:
            try:
                r = U.run_pipeline_with_repro_report(m, "builtin.module(p1)", desc, enable_ir_printing=bool(printing))
                raised = None
            except U.TorchMlirCompilerError as e:
                raised = str(e)
            p.prove(sys.stderr is mine, "stderr is not restored after a pipeline")
            files = {os.path.join(d, f): open(os.path.join(d, f)).read() for f in os.listdir(d)}
    finally:
        sys.stderr = old
    if k == "ok":
        p.prove(raised is None, f"a pipeline that succeeds is reported as failing: {raised}")
        return p.prove(m.done == ["before", "builtin.module(p1)"], f"the module is changed by {m.done[1:]}")
    p.prove(raised is not None, "a failing pipeline goes unnoticed")
    p.prove("builtin.module(p1)" in raised and ("says no" in raised or k == "parse"), f"the error does not show the pipeline and its failure: {raised}")
    if k == "run":
        p.prove("diagnostic of p1" in raised, "the diagnostics are lost")
    if desc:
        p.prove(desc in raised, "the description is lost")
    p.prove(list(files.values()) == ["asm after ['before']"], f"the reproducer holds {list(files.values())}, the module before the pipeline was different")
    p.prove(all(f in raised for f in files), "the error does not name the reproducer")


def do_output(p, *_):
    U = core.install()["utils"]
    base = ("torch", "linalg-on-tensors", "tosa", "stablehlo", "raw")[p.choice(5, "type")]
    s = "".join(c.upper() if c.isalpha() and p.choice(2, "case") else "_" if c == "-" and p.choice(2, "dash") else c for c in base[:6]) + base[6:].lower()
    t = U.OutputType.get(s)
    p.prove(t.value == base, f"output type {s!r} is taken as {t}")
    p.prove(U.OutputType.get(t) is t, f"output type {t} is not kept")


def do_bad(p, *_):
    U = core.install()["utils"]
    for s in ("", "linalg", "tosa ", "torch-backend", "raw2"):
        try:
            t = U.OutputType.get(s)
        except ValueError:
            continue
        p.prove(False, f"the output type {s!r} is taken as {t}")
    try:
        with quiet():
            U.lower_mlir_module(False, "tosa?", core.Module())
    except Exception:
        return
    p.prove(False, "an unknown output type is not refused")
