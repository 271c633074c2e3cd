"""F0x: the FX importer (python/torch_mlir/extras/fx_importer.py, fx_as_strided.py)."""
from .. import report
from ..symex import BoundExceeded, Counterexample, Inconclusive, Stats, explore

SRC = "fx_importer.py: "
COMMON = [
    "the MLIR bindings are a recording stand-in (vt/mlirpy.py): the recorded operations are what the bindings were asked to create",
    "type/isinstance/int/float/bool/max/min calls in the importer accept solver proxies (vt/instr.py); nothing else of the source changes",
    "operators are uninterpreted: equal terms mean equal results for every interpretation and every input tensor",
]


def collect(r, fn, items, deadline):
    """fn(item) -> dict(status, what, model, stats, [known], [sample])"""
    done = {}
    for st, x, d in report.parallel(fn, items, deadline):
        if st == "late":
            r.inconclusive.append(f"{x}: not reached within the time budget")
        elif st == "err":
            r.inconclusive.append(f"{x}: {d[-500:]}")
        else:
            r.add_stats(d["stats"])
            done[d["status"]] = done.get(d["status"], 0) + 1
            if d["status"] == "cex":
                r.violation(d["what"], d.get("replay"))
            elif d["status"] in ("inconclusive", "raise"):
                r.inconclusive.append(d["what"])
            elif d["status"] == "spurious":
                r.spurious.append(d["what"])
            if d.get("sample") and len(r.samples) < 10:
                r.samples.append(d["sample"])
    r.extra["cases"] = done


def chunks(xs, n):
    return [xs[i:i + n] for i in range(0, len(xs), n)]


# ------------------------------------------------------------------- F03


def f03_work(shapes):
    from ..fx import scalars

    st = Stats()
    out = dict(status="ok", stats=st.as_dict())
    for s in shapes:
        try:
            k, what, model = scalars.run(s, st)
        except (BoundExceeded, Inconclusive) as e:
            out.update(status="inconclusive", what=f"{s}: {e}")
            continue
        if k == "cex":
            got, want, types, ins = scalars.concrete(s, model)
            ok = isinstance(got, Exception) or scalars.differ(got, want, types)
            out.update(status="cex" if ok else "spurious",
                       what=f"{s}: {what}; with operands {model} the imported operations give {got!r}, python gives {want!r}",
                       replay=dict(program=s, operands=model, imported=repr(got), python=repr(want)))
            if ok:
                break
        elif k == "raise":
            try:
                scalars.concrete(s, model)
                ok = False
            except Exception as e:
                ok, what = True, f"{type(e).__name__}: {e}"
            out.update(status="cex" if ok else "spurious", what=f"{s}: the importer fails on a valid program: {what}")
            if ok:
                break
    out["stats"] = st.as_dict()
    out["sample"] = str(shapes[0])
    return out


def check_f03(r):
    from ..fx import scalars

    collect(r, f03_work, chunks(scalars.shapes(r.tier), 24), 300 if r.tier == "quick" else 2000)
    r.functions += [SRC + f for f in ("import_stateless_graph", "_import_symbolic_torch_op", "_promote_symbolic_scalar_int_float",
                                      "_import_torch_op_overload", "_import_argument", "_convert_type")]
    r.bounds = ["integer operands within +-2^20, real operands; programs of up to three operators over placeholders and literals"]
    r.outside = ["overflow of 64-bit integers; rounding of floating-point arithmetic (reals)"]
    r.assumptions = COMMON[:2] + ["scalar operators of the torch dialect mean what TorchScript says they mean (vt/fx/core.py SCALAR)"]
    return ("each scalar program is imported with symbolic operands by the real importer; the recorded operations are interpreted over the "
            "same operands and the solver decides equality with python's arithmetic")


# ------------------------------------------------------------------- F04


def f04_work(names):
    from ..fx import core, ops

    st = Stats()
    out = dict(status="ok", stats=None)
    for name in names:
        if name == "special:empty":
            def body(p):
                got, a, b = ops.empty_baddbmm(p)
                st.reached += 1
                ea, eb = core.equal(got, a), core.equal(got, b)
                p.prove(ea if eb is False else eb if ea is False else ea | eb, "empty feeding baddbmm")
            _, cex = explore(body, max_paths=50, stats=st)
            if cex:
                out.update(status="cex", what=f"{cex[0].what} {cex[0].model}")
                break
            continue
        target = ops.overload(name)
        for label, mode in ops.modes(target._schema):
            for nodes in (False, True):
                d = ops.run(name, label, mode, nodes, st)
                if d["status"] == "cex" or d["status"] in ("inconclusive", "spurious") and out["status"] == "ok":
                    out.update(d)
        if out["status"] == "cex":
            break
    out["stats"] = st.as_dict()
    out["sample"] = names[0]
    return out


def check_f04(r):
    from .. import mlirpy
    from ..fx import core, ops

    core.fx()
    names = [n for n in sorted(mlirpy.registered_ops()) if n != "torch.aten.as_strided"]
    good = []
    for n in names:
        try:
            ops.overload(n)
            good.append(n)
        except Exception:
            pass
    un = ops.unregistered()
    k = 12 if r.tier == "quick" else 1
    good += ops.CANON + un[r.seed % k::k] + ["special:empty"]
    # spread the expensive operators
    items = [good[i::64] for i in range(64)]
    collect(r, f04_work, items, 400 if r.tier == "quick" else 2000)
    r.functions += [SRC + f for f in ("import_stateless_graph", "_import_torch_op_overload", "_import_argument", "_import_list_argument",
                                      "_import_default_value", "_import_scalar_as_tensor", "_convert_type", "_unpack_node_result_types",
                                      "_import_getitem", "node_canonicalize and the registered canonicalizers", "_emit_operation",
                                      "LITERAL_CONVERTER_MAP", "dtype/layout/memory-format code tables")]
    r.extra["operators"] = len(good)
    r.bounds = ["every overload in the Torch dialect's ODS that this PyTorch has, plus "
                + ("a twelfth" if k > 1 else "all") + " of the overloads without an operation of their own",
                "literals: integers within +-2^62, reals, booleans (solver variables); lists of length 0 and 3; every dtype, layout and "
                "memory format; every defaultable argument omitted, given positionally, by keyword, as None"]
    r.outside = ["operators taking dictionaries, generators, script objects; longer lists (the code treats elements alike); aten.as_strided (F09)"]
    r.assumptions = COMMON + ["c10 codes of dtypes/layouts/memory formats are read from TorchScript of the installed PyTorch"]
    return ("for each operator overload and each way of passing its arguments, the real importer is run on a one-node graph with solver-valued "
            "literals; the recorded operation must be the same operator on the same operands, with the declared types of the FX metadata")


# --------------------------------------------------------- generic workers


def run_cases(make, cases, stats, **kw):
    """make(case) -> (fn, label, allow); one dict for a chunk of cases."""
    from ..decide import decide

    out = dict(status="ok", what="")
    for c in cases:
        fn, label = make(c)
        d = decide(fn, stats, label, **kw)
        if d["status"] == "cex":
            out.update(d)
            break
        if d["status"] != "ok" and out["status"] == "ok":
            out.update(d)
    out["stats"] = stats.as_dict()
    out["sample"] = make(cases[0])[1]
    return out


def f01_work(cases):
    from ..fx import symshape as S

    st = Stats()

    def make(c):
        def fn(p):
            S.check_bind(p, c)
            st.reached += 1
        return fn, f"sizes {c}"

    return run_cases(make, cases, st)


def check_f01(r):
    from ..fx import symshape as S

    collect(r, f01_work, chunks(S.programs(r.tier), 4), 300 if r.tier == "quick" else 1500)
    r.functions += [SRC + f for f in ("sympy_expr_to_semi_affine_expr", "_import_shape_symbols_with_guards", "bind_symbol_value",
                                      "_create_bind_symbolic_shape_ops", "import_program", "import_frozen_program")]
    r.bounds = ["symbols range over 0..2^20 (positive divisors); sizes: sums, products, powers <= 8 (thorough: 12) and remainders over four symbols, constants given or symbolic within 2^40, "
                "nesting up to three operators; up to three values and four symbols per program"]
    r.outside = ["floor divisions and torch's own Mod class (refused by the importer with an error)"]
    r.assumptions = COMMON[:2] + ["MLIR affine semantics of +, *, mod, floordiv, ceildiv with positive divisors"]
    return ("programs whose value sizes are sympy expressions are imported; the emitted affine map, applied to the operands it is given, "
            "is proved equal to the sympy expressions for every value of the symbols")


def f02_work(cases):
    from ..fx import symshape as S

    st = Stats()

    def make(c):
        def fn(p):
            S.check_guards(p, c)
            st.reached += 1
        return fn, f"ranges {c}"

    return run_cases(make, cases, st)


def check_f02(r):
    from ..fx import symshape as S

    collect(r, f02_work, chunks(S.guard_programs(r.tier), 2), 300 if r.tier == "quick" else 1500)
    r.functions += [SRC + f for f in ("set_symbolic_guards", "_import_shape_symbols_with_guards", "import_program", "import_frozen_program")]
    r.bounds = ["every pair of integer bounds lower <= upper within +-2^62, a fraction n/2 or n/3, or an infinity of either sympy or torch on either side; "
                "one and two (thorough: three) symbols"]
    r.outside = ["bounds that do not fit 64 bits"]
    r.assumptions = COMMON[:2]
    return ("programs with solver-valued range constraints are imported by both entry points; each emitted symbolic_int is proved to carry "
            "exactly the bounds of its own symbol, infinities as the 64-bit extremes")


def f09_cases(tier):
    sizes = [(), (1,), (2,), (2, 2), (0,), (3, 1), (1, 1)]
    kinds = [("dense", 0), ("dense", 1), ("dense", 2), ("perm", 2), ("dense", 3), ("any", 1), ("any", 2)]
    if tier != "quick":
        kinds += [("perm", 3), ("any", 3)]
        sizes += [(2, 3), (3, 3), (2, 1, 2), (4,), (2, 2, 2)]
    out = []
    for k, n in kinds:
        for s in sizes:
            for f in ("plain", "view", "list", "kwview", "copy"):
                if f == "plain" or n == 2 and k in ("dense", "perm"):
                    out.append((k, n, s, f))
    return out


def f09_work(cases):
    from ..fx import strided as S

    st = Stats()

    def make(c):
        def fn(p):
            S.check(p, *c)
            st.reached += 1
        return fn, "base {0} of rank {1}, result sizes {2}, graph form {3}".format(*c)

    return run_cases(make, cases, st, max_seconds=200)


def check_f09(r):
    collect(r, f09_work, chunks(f09_cases(r.tier), 1), 400 if r.tier == "quick" else 2500)
    f = "fx_as_strided.py: "
    r.functions += [f + x for x in ("rewrite_as_strided", "_rewrite", "_storage_operand", "_same_storage_arg", "_indices", "_arg", "_ints", "_constant")]
    r.bounds = ["bases of rank <= 2 (and row-major rank 3) with sizes 1..4 and offset 0..3; requested strides 0..16, storage offset 0..12; "
                "result sizes from a fixed list with up to four elements; offset omitted, positional, keyword"]
    r.outside = ["which reads of non-row-major bases are refused (any refusal is loud)", "larger results (the computation is elementwise)"]
    r.assumptions = ["tensor arithmetic of the rewrite runs on arrays of solver integers (vt/fx/strided.py Shim)"]
    return ("as_strided graphs with solver-valued base sizes, strides, offsets and requests are rewritten by the real pass; every element of "
            "the emitted index is proved to lie inside the base and to name the storage cell as_strided reads; an in-bounds request of a "
            "row-major base is proved not to be refused")


def _module_work(name, arg):
    """Worker over cases of vt.fx.<name>.run(p, case)."""
    import importlib

    from ..fx import ops

    M = importlib.import_module("vt.fx." + name)
    ops.fake(0)
    st = Stats()

    def make(c):
        def fn(p):
            M.run(p, c)
            st.reached += 1
        return fn, " ".join(str(x) for x in c)

    return run_cases(make, arg, st, max_paths=40000, max_seconds=600)


def f05_work(cases):
    return _module_work("valtypes", cases)


def f06_work(cases):
    return _module_work("literals", cases)


def f08_work(cases):
    return _module_work("hops", cases)


def f07_work(cases):
    from ..fx import ops, programs as P

    ops.fake(0)
    st = Stats()

    def make(c):
        i, o, kind = c

        def fn(p):
            (P.check_program if kind == "program" else P.check_frozen)(p, P.ORDERS[o], P.MUTATIONS[i])
            st.reached += 1
        return fn, f"{kind}: placeholders {''.join(P.ORDERS[o])}, new values {P.MUTATIONS[i]}"

    return run_cases(make, cases, st, max_paths=40000, max_seconds=600)


def spread(xs, n):
    return [xs[i::n] for i in range(n) if xs[i::n]]


def check_f05(r):
    from ..fx import valtypes as V

    collect(r, f05_work, spread(V.cases(r.tier), 64), 400 if r.tier == "quick" else 2500)
    r.functions += [SRC + f for f in ("value_info_to_type", "node_val_to_type", "tensor_metadata_to_type", "get_vtensor_type", "format_asm_shape",
                                      "dtype_to_type", "sparsity_encoding", "_graph_to_function_meta", "_unpack_node_result_types",
                                      "import_program", "import_frozen_program")]
    r.bounds = ["dense: pairs of values of rank <= 2 (thorough 3), each size a solver variable in 0..2^62 or a symbolic dimension, every dtype "
                "MLIR has a type for, described by FakeTensor, tensor_meta or both, as parameters, mutable parameters, operator results, function results",
                "sparse: COO with 2..4 sparse dimensions, CSR/CSC/BSR/BSC, up to two batch and two dense dimensions, both index widths; "
                "sizes up to 2^40 and block sizes up to 2^20 are solver variables"]
    r.outside = ["quantized tensors (refused)", "COO with one sparse dimension (refused)"]
    r.assumptions = COMMON[:2] + ["storage of sparse tensors as PyTorch documents it (blocks row-major); level semantics of MLIR's sparse_tensor encoding"]
    return ("programs whose value descriptions have solver-valued sizes are imported; the type text is read back as terms and proved to state "
            "the sizes, element type, mutability; the level map of a sparse encoding is proved to give each index the coordinates PyTorch stores")


def check_f06(r):
    from ..fx import literals as L

    cs = L.cases(r.tier)
    items = [[c] for c in cs if c[0] != "contents"] + spread([c for c in cs if c[0] == "contents"], 24)
    collect(r, f06_work, items, 400 if r.tier == "quick" else 2500)
    r.functions += [SRC + f for f in ("_make_vtensor_literal_op", "_import_literal", "_import_argument", "RefTracker.track", "RefMapping",
                                      "create_mlir_tensor_type", "tensor_to_vtensor_type", "import_program", "import_frozen_program",
                                      "import_stateless_graph", "TORCH_DTYPE_TO_NPY_TYPE", "TORCH_DTYPE_TO_MLIR_TYPE")]
    r.bounds = ["contents: every supported dtype, nine shapes of up to six elements, all element values (integers: full range; floats: reals, with a "
                "witness for every conversion that is not exact)",
                "histories: three (thorough: four) imports of constants that are new or still alive, each dying or living on; id() is any value "
                "CPython allows, chosen by the solver", "uses: a constant read by up to four operators and the output, through one or two nodes"]
    r.outside = ["tensors changed in place between two imports by one importer", "NaN payloads"]
    r.assumptions = COMMON[:2] + ["numpy conversions: integers wrap, exact where the target format contains the source format"]
    return ("constants with solver-valued elements are imported and the recorded buffer is proved to hold them in order, with the literal's "
            "shape and element type; histories with solver-chosen object identities are imported and every literal must be its own tensor's")


def check_f07(r):
    from ..fx import programs as P

    cs = []
    for i, m in enumerate(P.MUTATIONS):
        if not P.valid(m):
            continue
        for o in range(3):
            if r.tier != "quick" or i % 3 == o:
                cs.append((i, o, "program"))
            if r.tier != "quick" or i % 9 == o:
                cs.append((i, o, "frozen"))
    collect(r, f07_work, chunks(cs, 1), 400 if r.tier == "quick" else 2500)
    r.functions += [SRC + f for f in ("import_program", "import_frozen_program", "GraphNodeImporter.import_nodes", "return_node_values",
                                      "bind_node_value", "resolve_node_value", "_create_mutable_buffer handling", "lazy_import_parameter",
                                      "lazy_import_buffer", "store_produced_value hooks", "InputInfo")]
    r.bounds = ["programs over eight placeholders (two tensor arguments, integer, constant argument, parameter, persistent and non-persistent "
                "buffer, constant tensor) in three orders, two operators and a pair-valued one, 21 assignments of new values to arguments and "
                "buffers, seven output lists, with and without hooks that load buffers"]
    r.outside = ["two mutations with the same new value (refused)", "token and custom-object inputs"]
    r.assumptions = COMMON
    return ("exported programs are imported with uninterpreted operators; results and final contents of arguments and buffers, computed from the "
            "recorded operations on a memory, are proved equal to the functional meaning of the graph")


def check_f08(r):
    from ..fx import hops as H

    cs = H.cases(r.tier)
    h = [c for c in cs if c[0] == "history"]
    collect(r, f08_work, [[c] for c in h] + spread([c for c in cs if c[0] != "history"], 32), 400 if r.tier == "quick" else 2500)
    r.functions += [SRC + f for f in ("_import_hop", "_import_hop_while_loop", "_import_hop_flex_attention", "_import_hop_auto_functionalized",
                                      "_import_all_child_modules", "import_graph_module", "import_program", "import_frozen_program",
                                      "_import_getitem")]
    r.bounds = ["while_loop: up to three tensor carries, an optional integer carry, up to two additional inputs, nesting depth 1 (thorough 2), up to "
                "three iterations whose conditions the solver chooses, four child naming schemes, three entry points",
                "histories of two (thorough: three) programs on one importer, kept or dropped, object identities chosen by the solver",
                "auto_functionalized: two operator signatures; flex_attention: modifiers present or not, one to three results, every kernel option form"]
    r.outside = ["longer runs of a loop; other higher-order operators (refused)"]
    r.assumptions = COMMON
    return ("graphs with higher-order operators are imported; the recorded loops and calls are run with solver-chosen conditions and proved to "
            "compute what the graph's python semantics computes, with operand, parameter and result types agreeing at every call")


TABLE = {"F01": check_f01, "F02": check_f02, "F03": check_f03, "F04": check_f04, "F05": check_f05, "F06": check_f06,
         "F07": check_f07, "F08": check_f08, "F09": check_f09}


def check(r):
    return TABLE[r.prop](r)
