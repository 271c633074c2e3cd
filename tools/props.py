SHAPE_T = "symbolic execution of the real shape functions (z3), counterexamples replayed on PyTorch"
SHAPE_N = ("Bounded: every size 0..2^20 at every rank up to 3 (5 thorough), all dimension numbers, case-split flags; "
           "trusts z3, the executor and the specifications in vt/shapes (validated against PyTorch per path in thorough).")
SHAPE_W = ("The tests run each function on the few literal shapes attached to it; equality with PyTorch must hold for every "
           "rank, size, negative dimension, broadcast and window parameter.")


def shp(id, title, what, extra, mech):
    prop(id, title,
         f"For every operand shape and argument that PyTorch accepts, the result shape that the compiler's shape library "
         f"computes for {what} is exactly the shape PyTorch gives the result. {extra}".strip(),
         ["inputs"], "all ranks, sizes, dimension numbers and parameters PyTorch accepts for the listed operators",
         SHAPE_W, [ALIB], mech, SHAPE_T, SHAPE_N)


shp("S01", "Elementwise ops: inferred shape equals PyTorch's broadcast shape",
    "an elementwise, comparison, activation or in-place-style operator (unary, binary, ternary, scalar or tensor operands)",
    "Operands of different rank and with size-1 or size-0 dimensions broadcast as PyTorch broadcasts them.",
    [("one shape function per operator", ALIB), ("broadcast helper", "torch.jit._shape_functions.broadcast")])
shp("S02", "Reductions, scans and sorts: inferred shape equals PyTorch's",
    "a reduction (with any set of dimensions, negative ones included, keeping or dropping them), arg-reduction, "
    "cumulative, sort, top-k or norm-like operator",
    "", [("reduction helpers", ALIB)])
shp("S03", "Views and rearrangements: inferred shape equals PyTorch's",
    "a view, reshape, permute, transpose, squeeze, unsqueeze, flatten, expand, repeat, roll, diagonal, unfold or similar operator",
    "", [("view helpers", ALIB)])
shp("S04", "Indexing, slicing, joining: inferred shape equals PyTorch's",
    "a slice, select, narrow, gather, scatter, index, index-put, embedding, stack, concatenate, split or chunk operator",
    "Out-of-range slice bounds clamp and negative indices wrap exactly as in PyTorch.", [("slice/cat/index helpers", ALIB)])
shp("S05", "Convolution, pooling, padding, resizing: inferred shape equals PyTorch's",
    "a convolution, transposed convolution, pooling, adaptive pooling, padding, upsampling or resizing operator",
    "This holds for every kernel, stride, padding, dilation, ceiling mode, group count and output size that PyTorch accepts.",
    [("pool/conv/pad helpers", ALIB)])
shp("S06", "Matrix products, linear algebra, attention: inferred shape equals PyTorch's",
    "a matrix product, batched product, linear layer, einsum-like, determinant or attention operator",
    "", [("matmul helpers", ALIB)])
shp("S07", "Creation, loss, norm, random, signal ops: inferred shape equals PyTorch's",
    "a tensor-creation, range, random, loss, normalization, Fourier, windowed-transform or recurrent operator",
    "", [("creation and loss helpers", ALIB)])
for _id, _t, _w in (("D01", "Elementwise ops: inferred result dtype equals PyTorch's type promotion", "an elementwise, comparison or activation operator"),
                    ("D02", "All other ops: inferred result dtypes equal PyTorch's", "a reduction, matrix, convolution, loss, normalization, indexing, view or creation operator")):
    prop(_id, _t,
         f"For every assignment of dtypes (and of zero-dimensional or dimensioned ranks, integer or floating scalars, and requested "
         f"dtypes) that PyTorch accepts, the result dtype that the compiler's dtype library computes for {_w} is exactly PyTorch's; "
         "it never fails on operands PyTorch accepts.",
         ["inputs"], "all combinations of the 12 promotable dtypes over the operands, rank classes, scalar kinds and dtype arguments",
         "The tests try each operator with one shape and mostly equal or pairwise-varied dtypes; promotion depends jointly on every "
         "operand's dtype and on whether it is zero-dimensional.",
         [ALIB, "projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/library_generator.py"],
         [("one dtype function per operator", ALIB), ("promotion", "library_generator.py promote_dtypes")],
         "symbolic execution of the real dtype functions (z3-valued dtypes) against PyTorch's result-type table",
         "Bounded: 12 dtypes per operand (three independent), rank classes and scalar kinds case-split; the oracle is PyTorch's CPU kernels.")

ALC = "lib/Dialect/Torch/Transforms/AbstractInterpLibrary.cpp"
for _id, _k in (("L01", "shape"), ("L02", "dtype")):
    prop(_id, f"Embedded {_k} library computes what its Python source defines",
         f"The {_k} function that the compiler embeds for an operator (the library text in AbstractInterpLibrary.cpp) gives, for every "
         f"operand and argument, the same result as the operator's Python definition in abstract_interp_lib_gen.py, and fails on the "
         f"same inputs; every operator with a Python definition has an embedded function and conversely.",
         ["inputs"], "all operand ranks, sizes, dtypes and arguments, whether or not PyTorch accepts them",
         "The embedded text is generated by a step the tests cannot run and is never executed or compared by them, so either side "
         "can drift unnoticed.",
         [ALC, ALIB], [("embedded library text", ALC), ("definitions", ALIB)],
         "symbolic execution of the embedded functions and of their Python definitions on shared z3 operands; equality decided per joint path",
         "Bounded ranks and list lengths; trusts z3, the executor and a small interpreter of the library's operations.")

FXI = "python/torch_mlir/extras/fx_importer.py"
FXS = "python/torch_mlir/extras/fx_as_strided.py"
FX_T = "symbolic execution of the real FX importer on solver-valued programs; recorded operations interpreted, equality decided by z3"
FX_N = ("Bounded program templates (bounds in the evidence); trusts z3, the executor, the recording stand-in for the MLIR bindings and "
        "the small interpreter of the recorded operations. Counterexamples are re-run without solver values.")


def fxp(id, title, statement, over, text, why, mech, files=(FXI,)):
    prop(id, title, statement, over, text, why, list(files), mech, FX_T, FX_N)


fxp("F01", "FX import: symbolic shape bindings state each dimension's exact expression",
    "When shape expressions are imported, the affine expressions bound to a value (torch.bind_symbolic_shape), evaluated on the symbols "
    "given to that operation, equal the sizes the exported program records for the value, for every assignment of the symbols; every value "
    "with a symbolic dimension is bound, and every symbol used is created before its use.",
    ["inputs"], "all values of the shape symbols, all size expressions over +, *, powers, remainders and constants",
    "The tests print a few bindings; agreement must hold for every symbol value and every expression the exporter can produce.",
    [("sympy to affine conversion", FXI + " sympy_expr_to_semi_affine_expr"), ("binding operations", FXI + " _create_bind_symbolic_shape_ops")])
fxp("F02", "FX import: symbolic dimension ranges are carried over exactly",
    "Every shape symbol of an exported program is created with exactly the lower and upper bound its range constraint states, with an "
    "infinite bound becoming the extreme 64-bit integer, whichever entry point imports the program.",
    ["inputs"], "all integer bounds that fit 64 bits and infinities, any number of symbols",
    "A constraint that is widened, narrowed or attached to another symbol silently changes what later passes may assume.",
    [("range constraints", FXI + " set_symbolic_guards"), ("symbols", FXI + " _import_shape_symbols_with_guards")])
fxp("F03", "FX import: Python arithmetic on symbolic scalars keeps its value",
    "A scalar computation captured as Python operators (+, -, *, /, //, %, **, comparisons, and the sym_* helpers) over symbolic integers, "
    "floats, booleans and literals is imported as scalar operations that compute, for every operand value, what Python computes, with the "
    "declared result types.",
    ["inputs"], "all operand values and operand-kind combinations, nested operators",
    "The result depends on operand order, signs and mixed int/float promotion, of which the tests see a handful.",
    [("operator table", FXI + " SYMBOLIC_OP_TO_TORCH_OP"), ("import", FXI + " _import_symbolic_torch_op")])
fxp("F04", "FX import: operator calls keep operator, operands, order and literals",
    "Importing a captured operator call yields the same operator (or its documented canonical equivalent) applied to the same operands in "
    "schema order, with every literal (integers, floats, booleans, strings, lists, dtypes, layouts, devices, memory formats, None) and "
    "every omitted argument's default preserved, and with result types equal to the recorded metadata; operators without a dialect "
    "operation become torch.operator with the same name.",
    ["inputs"], "every operator overload, every way of passing each argument, all literal values",
    "The tests import a few dozen operators with one argument pattern each; the mapping must hold for thousands of schemas.",
    [("overload import", FXI + " _import_torch_op_overload"), ("arguments", FXI + " _import_argument, _convert_type, _import_default_value"),
     ("code tables", FXI + " TORCH_DTYPE_TO_INT, TORCH_MEMORY_FORMAT_TO_INT, TORCH_LAYOUT_TO_INT")])
fxp("F05", "FX import: every value keeps its sizes, dtype, mutability and layout",
    "Each parameter, operator result and function result has the type its metadata describes: static sizes verbatim, symbolic dimensions "
    "unknown, the matching element type, a mutable tensor exactly for mutated user inputs, and for sparse tensors an encoding whose levels "
    "address the elements exactly as PyTorch stores them (batch, compressed, block and dense dimensions, index widths).",
    ["inputs"], "all sizes, dtypes, ranks, sparse layouts, block sizes and index types, any two values in one program",
    "Types are cached and built from text; the tests look at a few literal shapes and square blocks only.",
    [("types", FXI + " value_info_to_type, tensor_metadata_to_type, get_vtensor_type"), ("sparse", FXI + " sparsity_encoding")])
fxp("F06", "FX import: tensor constants keep their elements through any import history",
    "A tensor constant (parameter, buffer, lifted constant or module attribute) becomes a literal with its shape, element type and exactly "
    "its elements in order, however often and wherever it is used, and whatever other tensors the importer saw before, including tensors "
    "that have died and whose identity is reused.",
    ["inputs", "histories"], "all element values, shapes and dtypes; all histories of imports with tensors living or dying between them",
    "The tests import one constant at a time; reuse of object identities and element conversions depend on history and values.",
    [("literals", FXI + " _make_vtensor_literal_op, _import_literal"), ("identity cache", FXI + " RefTracker, RefMapping")])
fxp("F07", "FX import: inputs, state, outputs and mutations of a program are preserved",
    "Importing an exported program gives a function whose parameters are exactly the user inputs in order, whose parameters/buffers/constants "
    "are their stored values, which returns exactly the user outputs in order, and which leaves in every mutated input and buffer exactly the "
    "value the program assigns, all reads of a mutated input or buffer seeing its value on entry; the frozen entry point returns every graph output.",
    ["inputs"], "all placements of inputs, state, constants, mutations (including swaps and mutation by another input) and output lists",
    "The interplay of aliases, mutations and lazily loaded state is combinatorial; the tests cover a few fixed signatures.",
    [("program import", FXI + " import_program, import_frozen_program"), ("lazy state and mutation", FXI + " InputInfo, bind_node_value, return_node_values")])
fxp("F08", "FX import: loops and other higher-order operators keep their meaning",
    "Importing while_loop, auto_functionalized and flex_attention yields a program that computes what the captured graph computes: loops run "
    "the body while the condition holds, carries and captured values keep their places, every call reaches the function made from its own "
    "subgraph with matching types, for nested graphs, clashing names and several programs imported by one importer.",
    ["inputs", "histories"], "all loop conditions, carry lists, nesting, child names and import histories",
    "The tests show the printed form of one two-carry loop; correctness must hold for every iteration count and naming.",
    [("higher-order operators", FXI + " _import_hop_while_loop, _import_hop_auto_functionalized, _import_hop_flex_attention"),
     ("subgraphs", FXI + " import_graph_module, _import_all_child_modules")])
fxp("F09", "as_strided rewriting reads exactly the storage elements as_strided reads",
    "When the FX importer rewrites an as_strided view into index arithmetic, every element of the rewritten result is the storage element "
    "that as_strided(size, stride, storage_offset) denotes, for every base layout, stride, offset and size; requests that cannot be rewritten "
    "safely are refused, never answered wrongly.",
    ["inputs"], "all base sizes, strides, storage offsets and requested sizes, strides and offsets",
    "The tests use a few literal strides; overlapping, zero and large strides and views of views interact.",
    [("rewrite", FXS)], files=(FXS,))

OXI = "python/torch_mlir/extras/onnx_importer.py"
OX_T = "symbolic execution of the real ONNX importer on solver-valued models; recorded operations interpreted, equality decided by z3"
OX_N = ("Bounded model templates (bounds in the evidence); trusts z3, the executor, the recording stand-in for the MLIR bindings and the "
        "stand-in for ONNX messages. Counterexamples are re-run on real ONNX messages without solver values.")


def oxp(id, title, statement, over, text, why, mech):
    prop(id, title, statement, over, text, why, [OXI], mech, OX_T, OX_N)


oxp("O01", "ONNX import: every value keeps its declared element type and dimensions",
    "Each parameter, result and intermediate value of an imported ONNX model has the type the model declares: known dimensions (0 included) "
    "verbatim, named or absent dimensions unknown, a tensor without a shape unranked, the matching element type, lists and optionals of it; "
    "whatever other types occur in the model.",
    ["inputs"], "all dimension values, presence patterns, ranks, element types and pairs of values",
    "Types are built from text and cached; protobuf presence (0 versus absent) is easy to confuse, and tests import a few fixed models.",
    [("types", OXI + " type_proto_to_type, get_vtensor_type, get_list_type, get_optional_type"), ("lookup", OXI + " find_type_proto_for_name")])
oxp("O02", "ONNX import: dataflow, subgraphs, initializers and metadata are preserved",
    "An imported ONNX graph computes its outputs from its inputs exactly as the ONNX graph does: every node input refers to the value of that "
    "name visible at that point (an empty name being an omitted input), results, subgraph bodies (in attribute-name order), initializers, "
    "constants and outputs keep their places, inputs that have an initializer are not parameters, undefined names are refused; version and "
    "producer metadata are the model's.",
    ["inputs"], "all ways the names of node inputs, outputs, initializers and graph outputs can coincide, nested subgraphs, all versions",
    "Wiring is by name equality; the combinations of omitted, repeated, captured and undefined names are far more than the tests' few models.",
    [("graph import", OXI + " NodeImporter.import_all, import_node, import_regions"), ("metadata", OXI + " _populate_graph_attrs")])
oxp("O03", "ONNX import: attributes and tensor data keep their exact values",
    "Every node attribute (integers, floats, strings, lists of them, tensors) and every initializer or Constant tensor, stored as typed fields "
    "or raw bytes, is imported with exactly its values in order, its shape and its element type; attribute kinds that cannot be represented "
    "are refused, not dropped.",
    ["inputs"], "all attribute and element values, all element types, storage forms, shapes and places",
    "The field that holds an element type's data and the conversion applied depend on the type; tests check a few literal constants.",
    [("attributes", OXI + " ATTRIBUTE_TYPE_HANDLERS"), ("tensors", OXI + " tensor_proto_to_attr, ELEM_TYPE_INLINE_TENSOR_PROTO_CB")])
oxp("O04", "ONNX import: function operators expand to the right, rightly bound body",
    "An operator that is defined by an ONNX function and selected by the configuration is replaced by a call to the newest body that is not "
    "newer than the model's operator set version, with attribute references bound to the caller's values or else the defaults (also inside "
    "subgraphs), with types agreeing at every call; different calls share a function only if they mean the same.",
    ["inputs", "histories"], "all body versions and model versions, attribute values and omissions, call types, several calls in one module",
    "The memo key, version choice and binding depend on combinations that the single expanded operator in the tests cannot exercise.",
    [("expansion", OXI + " ModuleCache.get_operator_function, _specialize_function_and_create_model, _bind_attributes_on_node")])

EP = "projects/pt1/python/torch_mlir_e2e_test/"
E_T = "symbolic execution of the real test framework on solver-valued tensors, traces and programs; verdicts decided by z3"
E_N = ("Bounded templates (bounds in the evidence); trusts z3, the executor and the tensor stand-in. Counterexamples are re-run on real tensors "
       "without solver values.")


def ep(id, title, statement, over, text, why, mech, files):
    prop(id, title, statement, over, text, why, [EP + f for f in files], mech, E_T, E_N)


ep("E01", "E2E reports: a result is accepted exactly when it matches the golden value",
   "The end-to-end framework accepts a backend's value if and only if it has the golden value's kind and structure and every leaf matches: equal "
   "integers, booleans and strings, floats within a relative 1e-4, tensors of the same shape and element type whose elements lie within 1e-7 + "
   "1e-3 |golden|; NaN matches only NaN, an infinity only itself; negative and zero golden values are no exception.",
   ["inputs"], "all values and golden values, signs, special floats, shapes, element types and nestings",
   "Every other end-to-end verdict rests on this comparison; tests of passing programs never show what it fails to reject.",
   [("comparison", EP + "reporting.py ValueReport")], ["reporting.py"])
ep("E02", "E2E reports: pass/fail accounting is exact",
   "A test is reported as failing exactly if it has an error or its trace differs from the golden trace in length, symbols, inputs or outputs; each test "
   "gets exactly one result and one PASS/FAIL/XPASS/XFAIL outcome that follows from failing and being expected to fail; the counts agree and the run "
   "is flagged exactly if there is an unexpected outcome; a dead test process never yields success.",
   ["inputs", "histories"], "all combinations of trace lengths, results, expectations, lost results, process counts",
   "Wrong accounting hides failures; the tests only ever see runs in which everything passes.",
   [("reports", EP + "reporting.py TraceItemReport, SingleTestReport, report_results"), ("runner", EP + "framework.py run_tests")],
   ["reporting.py", "framework.py"])
ep("E03", "E2E traces record every call as it happened; faithful programs pass",
   "A golden trace lists the calls in order, each with its full symbol, its inputs as they were before and its output as it was when the call returned, "
   "whatever is mutated in place later; a config that runs the program faithfully is reported as passing and one wrong result in any call as failing; "
   "every exception or timeout becomes one result of the right kind and the timer is stopped.",
   ["inputs", "histories", "fault_sequences"], "all programs in the bounds, element values, aliasing and mutation patterns, and points of failure",
   "Aliasing between inputs, outputs and state only shows in multi-call stateful programs, which the suite hardly contains.",
   [("tracing", EP + "framework.py _Tracer, compile_and_run_test"), ("configs", EP + "configs/native_torch.py, configs/torchscript.py, configs/utils.py")],
   ["framework.py", "configs/native_torch.py", "configs/torchscript.py", "configs/utils.py", "registry.py"])
ep("E04", "The lockstep debug backend finds the first disagreeing operation",
   "A callable compiled by the lockstep debugging backend returns exactly what the golden backend computes for the graph, runs both backends on each "
   "operation with that operation's actual operands, and stops with an error naming the operation exactly if their results disagree there.",
   ["inputs", "histories"], "all operand wirings (repeated operands included), results, inputs, deviations and repeated runs",
   "Operand bookkeeping and early freeing of values depend on the wiring; the one lit test has three independent operations.",
   [("lockstep", EP + "debug/lockstep.py")], ["debug/lockstep.py"])

A_T = "symbolic execution of the real entry points on solver-valued examples, options and graphs; recorded calls decided by z3"
A_N = ("Bounded templates (bounds in the evidence); trusts z3, the executor and the recording stand-ins for native code. Counterexamples are re-run "
       "without solver values.")
PTM = "projects/pt1/python/torch_mlir/"


def ap(id, title, statement, over, text, why, files, mech):
    prop(id, title, statement, over, text, why, files, mech, A_T, A_N)


ap("A01", "Compile entry points import and lower exactly what was asked for",
   "The TorchScript and FX compile functions trace or script with examples of the given shapes and dtypes, annotate every dimension marked dynamic (and "
   "no other) as unknown, and hand program, options, legal operators and extra functions on unchanged; the result has been through exactly the lowering "
   "steps of the requested output type, in order; a failing step raises the compiler error naming the step, and never returns a module.",
   ["inputs", "configurations", "fault_sequences"], "all example sizes, dynamic axes, option combinations, output types and failing steps",
   "The entry points need MLIR and are not run by the tests at all; options interact.",
   ["python/torch_mlir/compiler_utils.py", "python/torch_mlir/fx.py", PTM + "torchscript.py"],
   [("placeholders and lowering", "python/torch_mlir/compiler_utils.py"), ("TorchScript", PTM + "torchscript.py compile"),
    ("FX", "python/torch_mlir/fx.py export_and_import, stateless_fx_import")])
ap("A02", "TorchDynamo backend wrapper keeps the calling convention",
   "A backend made with the TorchDynamo wrapper returns, for every captured graph and input, results of the structure (single value, tuple or list of "
   "any length) and with the values of the captured graph, while the user's backend only ever sees graphs that return nothing, a single value or a "
   "tuple of several values; graphs compiled through one backend do not influence each other.",
   ["inputs", "histories"], "all result structures, wirings, inputs and pairs of graphs",
   "Unwrapping and rewrapping must agree for every structure; the tests never call it.",
   [PTM + "dynamo.py"], [("calling convention", PTM + "dynamo.py _adjust_calling_convention, make_simple_dynamo_backend")])
ap("A03", "Deprecated TorchDynamo importer binds operator calls and wiring faithfully",
   "The deprecated TorchDynamo graph importer emits, for every call of a supported operator however its arguments are passed (by position, by keyword, "
   "omitted), the same operator on the same operands, with omitted parameters at their schema defaults, dtypes, layouts and memory formats as the "
   "codes PyTorch uses, results and parameters typed by the recorded metadata, and the graph's wiring and output order kept.",
   ["inputs"], "every operator and argument pattern, all literal values, all wirings in the bounds",
   "Thousands of schemas and argument patterns; the tests of this importer need MLIR and are not run.",
   [PTM + "_dynamo_fx_importer.py"], [("importer", PTM + "_dynamo_fx_importer.py")])

C_T = ("symbolic execution of the C++ source cut from /repo and compiled to LLVM IR (clang), against the meaning of the operations; queries decided by z3")
C_N = ("Bounded operands (bounds in the evidence). Trusts clang, the IR executor, z3, and the stand-in for the MLIR classes the code is compiled against. "
       "Counterexamples are replayed on the natively compiled code.")
IR = "lib/Dialect/Torch/IR/"


def cp(id, title, statement, over, text, why, files, mech):
    prop(id, title, statement, over, text, why, files, mech, C_T, C_N)


cp("C01", "Folding scalar operations keeps their value",
   "The compiler's constant folding and canonicalization of Torch operations on numbers, booleans and None (arithmetic, floor division, remainder, "
   "comparisons, conversions, ranges, identity tests) only ever replaces an operation by a value of its type that equals what TorchScript computes for it, "
   "for every operand value, constant or not; an operation that raises an error at run time may be left alone.",
   ["inputs"], "all operand values and forms in the bounds",
   "Corner values (negative operands, zero divisors, infinities, values beyond 2^53) decide; lit tests sample a few.",
   [IR + "TorchOps.cpp", "include/torch-mlir/Dialect/Torch/IR/TorchOps.h"], [("folds", IR + "TorchOps.cpp fold, getCanonicalizationPatterns")])
cp("C02", "Folding list, tuple and string operations keeps their value",
   "The compiler's folding and canonicalization of Torch operations on lists and tuples (length, indexing, slicing, concatenation, repetition, membership, "
   "minimum, any/all, sorting, unpacking) only ever replaces results by values equal to what TorchScript computes, for all elements and indices, and also "
   "when a list is mutated between its construction and its use.",
   ["inputs", "programs"], "all elements, indices, bounds, steps and mutations in the bounds",
   "Negative indices, empty and mutated lists are the cases lit tests leave out.",
   [IR + "TorchOps.cpp", "include/torch-mlir/Dialect/Torch/IR/TorchOps.h"], [("folds", IR + "TorchOps.cpp fold, getCanonicalizationPatterns")])
cp("C03", "Types of values are ordered by what they describe",
   "The compiler's subtype test on Torch types, the meet of two tensor types, and the checks that admit casts between types agree with the sets of values the "
   "types describe: a subtype never has a value its supertype lacks, the meet describes exactly the tensors both types describe and exists when there is one, "
   "and building a tensor type from another keeps sizes, dtype and value semantics.",
   ["inputs"], "all types in the bounds and all values of them",
   "Refining, inlining and casting rest on these; lit tests show a few type pairs.",
   [IR + "TorchTypes.cpp", IR + "TorchOps.cpp", "lib/Dialect/Torch/Utils/Utils.cpp"],
   [("isValidSubtype, meetTensorTypes", IR + "TorchTypes.cpp"), ("areCastCompatible", IR + "TorchOps.cpp")])
cp("C05", "Tensor operations are only folded away when they change nothing",
   "When the compiler's canonicalization replaces a tensor operation (alias, view, reshape, squeeze, transpose, broadcast, slice, concatenation, rounding, "
   "cast, conversion, any-reduction) by its operand or by another operation, or a question about a tensor (rank, size, number of elements, dtype) by an answer, "
   "the replacement has the same elements, sizes, dtype and static type as the original's result at run time, whatever the operand and result types leave unknown.",
   ["inputs", "programs"], "all sizes, element types, static types and arguments in the bounds",
   "Unknown sizes and dtypes, integers, booleans and empty tensors decide; lit tests use one static type each.",
   [IR + "TorchOps.cpp"], [("folds", IR + "TorchOps.cpp fold, getCanonicalizationPatterns")])
cp("C04", "Dtype codes and promotion in the compiler agree with PyTorch",
   "Every dtype code that has a builtin type maps to it and back to the same code, and the compiler resolves the promotion of a list of tensor and number "
   "arguments to the dtype PyTorch's result_type gives, for every combination of dtypes, ranks and argument sorts for which PyTorch has an answer.",
   ["inputs"], "all dtype codes, ranks and argument sorts in the bounds",
   "Mixed dtypes, zero-rank tensors, complex and float8 operands are the combinations that tests leave out.",
   ["lib/Dialect/Torch/Utils/TorchUpstream.cpp", "lib/Dialect/Torch/Utils/Utils.cpp", "lib/Dialect/Torch/Transforms/SimplifyDtypeCalculations.cpp"],
   [("promoteTypes, result_type", "lib/Dialect/Torch/Utils/TorchUpstream.cpp"), ("dtype codes", "lib/Dialect/Torch/Utils/Utils.cpp")])
