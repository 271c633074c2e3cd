"""O0x: the ONNX importer (python/torch_mlir/extras/onnx_importer.py)."""
from ..symex import Stats
from .fx import collect, run_cases, spread

SRC = "onnx_importer.py: "
COMMON = [
    "the MLIR bindings are a recording stand-in (vt/mlirpy.py): the recorded operations are what the bindings were asked to create",
    "protocol-buffer messages are stand-ins that follow the descriptors of the installed onnx (vt/onnxi/proto.py) and may hold solver values; "
    "counterexamples are re-run on real onnx messages",
    "type/isinstance/int/float/bool/max/min calls in the importer accept solver proxies (vt/instr.py); nothing else of the source changes",
]


def _work(name, cases):
    import importlib

    M = importlib.import_module("vt.onnxi." + name)
    st = Stats()

    def make(c):
        def fn(p):
            M.run(p, c)
            st.reached += 1
        return fn, " ".join(str(x) for x in c)

    return run_cases(make, cases, st, max_paths=100000, max_seconds=800)


def w_types(c):
    return _work("types_", c)


def w_wiring(c):
    return _work("wiring", c)


def w_values(c):
    return _work("values", c)


def w_functions(c):
    return _work("functions", c)


def go(r, work, mod, n):
    import importlib

    cs = importlib.import_module("vt.onnxi." + mod).cases(r.tier)
    collect(r, work, spread(cs, n), 400 if r.tier == "quick" else 2500)


def check_o01(r):
    go(r, w_types, "types_", 48)
    r.functions += [SRC + f for f in ("ContextCache.type_proto_to_type", "get_vtensor_type", "get_list_type", "get_optional_type",
                                      "get_list_element_type", "get_optional_element_type", "tensor_element_type", "tensor_proto_to_type",
                                      "GraphInfo.find_type_proto_for_name", "NodeImporter.define_function", "import_node", "ELEM_TYPE_TO_IR_TYPE_CB")]
    r.bounds = ["two values per model; tensors of rank 0..3 whose dimensions are known (solver variable 0..2^62), named or absent; tensors "
                "without shape; lists, optionals, optional lists; every element type the importer knows"]
    r.outside = ["maps, sparse tensors, nested sequences (refused)"]
    r.assumptions = COMMON
    return ("models whose declared types have solver-valued dimensions are imported; the recorded type texts of parameters, results and "
            "intermediate values are read back and proved equal to the declarations")


def check_o02(r):
    go(r, w_wiring, "wiring", 64)
    r.functions += [SRC + f for f in ("ModelInfo", "GraphInfo", "NodeImporter.define_function", "_populate_graph_attrs", "import_all", "import_node",
                                      "import_regions", "count_regions", "import_initializer", "get_none", "_handle_node_Constant")]
    r.bounds = ["graphs of up to three nodes, two subgraphs, nesting depth two; every input name is a solver variable over all definitions, the "
                "empty name and one undefined name; initializers that name an input or not; operator set versions and IR version any 31-bit number"]
    r.outside = ["graphs that are not in SSA form (a subgraph redefining a name that is visible in it)", "sparse initializers"]
    r.assumptions = COMMON + ["operators are uninterpreted: equal terms mean equal results for every interpretation"]
    return ("graphs whose node inputs, outputs and graph outputs are solver-valued names are imported; the values computed by the recorded "
            "operations are proved equal to the graph's, result types are those of the names, undefined names are refused")


def check_o03(r):
    go(r, w_values, "values", 32)
    r.functions += [SRC + f for f in ("import_attributes", "ATTRIBUTE_TYPE_HANDLERS", "ContextCache.tensor_proto_to_attr", "tensor_proto_to_builtin_type",
                                      "ELEM_TYPE_INLINE_TENSOR_PROTO_CB", "import_initializer", "_handle_node_Constant", "_sanitize_name")]
    r.bounds = ["every attribute type, two attributes per node, lists of length 0..3, integers over 64 bits, floats as reals",
                "tensors of up to four elements in six shapes, every element type, typed fields (all element values) and raw_data"]
    r.outside = ["4-bit and string tensors", "externally stored data (loaded by onnx before the importer runs)"]
    r.assumptions = COMMON + ["numpy conversions: integers wrap, exact where the target format contains the source format"]
    return ("attributes and tensors with solver-valued elements are imported as initializers, constants and attributes; every recorded element "
            "is proved equal to the message's, with shape and element type; attribute kinds without a representation are refused")


def check_o04(r):
    go(r, w_functions, "functions", 32)
    r.functions += [SRC + f for f in ("ModuleCache.get_operator_function", "_specialize_function_and_create_model", "_bind_attributes_on_node",
                                      "import_node", "NodeImporter.define_function", "Config allow/deny lists")]
    r.bounds = ["up to two plain and two context-dependent body versions and the model's version: any numbers 1..40; two calls per model differing "
                "in attribute, dimension, rank, element type or omitted input; references to INT, FLOAT, INTS attributes, in nested subgraphs; "
                "eight allow lists by four deny lists by two domains"]
    r.outside = ["onnx's own shape inference and operator registry (stand-ins; the inferred types are trusted)"]
    r.assumptions = COMMON
    return ("models calling an operator whose registered bodies, versions and attributes are solver-chosen are imported; after inlining the calls "
            "the results are proved to be the body of the newest applicable version with the caller's (or default) attributes, and every call "
            "to agree with the function's types")


TABLE = {"O01": check_o01, "O02": check_o02, "O03": check_o03, "O04": check_o04}


def check(r):
    return TABLE[r.prop](r)
