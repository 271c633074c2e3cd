"""A thin reader of LLVM modules through the LLVM C API (ctypes)."""
import ctypes as C
import glob

_L = None


def lib():
    global _L
    if _L is None:
        for p in ["/usr/lib/llvm-18/lib/libLLVM.so.1"] + sorted(glob.glob("/usr/lib/llvm-*/lib/libLLVM*.so*")):
            try:
                _L = C.CDLL(p)
                break
            except OSError:
                pass
        ptrs = """LLVMContextCreate LLVMTypeOf LLVMGetFirstFunction LLVMGetNextFunction LLVMGetFirstBasicBlock LLVMGetNextBasicBlock
        LLVMGetFirstInstruction LLVMGetNextInstruction LLVMGetOperand LLVMGetFirstGlobal LLVMGetNextGlobal LLVMGetInitializer
        LLVMGlobalGetValueType LLVMGetElementType LLVMStructGetTypeAtIndex LLVMGetAllocatedType LLVMGetGEPSourceElementType
        LLVMGetCalledValue LLVMGetCalledFunctionType LLVMGetReturnType LLVMGetModuleDataLayout LLVMGetParam LLVMGetIncomingValue
        LLVMGetIncomingBlock LLVMGetSuccessor LLVMGetAggregateElement LLVMGetSwitchDefaultDest LLVMBasicBlockAsValue LLVMValueAsBasicBlock
        LLVMGetNamedFunction LLVMGetNamedGlobal LLVMAliasGetAliasee LLVMGetFirstGlobalAlias LLVMGetNextGlobalAlias""".split()
        for n in ptrs:
            getattr(_L, n).restype = C.c_void_p
        for n in ("LLVMABISizeOfType", "LLVMStoreSizeOfType", "LLVMOffsetOfElement", "LLVMGetArrayLength2"):
            getattr(_L, n).restype = C.c_ulonglong
        _L.LLVMGetValueName2.restype = C.c_char_p
        _L.LLVMPrintValueToString.restype = C.c_void_p
        _L.LLVMConstRealGetDouble.restype = C.c_double
        _L.LLVMConstIntGetZExtValue.restype = C.c_ulonglong
        _L.LLVMGetIndices.restype = C.POINTER(C.c_uint)
    return _L


class F:
    """Every argument is passed as a pointer unless it is an int below 2**31."""

    def __getattr__(self, n):
        f = getattr(lib(), n)

        def call(*a):
            return f(*[C.c_void_p(x) if isinstance(x, int) and x > 0x7FFFFFFF else x for x in a])

        setattr(self, n, call)
        return call


L = F()

# LLVMTypeKind
VOID, HALF, FLOAT, DOUBLE, X86FP80, FP128, PPC, LABEL, INT, FUNC, STRUCT, ARRAY, PTR, VECTOR, METADATA = range(15)
# LLVMOpcode
OPC = {1: "ret", 2: "br", 3: "switch", 4: "indirectbr", 5: "invoke", 7: "unreachable", 67: "callbr", 66: "fneg", 8: "add", 9: "fadd",
       10: "sub", 11: "fsub", 12: "mul", 13: "fmul", 14: "udiv", 15: "sdiv", 16: "fdiv", 17: "urem", 18: "srem", 19: "frem", 20: "shl",
       21: "lshr", 22: "ashr", 23: "and", 24: "or", 25: "xor", 26: "alloca", 27: "load", 28: "store", 29: "gep", 30: "trunc", 31: "zext",
       32: "sext", 33: "fptoui", 34: "fptosi", 35: "uitofp", 36: "sitofp", 37: "fptrunc", 38: "fpext", 39: "ptrtoint", 40: "inttoptr",
       41: "bitcast", 60: "addrspacecast", 42: "icmp", 43: "fcmp", 44: "phi", 45: "call", 46: "select", 53: "extractvalue",
       54: "insertvalue", 68: "freeze", 50: "extractelement", 51: "insertelement", 52: "shufflevector", 57: "fence"}
ICMP = {32: "eq", 33: "ne", 34: "ugt", 35: "uge", 36: "ult", 37: "ule", 38: "sgt", 39: "sge", 40: "slt", 41: "sle"}
FCMP = ["false", "oeq", "ogt", "oge", "olt", "ole", "one", "ord", "uno", "ueq", "ugt", "uge", "ult", "ule", "une", "true"]
# LLVMValueKind
VK_ARG, VK_BB, VK_FUNC, VK_ALIAS, VK_IFUNC, VK_GLOBAL, VK_BLOCKADDR, VK_CEXPR, VK_CARRAY, VK_CSTRUCT, VK_CVEC, VK_UNDEF, \
    VK_ZEROAGG, VK_CDARRAY, VK_CDVEC, VK_CINT, VK_CFP, VK_NULL, VK_NONE = (0, 1, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21)


def parse(path):
    l = lib()
    ctx = L.LLVMContextCreate()
    buf, msg, mod = C.c_void_p(), C.c_char_p(), C.c_void_p()
    if l.LLVMCreateMemoryBufferWithContentsOfFile(path.encode(), C.byref(buf), C.byref(msg)):
        raise RuntimeError(msg.value)
    if l.LLVMParseIRInContext(C.c_void_p(ctx), buf, C.byref(mod), C.byref(msg)):
        raise RuntimeError(msg.value)
    return mod.value


def text(v):
    p = L.LLVMPrintValueToString(v)
    return C.string_at(p).decode(errors="replace")


def name(v):
    n = C.c_size_t()
    s = lib().LLVMGetValueName2(C.c_void_p(v), C.byref(n))
    return (s or b"").decode(errors="replace")
