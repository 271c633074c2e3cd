"""Translates the functions of an LLVM module to python (lazily) for vt.ll.exec."""
import ctypes as C

from ..decide import Unsupported
from . import capi, exec as X, runtime
from .capi import L, lib


class Global:
    def __init__(self, size, init):
        self.size, self.init = size, init


class Module:
    def __init__(self, path, max_blocks=400000):
        self.h = capi.parse(path)
        self.dl = L.LLVMGetModuleDataLayout(self.h)
        self.max_blocks = max_blocks
        self._types = {}
        self.funcs, self.fn_at, self.fn_addr = {}, {}, {}
        self.cache = {}
        f = L.LLVMGetFirstFunction(self.h)
        i = 1
        while f:
            n = capi.name(f)
            self.funcs[n] = f
            a = (0x7F << 56) | (i << 8)
            self.fn_at[a], self.fn_addr[n] = n, a
            i += 1
            f = L.LLVMGetNextFunction(f)
        self.globals = {}
        self.aliases = {}
        a = L.LLVMGetFirstGlobalAlias(self.h)
        while a:
            self.aliases[capi.name(a)] = capi.name(L.LLVMAliasGetAliasee(a))
            a = L.LLVMGetNextGlobalAlias(a)
        self.ctors = []
        g = L.LLVMGetFirstGlobal(self.h)
        while g:
            n = capi.name(g)
            init = L.LLVMGetInitializer(g)
            if n == "llvm.global_ctors":
                for k in range(L.LLVMGetArrayLength2(self.tyof(init))):
                    e = L.LLVMGetAggregateElement(init, k)
                    self.ctors.append(capi.name(L.LLVMGetOperand(e, 1)))
            elif not n.startswith("llvm."):
                t = L.LLVMGlobalGetValueType(g)
                self.globals[n] = Global(max(1, self.size(t)), self.initializer(init, t) if init else None)
            g = L.LLVMGetNextGlobal(g)

    # -- types
    def tyof(self, v):
        return L.LLVMTypeOf(v)

    def size(self, t):
        return lib().LLVMABISizeOfType(C.c_void_p(self.dl), C.c_void_p(t))

    def ty(self, t):
        """("i", w) ("f", w) ("p",) ("v",) ("s", ((offset, type), ...))"""
        r = self._types.get(t)
        if r is not None:
            return r
        k = L.LLVMGetTypeKind(t)
        if k == capi.INT:
            r = ("i", L.LLVMGetIntTypeWidth(t))
        elif k in (capi.HALF, capi.FLOAT, capi.DOUBLE):
            r = ("f", {capi.HALF: 16, capi.FLOAT: 32, capi.DOUBLE: 64}[k])
        elif k == capi.PTR:
            r = ("p",)
        elif k == capi.VOID:
            r = ("v",)
        elif k == capi.STRUCT:
            n = L.LLVMCountStructElementTypes(t)
            r = ("s", tuple((lib().LLVMOffsetOfElement(C.c_void_p(self.dl), C.c_void_p(t), i), self.ty(L.LLVMStructGetTypeAtIndex(t, i)))
                            for i in range(n)))
        elif k == capi.ARRAY or k == capi.VECTOR:
            n = lib().LLVMGetArrayLength2(C.c_void_p(t)) if k == capi.ARRAY else L.LLVMGetVectorSize(t)
            e = L.LLVMGetElementType(t)
            s = self.size(e)
            if n > 4096:
                raise Unsupported("large array value")
            et = self.ty(e)
            if k == capi.VECTOR and et[0] == "i" and et[1] % 8:
                raise Unsupported("vector of odd integers")
            r = ("s", tuple((i * s, et) for i in range(n)), "vec" if k == capi.VECTOR else "")
        else:
            raise Unsupported(f"type kind {k}")
        self._types[t] = r
        return r

    # -- constants
    def initializer(self, c, t):
        def init(M):
            out = []
            self.flat(M, c, t, 0, out)
            return out

        return init

    def flat(self, M, c, t, off, out):
        k = L.LLVMGetTypeKind(t)
        vk = L.LLVMGetValueKind(c)
        if vk in (capi.VK_ZEROAGG,):
            n = self.size(t)
            i = 0
            while i < n:
                w = 8 if n - i >= 8 and (off + i) % 8 == 0 else 1
                out.append((off + i, 0, w))
                i += w
            return
        if vk in (capi.VK_UNDEF, 25) and k in (capi.STRUCT, capi.ARRAY):
            return
        if k == capi.STRUCT:
            for i in range(L.LLVMCountStructElementTypes(t)):
                self.flat(M, L.LLVMGetAggregateElement(c, i), L.LLVMStructGetTypeAtIndex(t, i),
                          off + lib().LLVMOffsetOfElement(C.c_void_p(self.dl), C.c_void_p(t), i), out)
            return
        if k == capi.ARRAY:
            e = L.LLVMGetElementType(t)
            s = self.size(e)
            for i in range(lib().LLVMGetArrayLength2(C.c_void_p(t))):
                self.flat(M, L.LLVMGetAggregateElement(c, i), e, off + i * s, out)
            return
        v = self.const(c)(M)
        out.append((off, v, self.size(t)))

    def const(self, c):
        """M -> value of a constant"""
        vk = L.LLVMGetValueKind(c)
        t = self.ty(self.tyof(c))
        if vk == capi.VK_CINT:
            w = t[1]
            if w <= 64:
                v = L.LLVMConstIntGetZExtValue(c) & ((1 << w) - 1)
            else:
                v = int(capi.text(c).split()[-1]) & ((1 << w) - 1)
            return lambda M: v
        if vk == capi.VK_CFP:
            lost = C.c_int()
            v = lib().LLVMConstRealGetDouble(C.c_void_p(c), C.byref(lost))
            return lambda M: v
        if vk in (capi.VK_NULL, capi.VK_ZEROAGG):
            v = self.zero(t)
            return lambda M: v
        if vk in (capi.VK_UNDEF, 25):
            v = self.zero(t)
            return lambda M: v
        if vk == capi.VK_FUNC:
            a = self.fn_addr[capi.name(c)]
            return lambda M: a
        if vk == capi.VK_GLOBAL:
            n = capi.name(c)
            return lambda M: M.globals[n]
        if vk == capi.VK_ALIAS:
            return self.const(L.LLVMAliasGetAliasee(c))
        if vk in (capi.VK_CSTRUCT, capi.VK_CARRAY, capi.VK_CDARRAY, capi.VK_CVEC, capi.VK_CDVEC):
            es = [self.const(L.LLVMGetAggregateElement(c, i)) for i in range(len(t[1]))]
            return lambda M: tuple(e(M) for e in es)
        if vk == capi.VK_CEXPR:
            op = capi.OPC[L.LLVMGetConstOpcode(c)]
            a = [L.LLVMGetOperand(c, i) for i in range(L.LLVMGetNumOperands(c))]
            if op == "gep":
                base, off = self.const(a[0]), self.gep_const(L.LLVMGetGEPSourceElementType(c), a[1:])
                return lambda M: (base(M) + off) & 0xFFFFFFFFFFFFFFFF
            if op in ("ptrtoint", "inttoptr", "bitcast"):
                return self.const(a[0])
            if op in ("add", "sub", "mul", "xor", "shl"):
                x, y = self.const(a[0]), self.const(a[1])
                return lambda M: X.ibin(op, x(M), y(M), t[1], M)
            if op == "trunc":
                x = self.const(a[0])
                w = self.ty(self.tyof(a[0]))
                return lambda M: X.trunc(x(M), w[1], t[1])
            if op == "icmp":
                x, y = self.const(a[0]), self.const(a[1])
                pr = capi.ICMP[L.LLVMGetICmpPredicate(c)]
                return lambda M: X.icmp(pr, x(M), y(M), 64)
        raise Unsupported(f"constant {capi.text(c)[:100]}")

    def zero(self, t):
        if t[0] == "f":
            return 0.0
        if t[0] == "s":
            return tuple(self.zero(e) for _, e in t[1])
        return 0

    def gep_const(self, t, idx):
        off = 0
        for i, a in enumerate(idx):
            if L.LLVMGetValueKind(a) == capi.VK_CEXPR:
                raise Unsupported("constant expression as an index")
            w = self.ty(self.tyof(a))[1]
            v = X.sgn(L.LLVMConstIntGetZExtValue(a) & ((1 << w) - 1), w)
            if i == 0:
                off += v * self.size(t)
            elif L.LLVMGetTypeKind(t) == capi.STRUCT:
                off += lib().LLVMOffsetOfElement(C.c_void_p(self.dl), C.c_void_p(t), v)
                t = L.LLVMStructGetTypeAtIndex(t, v)
            else:
                t = L.LLVMGetElementType(t)
                off += v * self.size(t)
        return off

    # -- functions
    def compiled(self, n):
        f = self.cache.get(n)
        if f is None:
            n2 = self.aliases.get(n, n)
            h = self.funcs[n2]
            if not L.LLVMGetFirstBasicBlock(h) or n2 in runtime.OVERRIDE:
                f = runtime.external(n2)
                if f is None:
                    def f(M, *a, n2=n2):
                        raise Unsupported(f"call of an unknown external function {n2}")
            else:
                f = Translator(self, h, n2).translate()
            self.cache[n] = f
        return f


class Translator:
    def __init__(self, mod, h, name):
        self.mod, self.h, self.name = mod, h, name
        self.names = {}
        self.env = {"X": X, "Trap": X.Trap, "ibin": X.ibin, "icmp": X.icmp, "fbin": X.fbin, "fcmp": X.fcmp, "select": X.select,
                    "trunc": X.trunc, "zext": X.zext, "sext": X.sext, "Unsupported": Unsupported}
        self.lines = []
        self.k = 0

    def konst(self, v):
        self.k += 1
        n = f"K{self.k}"
        self.env[n] = v
        return n

    def val(self, v):
        n = self.names.get(v)
        if n is not None:
            return n
        vk = L.LLVMGetValueKind(v)
        if vk in (24, capi.VK_ARG):
            n = self.names[v] = f"v{len(self.names)}"
            return n
        if vk == capi.VK_CINT:
            return str(self.mod.const(v)(None))
        if vk == capi.VK_CFP:
            r = repr(self.mod.const(v)(None))
            return r if r[-1].isdigit() else f"float('{r}')"
        if vk in (22, 23):
            return "None"
        f = self.mod.const(v)
        if vk in (capi.VK_NULL, capi.VK_UNDEF, 25, capi.VK_FUNC, capi.VK_ZEROAGG):
            return repr(f(None)) if not isinstance(f(None), float) else "0.0"
        return f"{self.konst(f)}(M)"

    def t(self, v):
        return self.mod.ty(self.mod.tyof(v))

    def translate(self):
        mod = self.mod
        blocks = []
        b = L.LLVMGetFirstBasicBlock(self.h)
        while b:
            blocks.append(b)
            b = L.LLVMGetNextBasicBlock(b)
        self.bid = {b: i for i, b in enumerate(blocks)}
        params = [self.val(L.LLVMGetParam(self.h, i)) for i in range(L.LLVMCountParams(self.h))]
        out = []
        for b in blocks:
            self.lines = []
            i = L.LLVMGetFirstInstruction(b)
            while i:
                try:
                    self.instr(i, b)
                except Unsupported as e:
                    self.lines.append(f"raise Unsupported({str(e)!r})")
                    break
                i = L.LLVMGetNextInstruction(i)
            out.append(self.lines)
        src = [f"def fn(M{''.join(', ' + p for p in params)}):"]
        if len(out) == 1:
            src += ["  " + x for x in out[0]]
        else:
            src.append("  b = 0")
            src.append("  while True:")
            src.append("    M.tick()")
            self.tree(src, out, 0, len(out), "    ")
        code = "\n".join(src)
        try:
            exec(compile(code, f"<ir {self.name[:60]}>", "exec"), self.env)
        except SyntaxError:
            raise RuntimeError(code)
        return self.env["fn"]

    def tree(self, src, out, lo, hi, ind):
        if hi - lo == 1:
            src += [ind + x for x in out[lo]] or [ind + "pass"]
            return
        mid = (lo + hi) // 2
        src.append(f"{ind}if b < {mid}:")
        self.tree(src, out, lo, mid, ind + " ")
        src.append(f"{ind}else:")
        self.tree(src, out, mid, hi, ind + " ")

    def goto(self, frm, to, ind=""):
        """phi assignments and the jump"""
        ph = []
        i = L.LLVMGetFirstInstruction(to)
        while i and L.LLVMGetInstructionOpcode(i) == 44:
            for k in range(L.LLVMCountIncoming(i)):
                if L.LLVMGetIncomingBlock(i, k) == frm:
                    ph.append((self.val(i), self.val(L.LLVMGetIncomingValue(i, k))))
                    break
            i = L.LLVMGetNextInstruction(i)
        ph = [(a, v) for a, v in ph if a != v]
        if ph:
            self.lines.append(ind + ", ".join(a for a, _ in ph) + " = " + ", ".join(v for _, v in ph))
        self.lines.append(f"{ind}b = {self.bid[to]}")

    def instr(self, i, blk):
        e = self.lines.append
        opn = L.LLVMGetInstructionOpcode(i)
        op = capi.OPC.get(opn)
        if op is None:
            raise Unsupported(f"instruction {capi.text(i)[:80]}")
        if op == "phi":
            return
        nop = L.LLVMGetNumOperands(i)
        if op == "br":
            n = L.LLVMGetNumSuccessors(i)
            if n == 1:
                self.goto(blk, L.LLVMGetSuccessor(i, 0))
            else:
                c = self.val(L.LLVMGetCondition(i)) if False else self.val(L.LLVMGetOperand(i, 0))
                e(f"if {c} if {c}.__class__ is int else M.br({c}):" if c[0] == "v" else f"if {c}:")
                self.goto(blk, L.LLVMGetSuccessor(i, 0), " ")
                e("else:")
                self.goto(blk, L.LLVMGetSuccessor(i, 1), " ")
            return
        if op == "ret":
            e("return " + self.val(L.LLVMGetOperand(i, 0)) if nop else "return None")
            return
        if op == "unreachable":
            e("raise Trap('unreachable code reached')")
            return
        if op == "switch":
            c = L.LLVMGetOperand(i, 0)
            w = self.t(c)[1]
            cv = self.val(c)
            for k in range(1, L.LLVMGetNumSuccessors(i)):
                v = self.val(L.LLVMGetOperand(i, 2 * k))
                e(f"{'el' if k > 1 else ''}if M.br(icmp('eq', {cv}, {v}, {w})):")
                self.goto(blk, L.LLVMGetSuccessor(i, k), " ")
            d = L.LLVMGetSwitchDefaultDest(i)
            if L.LLVMGetNumSuccessors(i) > 1:
                e("else:")
                self.goto(blk, d, " ")
            else:
                self.goto(blk, d)
            return
        if op == "store":
            v, p = L.LLVMGetOperand(i, 0), L.LLVMGetOperand(i, 1)
            t = self.t(v)
            vv, pv = self.val(v), self.val(p)
            if t[0] == "i" and t[1] % 8 == 0:
                e(f"M.store({pv}, {vv}, {t[1] // 8})")
            elif t[0] == "p":
                e(f"M.store({pv}, {vv}, 8)")
            else:
                e(f"M.storet({pv}, {vv}, {t!r})")
            return
        if op == "fence":
            return
        if op in ("call",):
            return self.call(i, e)
        r = self.val(i)
        a = [self.val(L.LLVMGetOperand(i, k)) for k in range(nop)]
        t = self.t(i)
        if t[0] == "s" and len(t) == 3 and op not in ("load", "extractvalue", "insertvalue", "select", "freeze", "insertelement", "shufflevector"):
            return self.vector(i, op, r, a, t, e)
        if op in ("add", "sub", "mul", "and", "or", "xor"):
            w = t[1]
            sym = {"add": "+", "sub": "-", "mul": "*", "and": "&", "or": "|", "xor": "^"}[op]
            x, y = a
            fast = f"({x} {sym} {y})" + (f" & {(1 << w) - 1}" if op in ("add", "sub", "mul") else "")
            cond = " and ".join(f"{z}.__class__ is int" for z in (x, y) if z[0] == "v" or z[0] == "K") or "True"
            e(f"{r} = {fast} if {cond} else ibin('{op}', {x}, {y}, {w}, M)")
        elif op in ("udiv", "sdiv", "urem", "srem", "shl", "lshr", "ashr"):
            e(f"{r} = ibin('{op}', {a[0]}, {a[1]}, {t[1]}, M)")
        elif op in ("fadd", "fsub", "fmul", "fdiv", "frem"):
            e(f"{r} = fbin('{op}', {a[0]}, {a[1]}, {t[1]})")
        elif op == "fneg":
            e(f"{r} = -{a[0]} if {a[0]}.__class__ is float else X.z3.fpNeg({a[0]})")
        elif op == "icmp":
            ot = self.t(L.LLVMGetOperand(i, 0))
            w = 64 if ot[0] == "p" else ot[1]
            p = capi.ICMP[L.LLVMGetICmpPredicate(i)]
            sym = {"eq": "==", "ne": "!=", "ugt": ">", "uge": ">=", "ult": "<", "ule": "<="}.get(p)
            x, y = a
            if sym:
                cond = " and ".join(f"{z}.__class__ is int" for z in (x, y) if z[0] in "vK") or "True"
                e(f"{r} = (1 if {x} {sym} {y} else 0) if {cond} else icmp('{p}', {x}, {y}, {w})")
            else:
                e(f"{r} = icmp('{p}', {x}, {y}, {w})")
        elif op == "fcmp":
            w = self.t(L.LLVMGetOperand(i, 0))[1]
            p = capi.FCMP[L.LLVMGetFCmpPredicate(i)]
            e(f"{r} = {int(p == 'true')}" if p in ("true", "false") else f"{r} = fcmp('{p}', {a[0]}, {a[1]}, {w})")
        elif op == "alloca":
            at = L.LLVMGetAllocatedType(i)
            s = self.mod.size(at)
            e(f"{r} = M.new(max(1, {s} * {a[0]}), 'stack')")
        elif op == "load":
            if t[0] == "i" and t[1] % 8 == 0:
                e(f"{r} = M.load({a[0]}, {t[1] // 8}, False)")
            elif t[0] == "p":
                e(f"{r} = M.load({a[0]}, 8, False)")
            else:
                e(f"{r} = M.loadt({a[0]}, {t!r})")
        elif op == "gep":
            self.gep(i, r, a, e)
        elif op in ("trunc", "zext", "sext"):
            w = self.t(L.LLVMGetOperand(i, 0))[1]
            e(f"{r} = {op}({a[0]}, {w}, {t[1]})")
        elif op in ("fptoui", "fptosi"):
            w = self.t(L.LLVMGetOperand(i, 0))[1]
            e(f"{r} = X.fptoi(M, {a[0]}, {w}, {t[1]}, {op == 'fptosi'})")
        elif op in ("uitofp", "sitofp"):
            w = self.t(L.LLVMGetOperand(i, 0))[1]
            e(f"{r} = X.itofp({a[0]}, {w}, {t[1]}, {op == 'sitofp'})")
        elif op in ("fptrunc", "fpext"):
            w = self.t(L.LLVMGetOperand(i, 0))[1]
            e(f"{r} = X.fpconv({a[0]}, {w}, {t[1]})")
        elif op in ("ptrtoint", "inttoptr"):
            ft = self.t(L.LLVMGetOperand(i, 0))
            if op == "ptrtoint" and t[1] < 64:
                e(f"{r} = trunc({a[0]}, 64, {t[1]})")
            else:
                e(f"{r} = {a[0]}")
        elif op == "freeze":
            e(f"{r} = {a[0]}")
        elif op == "bitcast":
            ft = self.t(L.LLVMGetOperand(i, 0))
            if ft[0] == "f" and t[0] == "i":
                e(f"{r} = X.to_bits({a[0]}, {t[1]})")
            elif ft[0] == "i" and t[0] == "f":
                e(f"{r} = X.from_bits({a[0]}, {t[1]})")
            elif ft[0] == t[0] and ft[0] in "pif":
                e(f"{r} = {a[0]}")
            else:
                raise Unsupported(f"bitcast {capi.text(i)[:80]}")
        elif op == "select":
            if self.t(L.LLVMGetOperand(i, 0))[0] == "s":
                raise Unsupported("vector select")
            e(f"{r} = select(M, {a[0]}, {a[1]}, {a[2]}, {(t if t[0] != 's' else ('s',))!r})")
        elif op == "extractvalue":
            idx = lib().LLVMGetIndices(C.c_void_p(i))
            e(f"{r} = {a[0]}" + "".join(f"[{idx[k]}]" for k in range(L.LLVMGetNumIndices(i))))
        elif op == "insertvalue":
            idx = lib().LLVMGetIndices(C.c_void_p(i))
            e(f"{r} = ins({a[0]}, {[idx[k] for k in range(L.LLVMGetNumIndices(i))]!r}, {a[1]})")
            self.env["ins"] = ins
        elif op == "extractelement":
            e(f"{r} = {a[0]}[{a[1]}]")
        elif op == "insertelement":
            e(f"{r} = ins({a[0]}, [{a[2]}], {a[1]})")
            self.env["ins"] = ins
        elif op == "shufflevector":
            n = L.LLVMGetNumMaskElements(i)
            m = [C.c_int(L.LLVMGetMaskValue(i, k)).value for k in range(n)]
            e(f"_a = {a[0]} + {a[1]}")
            e(f"{r} = tuple(_a[k] if k >= 0 else _a[0] for k in {m!r})")
        else:
            raise Unsupported(f"instruction {capi.text(i)[:80]}")

    def vector(self, i, op, r, a, t, e):
        et = t[1][0][1]
        if op in ("add", "sub", "mul", "and", "or", "xor", "shl", "lshr", "ashr"):
            e(f"{r} = tuple(ibin('{op}', x, y, {et[1]}, M) for x, y in zip({a[0]}, {a[1]}))")
        elif op in ("fadd", "fsub", "fmul", "fdiv"):
            e(f"{r} = tuple(fbin('{op}', x, y, {et[1]}) for x, y in zip({a[0]}, {a[1]}))")
        else:
            raise Unsupported(f"vector instruction {capi.text(i)[:80]}")

    def gep(self, i, r, a, e):
        t = L.LLVMGetGEPSourceElementType(i)
        off, dyn = 0, []
        for k in range(1, L.LLVMGetNumOperands(i)):
            o = L.LLVMGetOperand(i, k)
            if k > 1:
                if L.LLVMGetTypeKind(t) == capi.STRUCT:
                    v = L.LLVMConstIntGetZExtValue(o)
                    off += lib().LLVMOffsetOfElement(C.c_void_p(self.mod.dl), C.c_void_p(t), C.c_uint(v))
                    t = L.LLVMStructGetTypeAtIndex(t, v)
                    continue
                t = L.LLVMGetElementType(t)
            s = self.mod.size(t)
            w = self.t(o)[1]
            if L.LLVMGetValueKind(o) == capi.VK_CINT:
                off += X.sgn(L.LLVMConstIntGetZExtValue(o) & ((1 << w) - 1), w) * s
            else:
                ix = a[k] if w == 64 else f"sext({a[k]}, {w}, 64)"
                dyn.append((ix, s))
        M64 = (1 << 64) - 1
        if not dyn:
            if off == 0:
                e(f"{r} = {a[0]}")
            else:
                e(f"{r} = ({a[0]} + {off}) & {M64} if {a[0]}.__class__ is int else ibin('add', {a[0]}, {off & M64}, 64, M)"
                  if a[0][0] == "v" else f"{r} = ({a[0]} + {off}) & {M64}")
            return
        e(f"{r} = {a[0]}" if not off else f"{r} = ibin('add', {a[0]}, {off & M64}, 64, M)")
        for ix, s in dyn:
            e(f"_i = {ix}")
            e(f"{r} = ({r} + _i * {s}) & {M64} if {r}.__class__ is int and _i.__class__ is int else "
              f"ibin('add', {r}, ibin('mul', _i, {s}, 64, M), 64, M)")

    def call(self, i, e):
        cv = L.LLVMGetCalledValue(i)
        n = L.LLVMGetNumArgOperands(i)
        vk = L.LLVMGetValueKind(cv)
        rt = self.t(i)
        if vk == capi.VK_FUNC and capi.name(cv).startswith(runtime.IGNORED):
            return
        args = [self.val(L.LLVMGetOperand(i, k)) for k in range(n)]
        r = "" if rt[0] == "v" else self.val(i) + " = "
        if vk == capi.VK_FUNC:
            fname = capi.name(cv)
            intr = runtime.intrinsic(fname)
            if intr is not None:
                k = self.konst(intr)
                ts = [self.t(L.LLVMGetOperand(i, q)) for q in range(n)]
                if any(x[0] == "s" for x in ts):
                    raise Unsupported(f"vector intrinsic {fname}")
                w = [x[1] if len(x) > 1 else 64 for x in ts]
                e(f"{r}{k}(M, {w!r}, {rt!r}{''.join(', ' + x for x in args)})")
                return
            e(f"{r}M.call({fname!r}, ({''.join(x + ', ' for x in args)}))")
        elif vk == 23:
            if "asm" in capi.text(i) and n == 0:
                return
            raise Unsupported("inline assembly")
        elif vk == capi.VK_ALIAS:
            e(f"{r}M.call({self.mod.aliases[capi.name(cv)]!r}, ({''.join(x + ', ' for x in args)}))")
        else:
            e(f"{r}M.icall({self.val(cv)}, ({''.join(x + ', ' for x in args)}))")


def ins(agg, idx, v):
    i = idx[0]
    return agg[:i] + ((v if len(idx) == 1 else ins(agg[i], idx[1:], v)),) + agg[i + 1:]
