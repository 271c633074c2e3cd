"""Cuts the functions a check needs, and everything they use, out of the C++
sources in /repo, and generates handle classes for the operations they name
from the operation definitions (*.td) in /repo."""
import os
import re

REPO = os.environ.get("VT_REPO", "/repo")
KEYWORDS = set("if for while switch return sizeof alignof decltype catch static_assert defined operator new delete".split())
IDENT = re.compile(r"[A-Za-z_]\w*")


class Chunk:
    __slots__ = ("text", "names", "ns", "method", "kind", "file", "line", "decl", "toks")

    def __init__(self, **kw):
        for k, v in kw.items():
            setattr(self, k, v)


def blank(src):
    """`src` with comments and the insides of literals replaced by spaces."""
    out, i, n = [], 0, len(src)
    while i < n:
        c = src[i]
        two = src[i:i + 2]
        if two == "//":
            j = src.find("\n", i)
            j = n if j < 0 else j
            out.append(" " * (j - i))
            i = j
        elif two == "/*":
            j = src.find("*/", i)
            j = n if j < 0 else j + 2
            out.append(re.sub(r"[^\n]", " ", src[i:j]))
            i = j
        elif two == 'R"' and re.match(r'R"([^\s()\\]{0,16})\(', src[i:i + 20]):
            d = re.match(r'R"([^\s()\\]{0,16})\(', src[i:i + 20]).group(1)
            j = src.find(")" + d + '"', i) + len(d) + 2
            out.append('R"' + re.sub(r"[^\n]", " ", src[i + 2:j - 1]) + '"')
            i = j
        elif c == '"' or (c == "'" and not (i and src[i - 1].isalnum() and src[i + 1:i + 2].isalnum() and src[i + 2:i + 3] != "'")):
            j = i + 1
            while src[j] != c:
                j += 2 if src[j] == "\\" else 1
            out.append(c + " " * (j - i - 1) + c)
            i = j + 1
        else:
            out.append(c)
            i += 1
    return "".join(out)


def strip_comments(src):
    """`src` without comments (literals kept), line structure preserved."""
    b = blank(src)
    out = []
    i, n = 0, len(src)
    while i < n:
        two = src[i:i + 2]
        if b[i] == " " and two in ("//", "/*"):
            j = src.find("\n" if two == "//" else "*/", i)
            j = n if j < 0 else j + (0 if two == "//" else 2)
            out.append(re.sub(r"[^\n]", " ", src[i:j]))
            i = j
        elif b[i] in "\"'" and src[i] == b[i]:
            j = b.find(b[i], i + 1) + 1
            assert j > i
            out.append(src[i:j])
            i = j
        else:
            out.append(src[i])
            i += 1
    return "".join(out)


def head_names(head):
    """(names, method) declared by a declaration or definition head."""
    h = re.sub(r"\b(static|inline|constexpr|extern|virtual|explicit|LLVM_ATTRIBUTE_UNUSED)\b", " ", head).strip()
    h = re.sub(r"^template\s*<", "template<", h)
    tpl = h.startswith("template<")
    if tpl:
        d = 0
        for i in range(len("template"), len(h)):
            d += (h[i] == "<") - (h[i] == ">")
            if d == 0:
                break
        h = h[i + 1:].strip()
    m = re.match(r"(using|typedef)\b", h)
    if m:
        m2 = re.match(r"using\s+([A-Za-z_]\w*)\s*=", h)
        if m2:
            return [m2.group(1)], None, "using"
        m2 = re.match(r"typedef\b.*?([A-Za-z_]\w*)\s*$", h, re.S)
        return ([m2.group(1)] if m2 else []), None, "using"
    m = re.match(r"(struct|class|enum\s+class|enum|union)\s+([A-Za-z_]\w*)", h)
    if m and not re.match(r"(struct|class)\s+\w+(\s*<[^;{]*>)?\s+[*&]?\w+\s*\(", h):
        extra = []
        return [m.group(2)] + extra, None, m.group(1)
    # a function: the identifier before the first parenthesis at angle depth 0
    d = 0
    for i, c in enumerate(h):
        if c == "<" and h[i - 1:i] != "<" and h[i + 1:i + 2] != "<":
            d += 1
        elif c == ">" and h[i - 1] != "-":
            d = max(0, d - 1)
        elif c == "=" and d == 0 and "(" not in h[:i] and not h[:i].rstrip().endswith("operator"):
            break
        elif c == "(" and d == 0:
            m = re.search(r"((?:[A-Za-z_]\w*\s*(?:<[^()]*>)?\s*::\s*)*)(~?[A-Za-z_]\w*|operator\s*\S+)\s*(?:<[^()]*>)?\s*$", h[:i])
            if not m:
                return [], None, "other"
            return [m.group(2)], m.group(1).replace(" ", "").replace("\n", ""), "fn"
    m = re.match(r".*?([A-Za-z_]\w*)\s*(\[[^\]]*\]\s*)*(=|$|\{)", h, re.S)
    return ([m.group(1)] if m else []), None, "var"


def chunks_of(path, default_ns=""):
    """The top-level declarations of a source file, namespaces looked through."""
    src = open(os.path.join(REPO, path)).read()
    text, b = strip_comments(src), blank(src)
    out, ns = [], []
    i, n = 0, len(b)

    def close(k, op, cl):
        d = 0
        while True:
            d += (b[k] == op) - (b[k] == cl)
            if d == 0:
                return k
            k += 1

    while i < n:
        if b[i].isspace() or b[i] == ";":
            i += 1
            continue
        if b[i] == "#":
            j = i
            while True:
                k = b.find("\n", j)
                k = n if k < 0 else k
                if b[k - 1] == "\\" and k < n:
                    j = k + 1
                    continue
                break
            m = re.match(r"#\s*define\s+([A-Za-z_]\w*)", b[i:k])
            if m and not m.group(1).endswith("_H") and m.group(1) not in ("DEBUG_TYPE", "GET_OP_CLASSES", "GET_TYPEDEF_CLASSES"):
                out.append(Chunk(text=text[i:k] + "\n", names=[m.group(1)], ns=None, method=None, kind="define", file=path,
                                 line=b.count("\n", 0, i) + 1, decl=False, toks=None))
            i = k
            continue
        m = re.match(r"(inline\s+)?namespace\b\s*([\w:]*)\s*\{", b[i:])
        if m:
            ns.append(m.group(2))
            i += m.end()
            continue
        if b[i] == "}":
            if not ns:
                raise ValueError(f"{path}: unbalanced braces at line {b.count(chr(10), 0, i) + 1}")
            ns.pop()
            i += 1
            continue
        j, brace, eq = i, False, False
        while True:
            if j >= n:
                break
            c = b[j]
            if c in "([":
                j = close(j, c, ")" if c == "(" else "]")
            elif c == "=" and b[j - 1] not in "=!<>" and b[j + 1] != "=" and not brace:
                eq = True
            elif c == "{":
                j = close(j, "{", "}")
                head = b[i:j]
                kind = head_names(b[i:b.find("{", i)])[2]
                if not eq and kind in ("fn", "other"):
                    j += 1
                    break
                brace = True
            elif c == ";":
                j += 1
                break
            j += 1
        body = text[i:j]
        k = b.find("{", i, j)
        hd = b[i:k if k >= 0 else j].rstrip(" ;\n")
        names, method, kind = head_names(hd)
        if re.match(r"using\s+namespace", hd):
            kind = "usingns"
        decl = kind in ("fn", "struct", "class", "enum") and k < 0 and (kind != "var")
        full = default_ns if not ns else "::".join(x for x in ns if x)
        if names and kind in ("enum", "enum class") and k >= 0:
            names = names + IDENT.findall(re.sub(r"=[^,}]*", "", b[k:j])) if kind == "enum" else names
        out.append(Chunk(text=body, names=names, ns=full or default_ns, method=method, kind=kind, file=path,
                         line=b.count("\n", 0, i) + 1, decl=decl, toks=None))
        i = j
    return out


NSQ = re.compile(r"\b(?:::)?(?:mlir::)?(?:torch::)?(?:Torch::|torch_upstream::|torch_to_linalg::|onnx_c::|Torch::detail::|TorchConversion::)$")


class Unit:
    """The declarations of several files, from which slices are cut."""

    def __init__(self, files, provided=(), drop=()):
        self.chunks = []
        for f in files:
            path, ns = f if isinstance(f, tuple) else (f, "mlir::torch::Torch")
            self.chunks += chunks_of(path, ns)
        self.provided = set(provided)  # names the stand-ins define
        self.drop = set(drop)  # functions declared but not defined
        self.by = {}
        for i, c in enumerate(self.chunks):
            if c.kind in ("usingns", "other"):
                continue
            q = (c.method or "").rstrip(":")
            c.method = None
            if q and q not in ("mlir::torch::Torch", "mlir::torch", "Torch", "torch::Torch", "mlir", "torch_upstream", "mlir::torch::torch_upstream",
                               "torch_to_linalg", "torch::torch_upstream", "mlir::torch::torch_to_linalg"):
                cls = q.split("::")[-1]
                c.method = cls
                self.by.setdefault(f"{cls}::{c.names[0]}", []).append(i)
                continue
            for nm in c.names:
                if nm not in self.provided:
                    self.by.setdefault(nm, []).append(i)

    def find(self, name):
        return [self.chunks[i] for i in self.by.get(name, [])]

    def slice(self, wanted, seeds=()):
        """Indices of the chunks `wanted` needs, in file order."""
        todo, seen = [], set()
        for w in wanted:
            if w not in self.by:
                raise KeyError(w)
            todo += self.by[w]
        for s in seeds:
            todo += self.by.get(s, [])
        while todo:
            i = todo.pop()
            if i in seen:
                continue
            seen.add(i)
            c = self.chunks[i]
            if c.toks is None:
                c.toks = set(IDENT.findall(blank(c.text)))
            body_dropped = c.kind == "fn" and c.names and c.names[0] in self.drop
            for t in c.toks if not body_dropped else set(IDENT.findall(c.text.split("{")[0])):
                if t in self.by and t not in KEYWORDS:
                    todo += self.by[t]
            # methods of classes that were cut out too
            if c.kind in ("struct", "class"):
                for k, v in self.by.items():
                    if k.startswith(c.names[0] + "::"):
                        todo += v
        return sorted(seen)

    def render(self, idx):
        out = []
        for i in idx:
            c = self.chunks[i]
            t = c.text
            if c.kind == "fn":
                k = blank(t).find("(")
                head, rest = t[:k], t[k:]
                m = re.search(r"((?:[A-Za-z_]\w*::)*)([A-Za-z_]\w*|operator\s*\S+)\s*$", head)
                if m and m.group(1):
                    q = m.group(1)[:-2].split("::")
                    ns = (c.ns or "").split("::")
                    while q and (q[0] in ns):
                        q = q[1:]
                    head = head[:m.start()] + "".join(x + "::" for x in q) + head[m.start(2):]
                if c.names and c.names[0] in self.drop and "{" in rest:
                    b = blank(t)
                    d, j = 0, k
                    while True:
                        d += (b[j] == "(") - (b[j] == ")")
                        if d == 0:
                            break
                        j += 1
                    rest = t[k:j + 1] + ";"
                t = head + rest
            line = f'// {c.file}:{c.line}\n'
            if c.ns:
                out.append(f"{line}namespace {c.ns} {{\n{t}\n}}\n")
            else:
                out.append(f"{line}{t}\n")
        return "\n".join(out)


# ------------------------------------------------------------ operation classes
TD = ["include/torch-mlir/Dialect/Torch/IR/GeneratedTorchOps.td", "include/torch-mlir/Dialect/Torch/IR/TorchOps.td"]
FIXED = {"Torch_IntType": "IntType", "Torch_FloatType": "FloatType", "Torch_BoolType": "BoolType", "Torch_StringType": "StringType",
         "Torch_NumberType": "NumberType", "Torch_NoneType": "NoneType", "Torch_DeviceType": "DeviceType", "Torch_GeneratorType": "GeneratorType"}


class OpDef:
    pass


def split_top(s):
    out, d, cur = [], 0, ""
    for c in s:
        d += (c in "<([{") - (c in ">)]}")
        if c == "," and d == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += c
    if cur.strip():
        out.append(cur.strip())
    return out


def opdefs():
    defs = {}
    for f in TD:
        src = re.sub(r'^\s*//.*$', '', open(os.path.join(REPO, f)).read(), flags=re.M)
        for m in re.finditer(r'^def Torch_(\w+)\s*:\s*Torch_Op<\s*"([^"]+)"\s*,\s*\[(.*?)\]\s*>\s*\{(.*?)^\}', src, re.S | re.M):
            o = OpDef()
            o.name, o.mnemonic, o.traits, body = m.group(1), "torch." + m.group(2), m.group(3), m.group(4)
            o.ins, o.outs = [], []
            for what, lst in (("ins", o.ins), ("outs", o.outs)):
                k = re.search(r"\(\s*%s\b" % what, body)
                if not k:
                    continue
                d, j = 0, k.start()
                while True:
                    d += (body[j] == "(") - (body[j] == ")")
                    if d == 0:
                        break
                    j += 1
                for a in split_top(body[k.end():j]):
                    mm = re.match(r"(.*?):\s*\$(\w+)$", a, re.S)
                    if mm:
                        lst.append((mm.group(1).strip(), mm.group(2)))
                    elif a:
                        lst.append((a, ""))
            o.folder = "hasFolder = 1" in body
            o.canon = "hasCanonicalizer = 1" in body
            o.regions = "region" in body and "let regions" in body
            defs[o.name] = o
    return defs


def camel(n):
    return "".join(p[:1].upper() + p[1:] for p in n.split("_"))


def is_attr(t):
    return bool(re.search(r"Attr\b", t))


def op_class(o, multi_fold=False):
    L = []
    pure = "Pure" in o.traits
    L.append(f"struct {o.name} : vtOp {{ VT_OPBASE({o.name}, \"{o.mnemonic}\", {'true' if pure else 'false'}, "
             f"{'true' if 'ReadOnly' in o.traits else 'false'}, {'true' if 'HasValueSemantics' in o.traits else 'false'})")
    if len(o.outs) == 1:
        L.append("  VT_ONERES" if not any(camel(n) == "Type" for _, n in o.ins) else
                 "  Value getResult() const { return op->getResult(0); } operator Value() const { return op->getResult(0); }")
    else:
        L.append("  Value getResult(unsigned i) const { return op->getResult(i); }")
    for i, (t, n) in enumerate(o.outs):
        if n and n != "result":
            L.append(f"  Value get{camel(n)}() const {{ return op->getResult({i}); }}" if not t.startswith("Variadic") else
                     f"  ValueRange get{camel(n)}() const {{ return op->getResults(); }}")
    k, ad = 0, []
    for t, n in o.ins:
        if is_attr(t):
            base = {"I64Attr": "IntegerAttr", "F64Attr": "FloatAttr", "StrAttr": "StringAttr", "ElementsAttr": "ElementsAttr"}.get(t, "Attribute")
            L.append(f"  {base} get{camel(n)}Attr() const {{ return cast<{base}>(op->getAttr(\"{n}\")); }}")
            continue
        if t.startswith("Variadic"):
            L.append(f"  ValueRange get{camel(n)}() const {{ return op->getOperands().drop_front({k}); }}")
            ad.append(f"ArrayRef<Attribute> get{camel(n)}() const {{ return ArrayRef<Attribute>(attrs).drop_front({k}); }}")
        else:
            L.append(f"  Value get{camel(n)}() const {{ return op->getOperand({k}); }}")
            ad.append(f"Attribute get{camel(n)}() const {{ return attrs[{k}]; }}")
        k += 1
    L.append("  struct Adaptor : vtAdaptor { using vtAdaptor::vtAdaptor; " + " ".join(ad) + " };")
    if len(o.outs) == 1 and not multi_fold:
        L.append("  VT_FOLD")
    else:
        L.append("  using FoldAdaptor = Adaptor; LogicalResult fold(FoldAdaptor adaptor, SmallVectorImpl<OpFoldResult> &results); "
                 "static void getCanonicalizationPatterns(RewritePatternSet &patterns, MLIRContext *context);")
    fixed = FIXED.get(o.outs[0][0]) if len(o.outs) == 1 else None
    tys = f"c.types.size() ? c.types : std::vector<Type>{{{fixed}::get(&vt_ctx)}}" if fixed else "c.types"
    nres = len(o.outs)
    nattr = sum(is_attr(t) for t, _ in o.ins)
    L.append(f"  template <class B, class... A> static {o.name} create(B &b, Location, A &&...a) {{ vtCreate c = vt_collect(b, a...); "
             f"assert(c.attrs.size() + c.ints.size() + c.fps.size() + c.strs.size() <= {nattr}); Operation *o = vt_newop(&vt_info, c.operands, {tys}); "
             f"assert(o->results.size() == {nres} && \"{o.name}: result count\"); " +
             (f"assert(o->operands.size() == {k} && \"{o.name}: operand count\"); " if not any(t.startswith('Variadic') for t, _ in o.ins) else "") +
             "return o; }")
    L.append("};")
    return "\n".join(L)


def op_classes(text, defs, provided):
    """Handle classes for the operations `text` names."""
    toks = set(re.findall(r"\b\w+Op\b", text))
    multi = set(re.findall(r"LogicalResult\s+(\w+Op)::fold", text))
    names = [n for n in toks if n in defs and n not in provided]
    return ("namespace mlir { namespace torch { namespace Torch {\n" + "".join(f"struct {n};\n" for n in sorted(names)) +
            "\n".join(op_class(defs[n], n in multi) for n in sorted(names)) + "\n}}}\n")


def provided_names(*headers):
    """Names the stand-in headers define."""
    out = {"kUnknownSize"}
    for h in headers:
        b = blank(open(h).read())
        out |= set(re.findall(r"\b(?:struct|class|enum|enum\s+class)\s+([A-Za-z_]\w*)", b))
        out |= set(re.findall(r"\busing\s+([A-Za-z_]\w*)\s*=", b))
        out |= set(re.findall(r"^(?:VT_TT|VT_CASTOP)\((\w+)", b, re.M)) | set(re.findall(r"\bVT_TT\((\w+)", b)) | set(re.findall(r"\bVT_CASTOP\((\w+)", b))
    return out
