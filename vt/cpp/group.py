"""Groups of C++ harness functions and the code of /repo they need."""
import os
import re

from . import build, tables

CASES = os.path.join(os.path.dirname(os.path.abspath(__file__)), "cases")
# long-running harness functions, started first
SLOW = ["h_AtenToDtypeLayoutOp", "h_AtenSliceTensorOp", "h_AtenSizeIntOp", "h_AtenAnyDimsOp", "h_AtenToDtypeLayoutOp_canon", "h_AtenCatOp_canon",
        "h_Aten__Contains__StrListOp", "h_AtenMulIntOp_products", "h_AtenMulLeftTOp", "h_AtenDivOp", "h_Aten__Getitem__TOp"]


class Missing(Exception):
    """Code the harness needs was not found in /repo."""


def entries(h):
    """The methods of /repo that the harness text runs."""
    want = []
    for kind, op in re.findall(r"\b(fold|canon|both)<(\w+)>", h):
        if kind in ("fold", "both"):
            want.append(op + "::fold")
        if kind in ("canon", "both"):
            want.append(op + "::getCanonicalizationPatterns")
    want += re.findall(r"\b(\w+Op::(?:fold|getCanonicalizationPatterns))\(", h)
    m = re.search(r"// needs: (.*)", h)
    return want + (m.group(1).split() if m else [])


def text(group):
    return open(os.path.join(CASES, group + ".h")).read()


def expand(h):
    """Macro uses `INT2(Op, …)` stand for the harness text with Op filled in."""
    out = h
    for m in re.finditer(r"#define (\w+)\((\w+)[^)]*\) (.*)", h):
        name, p, body = m.groups()
        for op in re.findall(r"\b%s\((\w+)" % name, h):
            if op != p:
                out += "\n" + re.sub(r"\b%s\b" % p, op, body).replace("##", "") + "\n"
    return out


def functions(group, tier="thorough"):
    fns = []
    h = text(group)
    if tier != "thorough":
        h = re.sub(r"#ifdef VT_THOROUGH\n(H\(.*?)#endif\n", "", h, flags=re.S)
    for m in re.finditer(r'\bH\((\w+)\)|extern "C" void (\w+)\(\)', expand(h)):
        f = "h_" + m.group(1) if m.group(1) else m.group(2)
        if f not in fns and f not in ("h_name", "h_Op"):
            fns.append(f)
    return fns


def source(group, only=None):
    """(source text, names of the functions cut from /repo, harness functions).
    `only`: just the code that one harness function needs."""
    h = text(group)
    x = expand(h)
    if only:
        h = only_text(group, only)
        x = expand(h)
    more = re.search(r"// files: (.*)", h)
    files = build.TORCH_IR + tuple((p, "mlir::torch::Torch") for p in (more.group(1).split() if more else []))
    made = "".join(getattr(tables, t)() for t in re.findall(r"// table: (\w+)", h))
    ids = re.findall(r"\b(?:Aten\w*|Prims?[A-Z]\w*)Op\b|\bDerefineOp\b", x)
    want = []
    for w in entries(x) + ["TorchDialect::materializeConstant"]:
        if w not in want and not w.startswith("Op::") and not w.startswith("OpT::"):
            want.append(w)
    defs = "".join(f"#define {d}\n" for d in re.findall(r"// define: (\w+)", h))
    try:
        src, names = build.tu(want, '#include "sem.h"\n' + made + h + "\n// " + " ".join(ids), files)
    except KeyError as e:
        raise Missing(str(e)) from None
    return defs + src, names, functions(group)


def only_text(group, fn):
    """The harness text with the other harness functions left out."""
    h = text(group)
    macros = {}
    for m in re.finditer(r"#define (\w+)\((\w+)[^)]*\) (.*)", h):
        macros[m.group(1)] = m.group(2)
    out, skip = [], False
    uses = r"\b(?:%s)\((?:[^()]|\((?:[^()]|\([^()]*\))*\))*\)" % "|".join(k for k in macros if k != "H")
    for line in h.split("\n"):
        if re.match(r"H\((\w+)\)", line):
            skip = "h_" + re.match(r"H\((\w+)\)", line).group(1) != fn
        elif line and not line.startswith((" ", "}")):
            skip = False
        if skip:
            continue
        if not line.startswith("#") and re.match(uses, line):
            keep = []
            for m in re.finditer(uses, line):
                name, op = re.match(r"(\w+)\((\w+)", m.group(0)).groups()
                body = re.search(r"#define %s\(.*?\) (.*)" % name, h).group(1)
                hs = re.search(r"\bH\(([\w#]+)\)", body)
                f = "h_" + re.sub(r"\b%s\b" % macros[name], op, hs.group(1).replace("##", " ## ")).replace(" ", "").replace("#", "")
                if f == fn:
                    keep.append(m.group(0))
            line = " ".join(keep)
        out.append(line)
    return "\n".join(out)
