"""The abstract-interpretation library as the compiler embeds it: the text inside
lib/Dialect/Torch/Transforms/AbstractInterpLibrary.cpp, parsed and executed.

Values are ordinary Python values or the executor's proxies, so a function of the
library runs symbolically exactly as its Python definition does."""
import ast
import math
import re

from .. import load, symex
from ..symex import SymBool, SymInt, SymReal

FILE = load.REPO + "/lib/Dialect/Torch/Transforms/AbstractInterpLibrary.cpp"


class LibRaise(Exception):
    pass


class Unsupported(Exception):
    pass


def text():
    s = open(FILE).read()
    m = re.search(r'(return|StringRef\s+\w+\s*[=(]|const char\s*\*?\s*\w+\s*(\[\])?\s*=)\s*"module', s)
    a = m.start()
    out = []
    i = s.index('"', a)
    n = len(s)
    ESC = {"n": 10, "t": 9, "\\": 92, '"': 34, "r": 13, "'": 39, "0": 0, "a": 7, "b": 8, "f": 12, "v": 11, "?": 63}
    while True:
        # one literal
        j = i + 1
        buf = bytearray()
        raw = i > 0 and s[i - 1] == "R"
        if raw:
            k = s.index("(", i)
            d = s[i + 1:k]
            e = s.index(")" + d + '"', k)
            buf += s[k + 1:e].encode()
            j = e + len(d) + 2
        else:
            while s[j] != '"':
                if s[j] == "\\":
                    c = s[j + 1]
                    if c == "x":
                        mm = re.compile(r"[0-9A-Fa-f]+").match(s, j + 2)
                        buf.append(int(mm.group(), 16) & 255)
                        j = mm.end()
                        continue
                    if c in "01234567":
                        mm = re.compile(r"[0-7]{1,3}").match(s, j + 1)
                        buf.append(int(mm.group(), 8) & 255)
                        j = mm.end()
                        continue
                    if c == "\n":
                        j += 2
                        continue
                    buf.append(ESC[c])
                    j += 2
                    continue
                buf += s[j].encode()
                j += 1
            j += 1
        out.append(buf.decode("utf8"))
        # next token: whitespace, comments, or another literal
        k = j
        while k < n:
            if s[k].isspace():
                k += 1
            elif s.startswith("//", k):
                k = s.index("\n", k)
            elif s.startswith("/*", k):
                k = s.index("*/", k) + 2
            else:
                break
        if k < n and s[k] == '"':
            i = k
        elif s.startswith('R"', k):
            i = k + 1
        else:
            break
    return "".join(out)


_FUNC = re.compile(r'^\s*func\.func\s+(?:private\s+|public\s+)?@("(?:[^"]*)"|[\w.$]+)\((.*)$')
_VAL = re.compile(r"%[\w$.-]+(?:#\d+)?")
_RES = re.compile(r"^(%[\w$.-]+)(?::(\d+))?((?:,\s*%[\w$.-]+(?::\d+)?)*)\s*=\s*(.*)$")


class Op:
    __slots__ = ("name", "res", "nres", "args", "attr", "regions", "blockargs", "line")

    def __init__(self):
        self.regions = []
        self.blockargs = []
        self.attr = None
        self.args = []
        self.res = None
        self.nres = 0


def _strip_quotes(n):
    return n[1:-1] if n.startswith('"') else n


def _split_type(s):
    """s without the trailing ': type' part (outside strings and brackets)."""
    depth = 0
    q = False
    i = 0
    while i < len(s):
        c = s[i]
        if q:
            if c == "\\":
                i += 1
            elif c == '"':
                q = False
        elif c == '"':
            q = True
        elif c in "([{":
            depth += 1
        elif c in ")]}":
            depth -= 1
        elif c == ":" and depth == 0:
            return s[:i], s[i + 1:]
        i += 1
    return s, ""


class Func:
    def __init__(self, name, params):
        self.name = name
        self.params = params
        self.body = []


def parse(src):
    lines = [l.strip() for l in src.split("\n")]
    pos = 0
    funcs = {}

    def block():
        """ops up to the closing brace line, which is left current"""
        nonlocal pos
        ops, bargs = [], []
        while True:
            l = lines[pos]
            if l.startswith("}"):
                return ops, bargs
            pos += 1
            if not l or l.startswith("//"):
                continue
            if l.startswith("^"):
                bargs = _VAL.findall(l)
                continue
            ops.append(op(l))

    def op(l):
        nonlocal pos
        o = Op()
        o.line = l
        m = _RES.match(l)
        body = l
        if m:
            o.res, o.nres = m.group(1), int(m.group(2) or 1)
            if m.group(3):
                raise Unsupported(l)
            body = m.group(4)
        name, _, rest = body.partition(" ")
        if "(" in name:
            k = name.index("(")
            name, rest = name[:k], name[k:] + " " + rest
        if "@" in name:
            k = name.index("@")
            name, rest = name[:k], name[k:] + " " + rest
        o.name = name
        if name == "torch.prim.If":
            o.args = _VAL.findall(rest.split("->")[0])
            r, _b = block()
            o.regions.append(r)
            if not re.match(r"^}\s*else\s*{$", lines[pos]):
                raise Unsupported(lines[pos])
            pos += 1
            r, _b = block()
            o.regions.append(r)
            pos += 1
            return o
        if name == "torch.prim.Loop":
            head = rest[:rest.index("init(")]
            o.args = _VAL.findall(head)
            o.attr = _VAL.findall(rest[rest.index("init("):])
            r, b = block()
            o.regions.append(r)
            o.blockargs = b
            pos += 1
            return o
        if rest.rstrip().endswith("{"):
            raise Unsupported(l)
        if name.startswith("torch.constant."):
            t = _split_type(rest)[0].strip()
            k = name[15:]
            if k == "int":
                o.attr = int(t)
            elif k == "float":
                o.attr = float(t) if not t.startswith("0x") else float.fromhex(t)
            elif k == "bool":
                o.attr = {"true": True, "false": False}[t]
            elif k == "none":
                o.attr = None
            elif k == "str":
                o.attr = re.sub(r"\\([0-9A-Fa-f]{2}|[nt\\\"])", lambda m_: {"n": "\n", "t": "\t"}.get(
                    m_.group(1), chr(int(m_.group(1), 16)) if len(m_.group(1)) == 2 else m_.group(1)), t[1:-1])
            else:
                raise Unsupported(l)
            return o
        if name in ("call", "func.call"):
            m = re.match(r'@("[^"]*"|[\w.$]+)\((.*?)\)', rest)
            o.attr = _strip_quotes(m.group(1))
            o.args = _VAL.findall(m.group(2))
            o.name = "call"
            return o
        if name == "torch.operator":
            m = re.match(r'"([^"]*)"', rest)
            o.attr = m.group(1)
            o.args = _VAL.findall(_split_type(rest[m.end():])[0])
            return o
        head, typ = _split_type(rest)
        o.args = _VAL.findall(head)
        if name in ("torch.prim.CreateObject", "torch.prim.CallMethod"):
            o.attr = rest
        return o

    while pos < len(lines):
        l = lines[pos]
        pos += 1
        m = _FUNC.match(l)
        if m:
            head = m.group(2)
            f = Func(_strip_quotes(m.group(1)), re.findall(r"%[\w]+(?=:)", head.split(") ->")[0] + ":"))
            f.body, _ = block()
            pos += 1
            funcs[f.name] = f
    return funcs


# ------------------------------------------------------------------ execution

def _idx(l, i):
    n = len(l)
    if isinstance(i, (SymInt, SymBool)):
        return l[i]
    if not -n <= i < n:
        raise LibRaise("list index out of range")
    return l[i]


def _set(l, i, v):
    n = len(l)
    if not isinstance(i, int):
        i = i.__index__()
    if not -n <= i < n:
        raise LibRaise("list index out of range")
    l[i] = v
    return l


def _append(l, v):
    l.append(v)
    return l


def _insert(l, i, v):
    l.insert(i, v)
    return l


def _raise(*a):
    raise LibRaise(str(a[0]) if a else "")


def _range_length(lo, hi, st):
    if isinstance(st, int) and st > 0:
        return symex.smax(0, -((lo - hi) // st)) if not all(isinstance(x, int) for x in (lo, hi)) else len(range(lo, hi, st))
    if isinstance(st, int) and st < 0:
        return symex.smax(0, -((hi - lo) // -st)) if not all(isinstance(x, int) for x in (lo, hi)) else len(range(lo, hi, st))
    raise LibRaise("range() step must not be zero") if st == 0 else Unsupported("symbolic step")


def _slice(l, a, b, st):
    c = lambda x: x if x is None or isinstance(x, int) else x.__index__()
    return l[slice(c(a), c(b), c(st))]


def _div(a, b):
    """aten::div on numbers: true division"""
    if isinstance(a, (int, SymInt)) and not isinstance(a, bool):
        a = symex.FloatShim(a) if not isinstance(a, int) else float(a)
    return a / b


class _Obj:
    pass


def _id(x):
    from ..shapes.core import ANY
    return ANY


def _abs(x):
    return abs(x)


def _toint(x):
    return symex.IntShim(x)


def _ceil(x):
    if isinstance(x, int):
        return x
    return x.__ceil__()


def _neq_list(a, b):
    if len(a) != len(b):
        return True
    r = [x != y for x, y in zip(a, b)]
    return symex.or_(*r) if r else False


def _contains(l, x):
    r = [y == x for y in l]
    return symex.or_(*r) if r else False


def _not(x):
    return symex.not_(x if isinstance(x, SymBool) else bool(x))


_BIN = {
    "eq": lambda a, b: a == b, "ne": lambda a, b: a != b, "lt": lambda a, b: a < b,
    "le": lambda a, b: a <= b, "gt": lambda a, b: a > b, "ge": lambda a, b: a >= b,
    "add": lambda a, b: a + b, "sub": lambda a, b: a - b, "mul": lambda a, b: a * b,
    "floordiv": lambda a, b: a // b, "remainder": lambda a, b: a % b,
}

OPS = {
    "aten.__getitem__.t": _idx,
    "aten.len.t": lambda l: len(l),
    "aten.append.t": _append,
    "aten.insert.t": _insert,
    "aten._set_item.t": _set,
    "aten.slice.t": _slice,
    "aten.add.t": lambda a, b: a + b,
    "aten.mul.left_t": lambda a, b: a * (b if isinstance(b, int) else b.__index__()),
    "aten.add.str": lambda a, b: str(a) + str(b),
    "aten.format": lambda f, *a: f,
    "aten.__not__": _not,
    "aten.__is__": lambda a, b: a is b,
    "aten.__isnot__": lambda a, b: a is not b,
    "aten.__range_length": _range_length,
    "aten.__derive_index": lambda i, s, st: s + i * st,
    "aten.__contains__.int_list": _contains,
    "aten.ne.int_list": _neq_list,
    "aten.neg.int": lambda a: -a,
    "prim.max.int": lambda a, b: symex.shim_max(a, b),
    "prim.min.int": lambda a, b: symex.shim_min(a, b),
    "prim.min.self_int": lambda l: symex.shim_min(l),
    "prim.max.self_int": lambda l: symex.shim_max(l),
    "aten.Int.float": _toint, "aten.Int.bool": _toint, "aten.Int.Scalar": _toint,
    "aten.Float.Scalar": lambda x: symex.FloatShim(x),
    "aten.ceil.float": _ceil, "aten.ceil.Scalar": _ceil,
    "aten.div": _div, "aten.div.int": _div, "aten.div.float": _div,
    "aten.any.bool": lambda l: symex.or_(*l) if l else False,
    "prim.abs.int": _abs,
    "prim.id": _id,
    "prim.RaiseException": _raise,
    "prim.unchecked_cast": lambda x: x,
    "derefine": lambda x: x,
    "prim.NumToTensor.Scalar": lambda x: x,
    "prim.ListConstruct": lambda *a: list(a),
    "prim.TupleConstruct": lambda *a: tuple(a),
    "prim.TupleIndex": lambda t, i: _idx(t, i),
}


def _table(name):
    if name in OPS:
        return OPS[name]
    m = re.match(r"aten\.(eq|ne|lt|le|gt|ge|add|sub|mul|floordiv|remainder)(?:\.(int|float|bool|str|int_float|float_int|Scalar|device))?$", name)
    if m:
        return _BIN[m.group(1)]
    return None


class Uninit:
    def __repr__(self):
        return "uninitialized"


UNINIT = Uninit()


class Library:
    def __init__(self, src=None):
        self.funcs = parse(src if src is not None else text())
        self.promote = None
        self.scalar_dtype = None
        self.steps = 0

    def call(self, name, args):
        f = self.funcs.get(name)
        if f is None:
            raise Unsupported(f"no function @{name} in the embedded library")
        if len(args) != len(f.params):
            raise LibRaise(f"@{name} takes {len(f.params)} operands, got {len(args)}")
        env = dict(zip(f.params, args))
        r = self.block(f.body, env)
        if len(r) == 1:
            return r[0]
        return tuple(r)

    def get(self, env, n):
        n, _, k = n.partition("#")
        v = env[n]
        return v[int(k)] if k else v

    def block(self, ops, env):
        """runs a block; returns its terminator's operands"""
        for o in ops:
            nm = o.name
            if nm.startswith("torch.constant."):
                env[o.res] = o.attr
                continue
            a = [self.get(env, x) for x in o.args]
            if nm == "torch.prim.If":
                self.steps += 1
                r = self.block(o.regions[0] if a[0] else o.regions[1], env)
            elif nm == "torch.prim.Loop":
                n, cond = a
                state = [self.get(env, x) for x in o.attr]
                i = 0
                while True:
                    if not (i < n and cond):
                        break
                    env.update(zip(o.blockargs, [i] + state))
                    r = self.block(o.regions[0], env)
                    cond, state = r[0], r[1:]
                    i += 1
                    if i > 64:
                        raise symex.BoundExceeded("loop bound")
                r = state
            elif nm in ("return", "func.return", "torch.prim.If.yield"):
                return a
            elif nm == "torch.prim.Loop.condition":
                return a
            elif nm == "call":
                r = [self.call(o.attr, a)] if o.nres < 2 else list(self.call(o.attr, a))
            elif nm in ("torch.prim.TupleUnpack", "torch.prim.ListUnpack"):
                r = list(a[0])
                if len(r) != o.nres:
                    raise LibRaise("unpack length")
            elif nm == "torch.prim.Uninitialized":
                r = [UNINIT]
            elif nm == "torch.promote_dtypes":
                r = [self.promote(*a)]
            elif nm == "torch.prim.dtype":
                r = [self.scalar_dtype(a[0])]
            elif nm == "torch.prim.CreateObject":
                r = [_Obj()]
            elif nm == "torch.prim.CallMethod":
                r = [None]
            else:
                k = o.attr if nm == "torch.operator" else nm[6:] if nm.startswith("torch.") else nm
                f = _table(k)
                if f is None:
                    raise Unsupported(o.line[:120])
                r = [f(*a)]
            if o.res is not None:
                env[o.res] = r[0] if o.nres == 1 else r
        return []
