"""Protocol-buffer messages whose scalar fields may hold solver values.

A `Msg` follows the descriptor of the real ONNX message: defaults, presence,
repeated fields, oneofs, copying, the rule that messages are not assigned.
`messages(symbolic)` gives the constructors: these, or onnx's own.
"""
import onnx

from .. import symex
from ..symex import SymBool, SymInt, SymReal


class SymName:
    """A string known only by its identity: name 0 is the empty string."""

    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v

    @staticmethod
    def _of(o):
        if isinstance(o, SymName):
            return o.v
        if isinstance(o, str) and o == "":
            return 0
        return None

    def __eq__(self, o):
        w = self._of(o)
        return False if w is None else self.v == w

    def __ne__(self, o):
        w = self._of(o)
        return True if w is None else self.v != w

    def __lt__(self, o):
        return self.v < self._of(o)

    def __gt__(self, o):
        return self.v > self._of(o)

    def __le__(self, o):
        return self.v <= self._of(o)

    def __ge__(self, o):
        return self.v >= self._of(o)

    def __hash__(self):
        return 77

    def __bool__(self):
        return bool(self.v != 0)

    def __len__(self):
        return 1 if self else 0

    def __str__(self):
        return "name" + (symex.TEXT(self.v) if symex.TEXT is not None else repr(self.v))

    __repr__ = __str__

    def __format__(self, s):
        return str(self)

    def encode(self, *a):
        return self

    decode = encode


class NameList:
    pass


def is_rep(f):
    return f.is_repeated if hasattr(f, "is_repeated") else f.label == f.LABEL_REPEATED


class Rep(list):
    """A repeated field."""

    def __init__(self, owner, f):
        super().__init__()
        self._owner, self._f = owner, f

    def _in(self, x):
        self._owner._touch()
        if self._f.message_type is not None:
            if not isinstance(x, Msg) or x._d is not self._f.message_type:
                raise TypeError(f"{self._f.full_name}: {type(x)}")
            y = Msg(self._f.message_type)
            y.CopyFrom(x)
            return y
        check(self._f, x)
        return x

    def append(self, x):
        list.append(self, self._in(x))

    def extend(self, xs):
        for x in list(xs):
            self.append(x)

    MergeFrom = extend

    def add(self, **kw):
        y = Msg(self._f.message_type)
        for k, v in kw.items():
            setattr(y, k, v)
        self._owner._touch()
        list.append(self, y)
        return y

    def insert(self, i, x):
        list.insert(self, i, self._in(x))

    def __setitem__(self, i, x):
        if self._f.message_type is not None:
            raise TypeError("item assignment on a repeated message")
        list.__setitem__(self, i, x)

    def __iadd__(self, xs):
        self.extend(xs)
        return self

    def clear(self):
        raise AttributeError("clear")

    def __hash__(self):
        raise TypeError("unhashable")


def check(f, x):
    k = f.cpp_type
    if k == f.CPPTYPE_STRING:
        ok = isinstance(x, (SymName, str) if f.type == f.TYPE_STRING else (SymName, str, bytes)) or getattr(x, "vtbytes", False)
    elif k in (f.CPPTYPE_FLOAT, f.CPPTYPE_DOUBLE):
        ok = isinstance(x, (int, float, SymInt, SymReal))
    elif k == f.CPPTYPE_BOOL:
        ok = isinstance(x, (bool, int, SymBool))
    else:
        ok = isinstance(x, (int, SymInt))
    if not ok:
        raise TypeError(f"{f.full_name}: {x!r}")


class Msg:
    def __init__(self, d, parent=None, **kw):
        object.__setattr__(self, "_d", d)
        object.__setattr__(self, "_v", {})
        object.__setattr__(self, "_has", set())
        object.__setattr__(self, "_parent", parent)
        for k, v in kw.items():
            f = d.fields_by_name[k]
            if is_rep(f):
                getattr(self, k).extend(v)
            elif f.message_type is not None:
                getattr(self, k).CopyFrom(v)
            else:
                setattr(self, k, v)

    # presence
    def _touch(self):
        if self._parent is not None:
            p, n = self._parent
            p._mark(n)

    def _mark(self, n):
        o = self._d.fields_by_name[n].containing_oneof
        if o is not None:
            for f in o.fields:
                if f.name != n:
                    self._has.discard(f.name)
                    self._v.pop(f.name, None)
        self._has.add(n)
        self._touch()

    def __getattr__(self, n):
        f = self._d.fields_by_name.get(n)
        if f is None:
            raise AttributeError(n)
        v = self._v.get(n)
        if v is None:
            if is_rep(f):
                v = self._v[n] = Rep(self, f)
            elif f.message_type is not None:
                v = self._v[n] = Msg(f.message_type, (self, n))
            else:
                v = f.default_value
        return v

    def __setattr__(self, n, x):
        f = self._d.fields_by_name.get(n)
        if f is None or is_rep(f) or f.message_type is not None:
            raise AttributeError(f"assignment to {n} of {self._d.name}")
        check(f, x)
        self._v[n] = x
        self._mark(n)

    def HasField(self, n):
        f = self._d.fields_by_name.get(n)
        if f is None:
            o = self._d.oneofs_by_name.get(n)
            if o is None:
                raise ValueError(n)
            return self.WhichOneof(n) is not None
        if is_rep(f):
            raise ValueError(n)
        return n in self._has

    def WhichOneof(self, n):
        for f in self._d.oneofs_by_name[n].fields:
            if f.name in self._has:
                return f.name
        return None

    def ClearField(self, n):
        self._v.pop(n, None)
        self._has.discard(n)

    def Clear(self):
        self._v.clear()
        self._has.clear()

    def CopyFrom(self, o):
        if o is self:
            return
        if not isinstance(o, Msg) or o._d is not self._d:
            raise TypeError(f"CopyFrom {type(o)}")
        self.Clear()
        self._touch()
        self.MergeFrom(o)

    def MergeFrom(self, o):
        if not isinstance(o, Msg) or o._d is not self._d:
            raise TypeError(f"MergeFrom {type(o)}")
        for f, v in o.ListFields():
            if is_rep(f):
                getattr(self, f.name).extend(v)
            elif f.message_type is not None:
                c = getattr(self, f.name)
                self._mark(f.name)
                c.MergeFrom(v)
            else:
                setattr(self, f.name, v)

    def SetInParent(self):
        self._touch()

    def ListFields(self):
        out = []
        for f in self._d.fields:
            v = self._v.get(f.name)
            if is_rep(f):
                if v:
                    out.append((f, v))
            elif f.name in self._has:
                out.append((f, v))
        return sorted(out, key=lambda x: x[0].number)

    def __eq__(self, o):
        if not isinstance(o, Msg) or o._d is not self._d:
            return False
        a, b = self.ListFields(), o.ListFields()
        if [f.name for f, _ in a] != [f.name for f, _ in b]:
            return False
        for (_, x), (_, y) in zip(a, b):
            if isinstance(x, list):
                if len(x) != len(y) or not all(bool(p == q) for p, q in zip(x, y)):
                    return False
            elif not (x == y):
                return False
        return True

    def __ne__(self, o):
        return not self == o

    __hash__ = None

    def __str__(self):
        out = []
        for f, v in self.ListFields():
            for x in v if is_rep(f) else [v]:
                if isinstance(x, Msg):
                    out.append(f"{f.name} {{\n{x}}}\n")
                else:
                    out.append(f"{f.name}: {x if not isinstance(x, (str, bytes)) else repr(x)}\n")
        return "".join(out)

    __repr__ = __str__

    def SerializeToString(self, *a, **k):
        return Bytes(self)

    def ParseFromString(self, s):
        self.CopyFrom(s.msg)


class Bytes:
    """Serialized form of a Msg."""

    vtbytes = True

    def __init__(self, msg):
        self.msg = Msg(msg._d)
        self.msg.CopyFrom(msg)


class Ctor:
    def __init__(self, real):
        self._real = real

    def __call__(self, **kw):
        return Msg(self._real.DESCRIPTOR, **kw)

    def __getattr__(self, k):
        return getattr(self._real, k)


class Shim:
    """`onnx` for the importer: messages are Msg; `over` replaces submodules."""

    def __init__(self, over=None):
        self._over = over or {}
        self._c = {}

    def __getattr__(self, k):
        if k in self._over:
            return self._over[k]
        v = getattr(onnx, k)
        if isinstance(v, type) and hasattr(v, "DESCRIPTOR") and hasattr(v, "CopyFrom"):
            if k not in self._c:
                self._c[k] = Ctor(v)
            return self._c[k]
        if k in ("onnx_pb", "onnx_ml_pb2"):
            return self
        return v


class Helper:
    def __getattr__(self, k):
        return getattr(onnx.helper, k)

    @staticmethod
    def make_tensor_type_proto(elem_type, shape, shape_denotation=None):
        t = Msg(onnx.TypeProto.DESCRIPTOR)
        tt = t.tensor_type
        tt.elem_type = elem_type
        tt.shape.SetInParent()
        tt._mark("shape")
        if shape is not None:
            for d in shape:
                x = tt.shape.dim.add()
                if d is None:
                    pass
                elif isinstance(d, (int, SymInt)):
                    x.dim_value = d
                else:
                    x.dim_param = d
        return t
