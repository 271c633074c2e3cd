"""Views and rearrangements."""
from .core import *

i64 = torch.int64
GROUP = "S03"
SM = 6  # sizes whose products are taken: small


def view(g, self, size):
    n = numel(self)
    infer = None
    new = 1
    out = []
    for i, s in enumerate(size):
        g.req(s >= -1)
        if g.truth(s == -1):
            if infer is not None:
                g.req(False)
            infer = i
            out.append(None)
        else:
            new = new * s
            out.append(s)
    if infer is None:
        g.req(n == new)
    else:
        g.req(new > 0)
        # n == new * q
        q = g.size("q", 0, SM ** 3)
        g.req(n == new * q)
        out[infer] = q
    return out


def SIZE(lo=-1, hi=8, r0=0, r1=3):
    return LIR(r0, r1, lo, hi)


@spec("view reshape _unsafe_view", self=T(0, 3, 0, SM), size=SIZE(), shape=SIZE())
def _view(g, a):
    if "unsafe" in g.op:
        for s in a.size:
            g.req(s >= 0)
    return view(g, a.self, a["size"] if "size" in a else a["shape"])


@spec("_reshape_alias", self=T(1, 3, 0, SM), size=lambda g, a, n: [], stride=lambda g, a, n: [])
def _ra(g, a):
    # contiguous re-labelling: size is the tensor's own size flattened or itself
    k = g.p.choice(2)
    a_size = list(a.self) if k else [numel(a.self)]
    st = []
    acc = 1
    for s in reversed(a_size):
        st.insert(0, acc)
        acc = acc * smax(s, 1)
    a["size"][:] = a_size
    a["stride"][:] = st
    return list(a_size)


@spec("reshape_as", self=T(0, 3, 0, SM), other=T(0, 3, 0, SM))
def _ras(g, a):
    g.req(numel(a.self) == numel(a.other))
    return a.other


@spec("expand broadcast_to", size=SIZE(-1, BIG, 0, 3), implicit=C(False))
def _expand(g, a):
    s, t = a.self, a.size
    if len(t) < len(s):
        g.req(False)
    out = []
    for i in range(len(t)):
        j = i - (len(t) - len(s))
        if j < 0:
            g.req(t[i] >= 0)
            out.append(t[i])
        else:
            g.req(or_(t[i] == -1, t[i] == s[j], and_(s[j] == 1, t[i] >= 0)))
            out.append(ite(t[i] == -1, s[j], t[i]))
    return out


@spec("permute", dims=lambda g, a, n: g.ints(len(a.self), n, -len(a.self), max(len(a.self) - 1, 0)))
def _permute(g, a):
    r = len(a.self)
    ds = [g.wrap(d, r) for d in a.dims]
    if len(set(ds)) != r:
        g.req(False)
    return [a.self[d] for d in ds]


@spec("movedim.int", source=DIM(), destination=DIM())
def _movedim(g, a):
    r = len(a.self)
    s, d = g.wrap(a.source, r), g.wrap(a.destination, r)
    if r == 0:
        return []
    out = [x for i, x in enumerate(a.self) if i != s]
    out.insert(d, a.self[s])
    return out


@spec("transpose.int", dim0=DIM(), dim1=DIM())
def _transpose(g, a):
    r = len(a.self)
    s, d = g.wrap(a.dim0, r), g.wrap(a.dim1, r)
    out = list(a.self)
    if r:
        out[s], out[d] = a.self[d], a.self[s]
    return out


@spec("t", self=T(0, 2))
def _t(g, a):
    return list(reversed(a.self))


@spec("numpy_T")
def _T(g, a):
    return list(reversed(a.self))


@spec("flatten.using_ints", self=T(0, 3, 0, SM), start_dim=DIM(), end_dim=DIM())
def _flatten(g, a):
    r = len(a.self)
    s, e = g.wrap(a.start_dim, r), g.wrap(a.end_dim, r)
    g.req(s <= e)
    if r == 0:
        return [1]
    return a.self[:s] + [numel(a.self[s:e + 1])] + a.self[e + 1:]


@spec("unflatten.int", self=T(1, 3, 0, 24), dim=DIM(), sizes=SIZE(-1, 8, 1, 3))
def _unflatten(g, a):
    d = g.wrap(a.dim, len(a.self))
    return a.self[:d] + view(g, [a.self[d]], a.sizes) + a.self[d + 1:]


@spec("unsqueeze", dim=lambda g, a, n: g.int(n, -len(a.self) - 1, len(a.self)))
def _unsqueeze(g, a):
    d = g.wrap(a.dim, len(a.self) + 1)
    return a.self[:d] + [1] + a.self[d:]


@spec("squeeze", self=T(0, None, 0))
def _squeeze(g, a):
    out = []
    for x in a.self:
        if g.truth(x != 1):
            out.append(x)
    return out


@spec("squeeze.dim", dim=DIM())
def _squeeze_dim(g, a):
    d = g.wrap(a.dim, len(a.self))
    return [x for i, x in enumerate(a.self) if i != d or not g.truth(x == 1)]


@spec("prims.squeeze", dimensions=LIR(0, 2, 0, 3))
def _psqueeze(g, a):
    r = len(a.a)
    ds = []
    for d in a.dimensions:
        g.req(d >= 0, d < r)
        ds.append(g.conc(d))
    if len(set(ds)) != len(ds):
        g.req(False)
    for d in ds:
        g.req(a.a[d] == 1)
    return [x for i, x in enumerate(a.a) if i not in ds]


@spec("prims.collapse", a=T(1, 3, 0, SM), start=lambda g, a, n: g.int(n, 0, len(a.a) - 1),
      end=lambda g, a, n: g.int(n, 0, len(a.a) - 1))
def _collapse(g, a):
    s, e = g.conc(a.start), g.conc(a.end)
    g.req(s <= e)
    return a.a[:s] + [numel(a.a[s:e + 1])] + a.a[e + 1:]


@spec("prims.split_dim", a=T(1, 3, 0, 24), dim=lambda g, a, n: g.int(n, 0, len(a.a) - 1), outer_length=I(1, 8))
def _split_dim(g, a):
    d = g.conc(a.dim)
    q = g.size("q", 0, 24)
    g.req(a.a[d] == a.outer_length * q)
    return a.a[:d] + [a.outer_length, q] + a.a[d + 1:]


@spec("diagonal", self=T(2), offset=I(), dim1=DIM(), dim2=DIM())
def _diagonal(g, a):
    r = len(a.self)
    x, y = g.wrap(a.dim1, r), g.wrap(a.dim2, r)
    g.req(x != y)
    n = ite(a.offset >= 0, smin(a.self[x], a.self[y] - a.offset), smin(a.self[x] + a.offset, a.self[y]))
    return [s for i, s in enumerate(a.self) if i not in (x, y)] + [smax(n, 0)]


@spec("diag_embed", self=T(1), offset=I(), dim1=lambda g, a, n: g.int(n, -len(a.self) - 1, len(a.self)),
      dim2=lambda g, a, n: g.int(n, -len(a.self) - 1, len(a.self)))
def _diag_embed(g, a):
    r = len(a.self) + 1
    x, y = g.wrap(a.dim1, r), g.wrap(a.dim2, r)
    g.req(x != y)
    n = a.self[-1] + abs(a.offset)
    rest = list(a.self[:-1])
    return [n if i in (x, y) else rest.pop(0) for i in range(r)]


@spec("diag", self=T(1, 2), diagonal=I())
def _diag(g, a):
    if len(a.self) == 1:
        n = a.self[0] + abs(a.diagonal)
        return [n, n]
    h, w, o = a.self[0], a.self[1], a.diagonal
    return [smax(ite(o >= 0, smin(h, w - o), smin(h + o, w)), 0)]


@spec("rot90", self=T(2), k=I(), dims=lambda g, a, n: g.ints(2, n, -len(a.self), len(a.self) - 1))
def _rot90(g, a):
    x, y = g.wrap(a.dims[0], len(a.self)), g.wrap(a.dims[1], len(a.self))
    g.req(x != y)
    odd = a.k % 2 == 1
    out = list(a.self)
    out[x] = ite(odd, a.self[y], a.self[x])
    out[y] = ite(odd, a.self[x], a.self[y])
    return out


@spec("roll", shifts=LIR(1, 2, -8, 8), dims=lambda g, a, n: [g.int(n, -max(len(a.self), 1), max(len(a.self), 1) - 1) for _ in range(g.p.choice(3))])
def _roll(g, a):
    g.req(len(a.self) > 0 or len(a.dims) == 0)
    g.req(len(a.dims) == len(a.shifts) or (len(a.dims) == 0 and len(a.shifts) == 1))
    return a.self


@spec("flip", dims=lambda g, a, n: [g.int(n, -max(len(a.self), 1), max(len(a.self), 1) - 1) for _ in range(g.p.choice(3))])
def _flip(g, a):
    ds = [g.wrap(d, len(a.self)) for d in a.dims]
    g.req(len(set(ds)) == len(ds))
    return a.self


@spec("fliplr", self=T(2))
@spec("flipud", self=T(1))
def _fl(g, a):
    return a.self


@spec("repeat", self=T(0, 3, 0, SM), repeats=LIR(0, 4, 0, 4))
def _repeat(g, a):
    s, r = a.self, a.repeats
    g.req(len(r) >= len(s))
    k = len(r) - len(s)
    return [r[i] if i < k else s[i - k] * r[i] for i in range(len(r))]


@spec("tile", self=T(0, 3, 0, SM), dims=LIR(0, 4, 0, 4))
def _tile(g, a):
    s, r = list(a.self), list(a.dims)
    n = max(len(s), len(r))
    s = [1] * (n - len(s)) + s
    r = [1] * (n - len(r)) + r
    return [x * y for x, y in zip(s, r)]


@spec("repeat_interleave.self_int", self=T(0, 3, 0, SM), repeats=I(0, 5), dim=O(DIM()), output_size=C(None))
def _ri(g, a):
    if a.dim is None:
        return [numel(a.self) * a.repeats]
    d = g.wrap(a.dim, len(a.self))
    if len(a.self) == 0:
        g.req(False)
    return a.self[:d] + [a.self[d] * a.repeats] + a.self[d + 1:]


@spec("repeat_interleave.Tensor", repeats=T(1, 1), output_size=I(0, 8), dt=dict(repeats=i64), on="meta")
def _rit(g, a):
    return [a.output_size]


@spec("pixel_shuffle", self=T(3, 5, 0, 20), upscale_factor=I(1, 4))
def _ps(g, a):
    u = a.upscale_factor
    q = g.size("q", 0, 20)
    g.req(a.self[-3] == q * u * u)
    for x in a.self[-2:]:
        g.req(x >= 1)
    return a.self[:-3] + [q, a.self[-2] * u, a.self[-1] * u]


@spec("pixel_unshuffle", self=T(3, 5, 0, 12), downscale_factor=I(1, 4))
def _pu(g, a):
    u = a.downscale_factor
    h, w = g.size("h", 0, 12), g.size("w", 0, 12)
    g.req(a.self[-2] == h * u, a.self[-1] == w * u)
    return a.self[:-3] + [a.self[-3] * u * u, h, w]


@spec("channel_shuffle", self=T(3, 4, 1, 20), groups=I(1, 8))
def _cs(g, a):
    q = g.size("q", 0, 20)
    g.req(a.self[1] == q * a.groups)
    return a.self


@spec("view_as_complex", self=T(1, None))
def _vac(g, a):
    g.req(a.self[-1] == 2)
    return a.self[:-1]


@spec("view_as_real", dt=dict(self=torch.complex64))
def _var(g, a):
    return a.self + [2]


@spec("atleast_1d atleast_2d")
def _al(g, a):
    k = 1 if "1d" in g.op else 2
    return [1] * (k - len(a.self)) + a.self


@spec("_shape_as_tensor", on="cpu", self=T(0, None, 0, 64))
def _sat(g, a):
    return [len(a.self)]


@spec("broadcast_tensors", tensors=lambda g, a, n: [g.shape(n, 0, 2) for _ in range(1 + g.p.choice(3))])
def _bt(g, a):
    o = g.bcast(*a.tensors)
    return tuple(o for _ in a.tensors)


@spec("as_strided", self=C([4096]), size=LIR(0, 3, 0, 5), stride=lambda g, a, n: g.ints(len(a.size), n, 0, 5),
      storage_offset=O(I(0, 5)))
def _ast(g, a):
    return a.size


@spec("resize_", size=LIR(0, 3, 0, 5), memory_format=C(None))
def _resize(g, a):
    return a.size


@spec("unfold", self=T(0, 3), dimension=DIM(), size=I(0, 8), step=I(1, 5))
def _unfold(g, a):
    d = g.wrap(a.dimension, len(a.self))
    if len(a.self) == 0:
        g.req(a.size <= 1)
        return [a.size]
    g.req(a.size <= a.self[d])
    n = fdiv_branch(g, a.self[d] - a.size, a.step) + 1
    return a.self[:d] + [n] + a.self[d + 1:] + [a.size]


def fdiv_branch(g, x, s):
    return fdiv(x, g.conc(s))
