"""Indexing, slicing, gathering, scattering, joining."""
from .core import *

i64 = torch.int64
GROUP = "S04"


def slice_len(n, start, end, step):
    s = ite(start < 0, start + n, start)
    s = clampi(s, 0, n)
    e = ite(end < 0, end + n, end)
    e = smin(smax(e, s), n)
    return s, e


@spec("slice.Tensor", self=lambda g, a, n: g.shape(n, 1, 2 if g.tier == "quick" else 4), dim=DIM(), start=O(I(-64, 64)),
      end=O(I(-64, 64)), step=lambda g, a, n: g.int(n, 1, 3 if g.tier == "quick" else 6))
def _slice(g, a):
    d = g.wrap(a.dim, len(a.self))
    n = a.self[d]
    s = 0 if a.start is None else a.start
    e = n if a.end is None else a.end
    s, e = slice_len(n, s, e, a.step)
    k = g.conc(a.step)
    out = list(a.self)
    out[d] = cdiv(e - s, k)
    return out


@spec("narrow", self=T(1), dim=DIM(), start=I(-16, 16), length=I(0, 16))
def _narrow(g, a):
    d = g.wrap(a.dim, len(a.self))
    n = a.self[d]
    s = a.start
    g.req(-n <= s, s <= n)
    g.req(ite(s < 0, s + n, s) + a.length <= n)
    out = list(a.self)
    out[d] = a.length
    return out


@spec("narrow.Tensor", self=T(1), dim=DIM(), start=C([]), length=I(0, 16), dt=dict(start=i64))
def _narrowt(g, a):
    d = g.wrap(a.dim, len(a.self))
    g.req(a.length <= a.self[d])
    out = list(a.self)
    out[d] = a.length
    return out


@spec("select.int", self=T(1), dim=DIM(), index=I(-16, 16))
def _select(g, a):
    d = g.wrap(a.dim, len(a.self))
    g.req(a.index < a.self[d], a.index >= -a.self[d])
    return a.self[:d] + a.self[d + 1:]


@spec("select_scatter", self=T(1), src=lambda g, a, n: [], dim=DIM(), index=I(-16, 16))
def _selscat(g, a):
    d = g.wrap(a.dim, len(a.self))
    g.req(a.index < a.self[d], a.index >= -a.self[d])
    a["src"].extend(a.self[:d] + a.self[d + 1:])
    return a.self


@spec("slice_scatter", self=T(1), src=lambda g, a, n: [], dim=DIM(), start=O(I(-64, 64)), end=O(I(-64, 64)), step=I(1, 5))
def _slscat(g, a):
    a["src"].extend(_slice(g, a))
    return a.self


@spec("index_select", self=T(0), dim=DIM(), index=T(0, 1), dt=dict(index=i64))
def _index_select(g, a):
    d = g.wrap(a.dim, len(a.self))
    k = a.index[0] if a.index else 1
    if len(a.self) == 0:
        g.req(k == 1)
        return []
    g.req(or_(a.self[d] >= 1, k == 0))
    out = list(a.self)
    out[d] = k
    return out


@spec("gather", self=T(1), dim=DIM(), index=T(1), dt=dict(index=i64))
def _gather(g, a):
    d = g.wrap(a.dim, len(a.self))
    g.req(len(a.index) == len(a.self))
    for i in range(len(a.self)):
        if i != d:
            g.req(a.index[i] <= a.self[i])
        else:
            g.req(or_(a.self[i] >= 1, a.index[i] == 0))
    return a.index


@spec("scatter.src scatter_add scatter_reduce.two", self=T(1, 2), dim=DIM(), index=T(1, 2), src=T(1, 2), reduce=C("sum"),
      include_self=C(True), dt=dict(index=i64))
@spec("scatter.value", self=T(1, 2), dim=DIM(), index=T(1, 2), dt=dict(index=i64))
def _scatter(g, a):
    d = g.wrap(a.dim, len(a.self))
    g.req(len(a.index) == len(a.self))
    for i in range(len(a.self)):
        g.req(a.index[i] >= 1, a.self[i] >= 1)
        if i != d:
            g.req(a.index[i] <= a.self[i])
    if "src" in a:
        g.req(len(a.src) == len(a.self))
        for i in range(len(a.self)):
            g.req(a.index[i] <= a.src[i])
    return a.self


def indices(opt):
    def f(g, a, n):
        r = len(a.self)
        k = 1 + g.p.choice(r)
        out = []
        for i in range(k):
            if opt and g.p.choice(2):
                out.append(None)
            else:
                out.append(g.shape(n, 0, 2))
        return out
    return f


def index_result(g, self, idx):
    idx = list(idx) + [None] * (len(self) - len(idx))
    pos = [i for i, x in enumerate(idx) if x is not None]
    if not pos:
        g.req(False)
    b = g.bcast(*[idx[i] for i in pos])
    for i in pos:
        g.req(or_(self[i] >= 1, numel_zero(b)))
    rest = [(i, s) for i, s in enumerate(self) if idx[i] is None]
    if pos == list(range(pos[0], pos[-1] + 1)):
        return [s for i, s in rest if i < pos[0]] + b + [s for i, s in rest if i > pos[-1]]
    return b + [s for i, s in rest]


def numel_zero(s):
    if not s:
        return False
    return or_(*[x == 0 for x in s])


@spec("index.Tensor", self=T(1, 3), indices=indices(True), dt=dict(indices=i64))
@spec("index.Tensor_hacked_twin", self=T(1, 3), indices=indices(False), dt=dict(indices=i64))
def _index(g, a):
    return index_result(g, a.self, a.indices)


@spec("index_put _index_put_impl", self=T(1, 2, 1), indices=indices(True), values=C([]), unsafe=C(False), dt=dict(indices=i64))
@spec("index_put.hacked_twin", self=T(1, 2, 1), indices=indices(False), values=C([]), dt=dict(indices=i64))
def _index_put(g, a):
    index_result(g, a.self, a.indices)
    return a.self


@spec("embedding", weight=T(2, 2, 0), indices=T(), padding_idx=C(-1), scale_grad_by_freq=C(False), sparse=C(False),
      dt=dict(indices=i64))
def _embedding(g, a):
    g.req(or_(a.weight[0] >= 1, numel_zero(a.indices)))
    return a.indices + [a.weight[1]]


def tlist(lo, hi, smax_=BIG, maxn=None):
    def f(g, a, n):
        k = 1 + g.p.choice(maxn or (2 if g.tier == "quick" else 3))
        if g.p.choice(4) == 3:  # mixed ranks
            return [g.shape(f"{n}{i}", lo, min(hi, 2), 0, smax_) for i in range(k)]
        r = lo + g.p.choice(hi - lo + 1)
        return [g.dims(r, f"{n}{i}", 0, smax_) for i in range(k)]
    return f


@spec("cat", tensors=tlist(1, 3, maxn=3), dim=lambda g, a, n: g.int(n, -4, 3))
def _cat(g, a):
    # legacy: 1-d tensors of size 0 are skipped
    keep = []
    for t in a.tensors:
        if len(t) == 1 and g.truth(t[0] == 0):
            continue
        keep.append(t)
    if not keep:
        g.wrap(a.dim, 1)
        return [0]
    r = len(keep[0])
    d = g.wrap(a.dim, r)
    for t in keep[1:]:
        g.req(len(t) == r)
        for i in range(r):
            if i != d:
                g.req(t[i] == keep[0][i])
    out = list(keep[0])
    s = 0
    for t in keep:
        s = s + t[d]
    out[d] = s
    return out


@spec("stack", tensors=tlist(0, 3), dim=lambda g, a, n: g.int(n, -4, 3))
def _stack(g, a):
    t = a.tensors[0]
    d = g.wrap(a.dim, len(t) + 1)
    for u in a.tensors[1:]:
        g.same(u, t)
    return t[:d] + [len(a.tensors)] + t[d:]


def catdim(g, ts, d):
    r = len(ts[0])
    for t in ts[1:]:
        g.req(len(t) == r)
        for i in range(r):
            if i != d:
                g.req(t[i] == ts[0][i])
    out = list(ts[0])
    s = 0
    for t in ts:
        s = s + t[d]
    out[d] = s
    return out


@spec("hstack", tensors=tlist(0, 3))
def _hstack(g, a):
    ts = [t if t else [1] for t in a.tensors]
    return catdim(g, ts, 0 if len(ts[0]) == 1 else 1)


@spec("column_stack", tensors=tlist(0, 3))
def _cstack(g, a):
    ts = [[1, 1] if not t else (t + [1] if len(t) == 1 else t) for t in a.tensors]
    return catdim(g, ts, 1)


@spec("linalg_cross", dim=DIM())
def _cross(g, a):
    g.req(len(a.self) == len(a.other))
    o = g.bcast(a.self, a.other)
    d = g.wrap(a.dim, len(a.self))
    if len(a.self) == 0:
        g.req(False)
    g.req(a.self[d] == 3, a.other[d] == 3)
    return o


@spec("one_hot", self=T(0, None), num_classes=I(1, 10), dt=dict(self=i64), on="cpu")
def _one_hot(g, a):
    return a.self + [a.num_classes]
