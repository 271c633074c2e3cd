"""Reductions, scans, sorting, searching."""
from .core import *

i64 = torch.int64
GROUP = "S02"


def reduce(g, self, dims, keep):
    """dims: list of int-like, or None/[] for all dimensions."""
    r = len(self)
    if dims is None or len(dims) == 0:
        red = set(range(r))
    else:
        ds = [g.wrap(d, r) for d in dims]
        if len(set(ds)) != len(ds):
            g.req(False)
        red = set(ds)
    k = bool(keep)
    return [1 if i in red else self[i] for i in range(r) if k or i not in red]


def nonempty(g, self, dims):
    r = len(self)
    for d in dims:
        w = g.wrap(d, r)
        if r:
            g.req(self[w] >= 1)


def DIMS(opt=True, empty=True, src=None):
    def f(g, a, n):
        s = a[src] if src else next(iter(a.values()))
        r = max(len(s), 1)
        lens = ([None] if opt else []) + ([0] if empty else []) + list(range(1, min(r, 2 if g.tier == "quick" else 3) + 1))
        k = g.pick(*lens)
        if k is None:
            return None
        return [g.int(n, -r, r - 1) for _ in range(k)]
    return f


@spec("any all sum prod mean var std", unbiased=C(True, False))
@spec("norm.Scalar", p=C(2.0))
def _full(g, a):
    return []


@spec("min max", self=T(0, None, 1))
def _full1(g, a):
    return []


@spec("dot", self=T(1, 1), tensor=like("self"))
@spec("trace", self=T(2, 2))
def _scalar(g, a):
    return []


@spec("var_mean", unbiased=C(True, False))
def _vm(g, a):
    return [], []


@spec("var.dim std.dim var_mean.dim", dim=DIMS(), unbiased=C(True), keepdim=BC())
@spec("var.correction std.correction var_mean.correction", dim=DIMS(), correction=C(None, 1.0), keepdim=BC())
@spec("mean.dim sum.dim_IntList", dim=DIMS(), keepdim=BC())
@spec("linalg_vector_norm", ord=C(2.0), dim=DIMS(), keepdim=BC())
@spec("frobenius_norm.dim", dim=DIMS(opt=False), keepdim=BC())
@spec("norm.ScalarOpt_dim", p=C(None, 2.0), dim=DIMS(opt=False), keepdim=BC())
def _red(g, a):
    out = reduce(g, a.self, a.dim, a.keepdim)
    if g.op.startswith("aten〇var_mean"):
        return out, out
    return out


@spec("linalg_norm", ord=C(None, 2.0), dim=DIMS(empty=False), keepdim=BC())
def _lnorm(g, a):
    if a.ord is not None:
        # with an explicit order: a vector (1 dim) or matrix (2 dims) norm
        if a.dim is None:
            g.req(1 <= len(a.self) <= 2)
        if len(a.self if a.dim is None else a.dim) == 2:
            for x in a.self:
                g.req(x >= 1)
            if a.dim is not None and len(a.self) < 2:
                g.req(False)
        if a.dim is not None and len(a.dim) > 2:
            g.req(False)
    return reduce(g, a.self, a.dim, a.keepdim)


@spec("any.dims", dim=DIMS(), keepdim=BC())
def _anyd(g, a):
    # an empty dim list reduces nothing, None reduces everything
    if a.dim is not None and len(a.dim) == 0:
        return a.self
    return reduce(g, a.self, a.dim, a.keepdim)


@spec("amax amin", self=T(0, None, 1), dim=DIMS(opt=False), keepdim=BC())
def _amax(g, a):
    return reduce(g, a.self, a.dim, a.keepdim)


@spec("prims.sum prims.prod", dims=DIMS(opt=False), output_dtype=C(None))
@spec("prims.var", dims=DIMS(opt=False), correction=C(1.0), output_dtype=C(None))
def _psum(g, a):
    r = len(a.inp)
    if a.dims is not None and len(a.dims) == 0:
        g.req(r == 0)
    if a.dims is not None:
        for d in a.dims:
            g.req(d >= 0)
            if r == 0:
                g.req(False)
    return reduce(g, a.inp, a.dims, False)


@spec("argmax argmin", self=T(0, None, 1), dim=O(DIM()), keepdim=BC())
def _argmax(g, a):
    return reduce(g, a.self, None if a.dim is None else [a.dim], a.keepdim)


@spec("aminmax", self=T(0, None, 1), dim=O(DIM()), keepdim=BC())
def _aminmax(g, a):
    out = reduce(g, a.self, None if a.dim is None else [a.dim], a.keepdim)
    return out, out


@spec("any.dim all.dim prod.dim_int", dim=DIM(), keepdim=BC())
def _anydim(g, a):
    return reduce(g, a.self, [a.dim], a.keepdim)


@spec("max.dim min.dim", self=T(0, None, 1), dim=DIM(), keepdim=BC())
def _maxdim(g, a):
    out = reduce(g, a.self, [a.dim], a.keepdim)
    return out, out


@spec("kthvalue", self=T(0, None, 1), k=I(1, 8), dim=DIM(), keepdim=BC())
def _kth(g, a):
    out = reduce(g, a.self, [a.dim], a.keepdim)
    w = g.wrap(a.dim, len(a.self))
    g.req(a.k <= (a.self[w] if len(a.self) else 1))
    return out, out


@spec("topk", self=T(0), k=I(0, 8), dim=DIM())
def _topk(g, a):
    w = g.wrap(a.dim, len(a.self))
    if len(a.self) == 0:
        g.req(a.k <= 1)
        return [], []
    g.req(a.k <= a.self[w])
    out = list(a.self)
    out[w] = a.k
    return out, out


@spec("cumsum cumprod logcumsumexp argsort _softmax softmax.int _log_softmax log_softmax.int _safe_softmax",
      dim=DIM(), half_to_float=C(False))
def _scan(g, a):
    g.wrap(a.dim, len(a.self))
    return a.self


@spec("sort", dim=DIM())
def _sort(g, a):
    g.wrap(a.dim, len(a.self))
    return a.self, a.self


@spec("_softmax_backward_data _log_softmax_backward_data", output=like("grad_output"), dim=DIM(), input_dtype=C(6))
def _smb(g, a):
    g.wrap(a.dim, len(a.output))
    return a.output


@spec("count_nonzero", dim=O(DIM()))
def _cnz(g, a):
    if a.dim is None:
        return []
    if len(a.self) == 0:
        g.req(False)
    return reduce(g, a.self, [a.dim], False)


@spec("count_nonzero.dim_IntList", dim=DIMS(opt=False, empty=False))
def _cnzl(g, a):
    if len(a.self) == 0:
        g.req(False)
    return reduce(g, a.self, a.dim, False)


@spec("renorm", self=T(2), p=C(2.0), dim=DIM(), maxnorm=C(1.0))
def _renorm(g, a):
    return a.self


@spec("cosine_similarity", x1=T(1, 3), x2=T(1, 3), dim=I(-3, 2), eps=C(1e-8))
def _cos(g, a):
    b = g.bcast(a.x1, a.x2)
    # PyTorch wraps dim against the rank of the common shape
    w = g.wrap(a.dim, len(b))
    return [b[i] for i in range(len(b)) if i != w]


@spec("multinomial", self=T(1, 2, 1, 64), num_samples=I(1, 8), replacement=BC(), val=dict(self=1.0), generator=C(None))
def _multinomial(g, a):
    if not a.replacement:
        g.req(a.num_samples <= a.self[-1])
    return a.self[:-1] + [a.num_samples]


@spec("bincount", self=T(1, 1), weights=O(like("self")), minlength=I(0, 8), dt=dict(self=i64))
def _bincount(g, a):
    return [ANY]


@spec("nonzero")
def _nonzero(g, a):
    return [ANY, len(a.self)]


@spec("nonzero_static", size=I(0, 8), fill_value=C(-1))
def _nzs(g, a):
    return [a.size, len(a.self)]


@spec("masked_select", dt=dict(mask=torch.bool))
def _ms(g, a):
    g.bcast(a.self, a.mask)
    return [ANY]
