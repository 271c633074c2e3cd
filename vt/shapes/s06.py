"""Matrix products and linear algebra."""
from .core import *

i64 = torch.int64
GROUP = "S06"


@spec("mm", self=T(2, 2), mat2=T(2, 2))
def _mm(g, a):
    g.req(a.self[1] == a.mat2[0])
    return [a.self[0], a.mat2[1]]


@spec("_int_mm", self=T(2, 2, 1, 1 << 14), mat2=T(2, 2, 1, 1 << 14), dt=dict(self=torch.int8, mat2=torch.int8))
def _imm(g, a):
    g.req(a.self[1] == a.mat2[0])
    return [a.self[0], a.mat2[1]]


@spec("_scaled_mm", self=T(2, 2, 1), mat2=T(2, 2, 1), scale_a=C([]), scale_b=C([]), bias=C(None), scale_result=C(None),
      out_dtype=C(None), use_fast_accum=C(False), oracle=False)
@spec("_scaled_mm_v2", self=T(2, 2, 1), mat2=T(2, 2, 1), scale_a=C([[]]), recipe_a=C([0]), swizzle_a=C([0]), scale_b=C([[]]),
      recipe_b=C([0]), swizzle_b=C([0]), bias=C(None), out_dtype=C(None), contraction_dim=C([]), oracle=False)
def _smm(g, a):
    g.req(a.self[1] == a.mat2[0])
    return [a.self[0], a.mat2[1]]


@spec("bmm", self=T(3, 3), mat2=T(3, 3))
def _bmm(g, a):
    g.req(a.self[0] == a.mat2[0], a.self[2] == a.mat2[1])
    return [a.self[0], a.self[1], a.mat2[2]]


@spec("mv", self=T(2, 2), vec=T(1, 1))
def _mv(g, a):
    g.req(a.self[1] == a.vec[0])
    return [a.self[0]]


@spec("outer", self=T(1, 1), vec2=T(1, 1))
def _outer(g, a):
    return [a.self[0], a.vec2[0]]


@spec("addmm", self=T(0, 2), mat1=T(2, 2), mat2=T(2, 2))
def _addmm(g, a):
    g.req(a.mat1[1] == a.mat2[0])
    o = [a.mat1[0], a.mat2[1]]
    g.bcast_to(a.self, o)
    return o


@spec("addbmm", self=T(0, 2), batch1=T(3, 3), batch2=T(3, 3))
def _addbmm(g, a):
    g.req(a.batch1[0] == a.batch2[0], a.batch1[2] == a.batch2[1])
    o = [a.batch1[1], a.batch2[2]]
    g.bcast_to(a.self, o)
    return o


@spec("baddbmm", self=T(0, 3), batch1=T(3, 3), batch2=T(3, 3))
def _baddbmm(g, a):
    g.req(a.batch1[0] == a.batch2[0], a.batch1[2] == a.batch2[1])
    o = [a.batch1[0], a.batch1[1], a.batch2[2]]
    g.bcast_to(a.self, o)
    return o


@spec("matmul", self=T(1, 4), other=T(1, 4))
def _matmul(g, a):
    x, y = a.self, a.other
    if len(x) == 1 and len(y) == 1:
        g.req(x[0] == y[0])
        return []
    if len(x) == 1:
        g.req(x[0] == y[-2])
        return y[:-2] + [y[-1]]
    if len(y) == 1:
        g.req(x[-1] == y[0])
        return x[:-1]
    g.req(x[-1] == y[-2])
    return g.bcast(x[:-2], y[:-2]) + [x[-2], y[-1]] if len(x) > 2 or len(y) > 2 else [x[0], y[1]]


@spec("linear", input=T(1, None), weight=T(1, 2), bias=O(T(0, 1)))
def _linear(g, a):
    g.req(a.input[-1] == a.weight[-1])
    if len(a.weight) == 1:
        g.req(a.bias is None)
        return a.input[:-1]
    o = a.input[:-1] + [a.weight[0]]
    if a.bias is not None:
        if len(a.bias) == 1:
            g.req(a.bias[0] == a.weight[0])
        else:
            g.req(False)
    return o


@spec("bilinear", input1=T(1, None, 1), input2=T(1, None, 1), weight=T(3, 3, 1), bias=O(T(1, 1)))
def _bilinear(g, a):
    x, y, w = a.input1, a.input2, a.weight
    g.same(x[:-1], y[:-1])
    g.req(x[-1] == w[1], y[-1] == w[2])
    if a.bias is not None:
        g.req(a.bias[0] == w[0])
    return x[:-1] + [w[0]]


@spec("_trilinear", i1=lambda g, a, n: g.dims(2, n, 1, 20), i2=lambda g, a, n: g.dims(2, n, 1, 20),
      i3=lambda g, a, n: g.dims(2, n, 1, 20), expand1=C([0], [1], [2]),
      expand2=lambda g, a, n: [(a.expand1[0] + g.p.choice(3)) % 3],
      expand3=lambda g, a, n: [(a.expand2[0] + g.p.choice(3)) % 3],
      sumdim=C([0], [2], [0, 2], [1, 2], []), unroll_dim=C(1))
def _trilin(g, a):
    xs = []
    for t, e in ((a.i1, a.expand1), (a.i2, a.expand2), (a.i3, a.expand3)):
        t = list(t)
        for d in e:
            t.insert(d, None)
        xs.append(t)
    # every non-expanded size agrees; each dimension occurs in some operand
    o = []
    for i in range(3):
        ds = [x[i] for x in xs if x[i] is not None]
        if not ds:
            g.req(False)
        for d in ds[1:]:
            g.req(d == ds[0])
        o.append(ds[0])
    return [s for i, s in enumerate(o) if i not in a.sumdim]


@spec("scaled_dot_product_attention", query=T(3, 4, 1), key=lambda g, a, n: g.dims(len(a.query), n, 1),
      value=lambda g, a, n: g.dims(len(a.query), n, 1), attn_mask=C(None), dropout_p=C(0.0), is_causal=C(False), scale=C(None),
      enable_gqa=C(False))
def _sdpa(g, a):
    q, k, v = a.query, a.key, a.value
    g.req(q[-1] == k[-1], k[-2] == v[-2])
    b = g.bcast(q[:-2], k[:-2], v[:-2])
    return b + [q[-2], v[-1]]


def square(g, A):
    g.req(A[-1] == A[-2])


@spec("linalg_det", A=T(2, 4))
def _det(g, a):
    square(g, a.A)
    return a.A[:-2]


@spec("_linalg_det", A=T(2, 4))
def _ldet(g, a):
    square(g, a.A)
    return a.A[:-2], a.A, a.A[:-1]


@spec("linalg_slogdet", A=T(2, 4))
def _slogdet(g, a):
    square(g, a.A)
    return a.A[:-2], a.A[:-2]
