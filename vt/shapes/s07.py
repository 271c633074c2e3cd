"""Creation, losses, normalisation, signal processing."""
from .core import *

i64 = torch.int64
GROUP = "S07"

SZ = LIR(0, 3, 0, 64)


@spec("zeros ones empty.memory_format rand randn", size=SZ)
@spec("full", size=SZ, fill_value=C(1.0))
@spec("new_full", size=SZ, fill_value=C(1.0))
@spec("new_zeros new_ones new_empty", size=SZ)
@spec("randint.low", low=C(0), high=C(5), size=SZ, dtype=C(4))
@spec("randint", high=C(5), size=SZ, dtype=C(4))
@spec("randn.generator", size=SZ, generator=C(None))
@spec("empty_strided new_empty_strided", size=SZ, stride=lambda g, a, n: [1] * len(a["size"]))
def _size(g, a):
    return a["size"]


@spec("prim.NumToTensor.Scalar", torch_args="none")
@spec("tensor.float tensor.int tensor.bool", torch_args="none")
@spec("scalar_tensor", s=C(1.0))
def _scalar(g, a):
    return []


@spec("eye", n=I(0, 64))
def _eye(g, a):
    return [a.n, a.n]


@spec("eye.m", n=I(0, 64), m=I(0, 64))
def _eyem(g, a):
    return [a.n, a.m]


@spec("hann_window.periodic", window_length=I(0, 64))
def _hann(g, a):
    return [a.window_length]


@spec("linspace", start=C(0.0), end=C(1.0), steps=I(0, 64))
def _linspace(g, a):
    return [a.steps]


@spec("prims.iota", length=I(0, 64), start=C(0), step=C(1), dtype=C(4), device=C("cpu"), requires_grad=C(False))
def _iota(g, a):
    return [a.length]


def IV(lo=-64, hi=64):
    """an integer-valued or half-integer-valued number"""
    def f(g, a, n):
        i = g.int(n, lo, hi)
        if g.p.choice(2):
            return i
        from ..symex import mkreal, ex
        import z3
        return mkreal(z3.ToReal(ex(i)) / 2)
    return f


def ceil_of(x):
    from ..symex import SymReal
    return x.__ceil__() if isinstance(x, SymReal) else x


@spec("arange", end=IV(0))
def _arange(g, a):
    return [ceil_of(a.end)]


@spec("arange.start", start=IV(), end=IV())
def _arange_s(g, a):
    g.req(a.end >= a.start)
    return [ceil_of(a.end - a.start)]


@spec("arange.start_step", start=IV(), end=IV(), step=C(1, 2, 3, -1, -2, 0.5, 1.5))
def _arange_ss(g, a):
    from ..symex import _lift_real, mkint
    import z3
    if a.step > 0:
        g.req(a.end >= a.start)
    else:
        g.req(a.end <= a.start)
    q = (_lift_real(a.end) - _lift_real(a.start)) / _lift_real(a.step)
    return [mkint(-z3.ToInt(-q))]


@spec("tril_indices", row=I(0, 12), col=I(0, 12), offset=I(-14, 14))
def _tril(g, a):
    s = 0
    for i in range(12):
        n = clampi(i + a.offset + 1, 0, a.col)
        s = s + ite(i < a.row, n, 0)
    return [2, s]


@spec("triu_indices", row=I(0, 12), col=I(0, 12), offset=I(-14, 14))
def _triu(g, a):
    s = 0
    for i in range(12):
        n = a.col - clampi(i + a.offset, 0, a.col)
        s = s + ite(i < a.row, n, 0)
    return [2, s]


# ------------------------------------------------------------------ losses

def red(a, o):
    return o if a.reduction == 0 else []


RED = C(0, 1, 2)


@spec("mse_loss l1_loss", self=T(0, 2), target=T(0, 2), reduction=RED)
def _mse(g, a):
    return red(a, g.bcast(a.self, a.target))


@spec("kl_div", self=T(0, 2), target=T(0, 2), reduction=RED, log_target=BC())
def _kl(g, a):
    return red(a, g.bcast(a.self, a.target))


@spec("poisson_nll_loss", input=T(0, 2), target=T(0, 2), log_input=C(True), full=C(False), eps=C(1e-8), reduction=RED)
def _pnll(g, a):
    return red(a, g.bcast(a.input, a.target))


@spec("binary_cross_entropy_with_logits", self=T(0, 2), target=like("self"), weight=O(like("self")), pos_weight=C(None),
      reduction=RED)
def _bcewl(g, a):
    return red(a, a.self)




@spec("nll_loss_forward", self=T(1, 2, 1), target=T(0, 1), weight=O(T(1, 1)), reduction=RED, ignore_index=C(-100),
      dt=dict(target=i64))
def _nll(g, a):
    C_ = a.self[-1]
    if len(a.self) == 1:
        if len(a.target) == 1:
            g.req(False)
    else:
        g.req(len(a.target) == 1)
        g.req(a.target[0] == a.self[0])
    if a.weight is not None:
        g.req(a.weight[0] == C_)
    if a.reduction == 0 and len(a.self) == 2:
        return [a.self[0]], []
    return [], []


@spec("nll_loss_backward", self=T(1, 2, 1), target=T(0, 1), weight=O(T(1, 1)), reduction=RED, ignore_index=C(-100),
      grad_output=lambda g, a, n: [], total_weight=C([]), dt=dict(target=i64))
def _nllb(g, a):
    o, _ = _nll(g, a)
    a["grad_output"].extend(o)
    return a.self


@spec("cross_entropy_loss", self=T(1, 4, 1), target=T(0, 3), weight=O(T(1, 1)), reduction=RED, ignore_index=C(-100),
      label_smoothing=C(0.0), dt=dict(target=i64))
def _ce(g, a):
    x, t = a.self, a.target
    cls = x[0] if len(x) == 1 else x[1]
    exp = [] if len(x) == 1 else [x[0]] + x[2:]
    g.same(t, exp)
    if a.weight is not None:
        g.req(a.weight[0] == cls)
    return red(a, t)


# ----------------------------------------------------------- normalisation

def norm_suffix(g, a, n):
    k = 1 + g.p.choice(len(a.input))
    return list(a.input[-k:])


def same_opt(src):
    return lambda g, a, n: list(a[src]) if g.p.choice(2) else None


@spec("layer_norm", input=T(1, None, 1), normalized_shape=norm_suffix, weight=same_opt("normalized_shape"),
      bias=same_opt("normalized_shape"), eps=C(1e-5), cudnn_enable=C(False))
@spec("rms_norm", input=T(1, None, 1), normalized_shape=norm_suffix, weight=same_opt("normalized_shape"), eps=C(None))
def _ln(g, a):
    return a.input


@spec("native_layer_norm", input=T(1, None, 1), normalized_shape=norm_suffix, weight=same_opt("normalized_shape"),
      bias=same_opt("normalized_shape"), eps=C(1e-5))
def _nln(g, a):
    k = len(a.input) - len(a.normalized_shape)
    st = a.input[:k] + [1] * len(a.normalized_shape)
    return a.input, st, st


def chan(src, i):
    return lambda g, a, n: [a[src][i]] if g.p.choice(2) else None


def chanreq(src, i):
    return lambda g, a, n: [a[src][i]]


@spec("group_norm", input=T(2, None, 1), num_groups=C(1, 2, 3), weight=chan("input", 1), bias=chan("input", 1), eps=C(1e-5),
      cudnn_enabled=C(False))
def _gn(g, a):
    q = g.size("q", 1)
    g.req(a.input[1] == q * a.num_groups)
    return a.input


@spec("instance_norm", input=T(3, 4, 2), weight=chan("input", 1), bias=chan("input", 1), running_mean=C(None), running_var=C(None),
      use_input_stats=C(True), momentum=C(0.1), eps=C(1e-5), cudnn_enabled=C(False))
def _in(g, a):
    return a.input


@spec("batch_norm", input=T(2, None, 2), weight=chan("input", 1), bias=chan("input", 1), running_mean=chanreq("input", 1),
      running_var=chanreq("input", 1), training=BC(), momentum=C(0.1), eps=C(1e-5), cudnn_enabled=C(False))
def _bn(g, a):
    return a.input


@spec("native_batch_norm", input=T(2, None, 2), weight=chan("input", 1), bias=chan("input", 1), running_mean=chanreq("input", 1),
      running_var=chanreq("input", 1), training=BC(), momentum=C(0.1), eps=C(1e-5))
def _nbn(g, a):
    s = [a.input[1]] if a.training else [0]
    return a.input, s, s


@spec("native_group_norm", input=T(2, 4, 1, 40), weight=chan("input", 1), bias=chan("input", 1), N=lambda g, a, n: a.input[0],
      C=lambda g, a, n: a.input[1], HxW=lambda g, a, n: numel(a.input[2:]), group=C(1, 2, 3), eps=C(1e-5))
def _ngn(g, a):
    q = g.size("q", 1, 40)
    g.req(a.input[1] == q * a.group)
    return a.input, [a.N, a.group], [a.N, a.group]


@spec("_weight_norm_interface", v=T(2, 3, 1, 64), g=lambda g, a, n: [], dim=lambda g, a, n: g.pick(0, len(a.v) - 1))
def _wni(g, a):
    d = a.dim
    o = [s if i == d else 1 for i, s in enumerate(a.v)]
    a["g"].extend(o)
    return a.v, o


@spec("glu", self=T(1), dim=DIM())
def _glu(g, a):
    d = g.wrap(a.dim, len(a.self))
    h = g.size("h", 0)
    g.req(a.self[d] == 2 * h)
    return a.self[:d] + [h] + a.self[d + 1:]


# ------------------------------------------------------------------ signal

@spec("fft_fft fft_ifft fft_rfft", self=T(1, None, 1), n=O(I(1, 64)), dim=DIM(), norm=C(None))
def _fft(g, a):
    d = g.wrap(a.dim, len(a.self))
    out = list(a.self)
    n = a.self[d] if a.n is None else a.n
    out[d] = fdiv(n, 2) + 1 if "rfft" in g.op else n
    return out


def stft_out(g, a, L, n_fft, hop):
    onesided = a.onesided is None or bool(a.onesided)
    out = a.self[:-1]
    out = out + [fdiv(n_fft, 2) + 1 if onesided else n_fft, 1 + fdiv(L - n_fft, hop)]
    if not a.return_complex:
        out = out + [2]
    return out


_ST = dict(self=T(1, 2, 1, 256), n_fft=I(1, 64), hop_length=C(None, 1, 2, 3, 5), win_length=C(None), window=lambda g, a, n: [a.n_fft],
           normalized=C(False), onesided=C(None, True, False), return_complex=C(True, False), align_to_window=C(None))


@spec("stft", **_ST)
def _stft(g, a):
    g.req(a.n_fft <= a.self[-1])
    if a.hop_length is None:
        g.req(a.n_fft >= 4)
        # hop = n_fft // 4 is case-split
        g.req(a.n_fft <= 24)
        hop = g.conc(fdiv(a.n_fft, 4))
    else:
        hop = a.hop_length
    return stft_out(g, a, a.self[-1], a.n_fft, hop)


@spec("stft.center", center=BC(), pad_mode=C("constant"), **_ST)
def _stftc(g, a):
    L = a.self[-1]
    if a.center:
        L = L + 2 * fdiv(a.n_fft, 2)
    g.req(a.n_fft <= L)
    if a.hop_length is None:
        g.req(a.n_fft >= 4)
        g.req(a.n_fft <= 24)
        hop = g.conc(fdiv(a.n_fft, 4))
    else:
        hop = a.hop_length
    return stft_out(g, a, L, a.n_fft, hop)


# --------------------------------------------------------------- the rest

def _eb(g, a):
    g.req(a.weight[0] >= 1)
    n = a.offsets[0]
    if a.include_last_offset:
        g.req(n >= 2)  # PyTorch crashes on zero bags
        n = n - 1
    o = [n, a.weight[1]]
    return o


_EB = dict(weight=T(2, 2, 1, 256), indices=T(1, 1, 1, 256), offsets=T(1, 1, 1, 256), scale_grad_by_freq=C(False), mode=C(0, 1, 2),
           sparse=C(False), per_sample_weights=C(None), include_last_offset=BC(), dt=dict(indices=i64, offsets=i64))


@spec("embedding_bag.padding_idx", padding_idx=C(None, 0), **_EB)
@spec("_embedding_bag", padding_idx=C(-1), **_EB)
def _ebag(g, a):
    return _eb(g, a), ANY, ANY, ANY


@spec("onnx.rotary_embedding", input=T(3, 4), position_ids=T(1, 2), cos_cache=T(2, 2), sin_cache=T(2, 2), interleaved=C(0),
      is_packed_batching=C(0), num_heads=C(0), rotary_embedding_dim=C(0), oracle=False)
def _rot(g, a):
    return a.input


@spec("torchvision.nms", dets=T(2, 2), scores=T(1, 1), oracle=False)
def _nms(g, a):
    # boxes kept: one index per box, rank 1
    return [ANY]
