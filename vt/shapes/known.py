"""Known findings of the shape library (see known_findings.txt): for each, the
inputs on which the function is known to be wrong.  Everything else, and every
other operator, stays strict."""
from .core import known, SPECS, mangle
from ..symex import or_, and_, not_


def _differs(*names):
    """operands do not all have the shape of the first one"""
    def f(a):
        x = a[names[0]]
        cs = []
        for n in names[1:]:
            y = a[n]
            if y is None:
                continue
            if len(y) > len(x):
                return True
            k = len(x) - len(y)
            cs += [and_(x[k + i] == 1, y[i] != 1) for i in range(len(y))]
        return or_(*cs) if cs else False
    return f


def install():
    for op in "remainder.Tensor fmod.Tensor logaddexp logaddexp2".split():
        known(op, f"S01-{op}-broadcast", _differs("self", "other"), "")
    known("polar", "S01-polar-broadcast", _differs("abs", "angle"), "")
    known("clamp.Tensor", "S01-clamp.Tensor-broadcast", _differs("self", "min", "max"), "")
    known("clamp_min.Tensor", "S01-clamp_min.Tensor-broadcast", _differs("self", "min"), "")
    for op in "masked_fill.Scalar masked_fill.Tensor masked_scatter".split():
        known(op, f"S01-{op}-broadcast", _differs("self", "mask"), "")
    known("any.dims", "S02-any.dims-empty", lambda a: a.dim is not None and len(a.dim) == 0, "")
    known("cosine_similarity", "S02-cosine_similarity-negdim", lambda a: a.dim < 0, "")
    known("t", "S03-t-rank", lambda a: len(a.self) < 2, "")
    known("repeat_interleave.self_int", "S03-repeat_interleave-dim-1", lambda a: False if a.dim is None else a.dim == -1, "")
    known("unfold", "S03-unfold-rank0-negdim", lambda a: len(a.self) == 0 and a.dimension == -1, "")
    known("narrow", "S04-narrow-negstart", lambda a: and_(a.start < 0), "")
    for op in ("max_pool1d", "max_pool1d_with_indices"):
        known(op, f"S05-{op}-dilation", lambda a: a.dilation[0] != 1, "")
    for op in ("avg_pool3d", "max_pool3d", "max_pool3d_with_indices"):
        known(op, f"S05-{op}-default-stride", lambda a: len(a.stride) == 0 and len(a.kernel_size) == 3, "")
        known(op, f"S05-{op}-empty-batch", lambda a: a.self[0] == 0 if len(a.self) == 5 else False, "")
    for n in (1, 2, 3):
        for op in (f"conv{n}d", f"conv{n}d.padding", "conv_transpose1d" if n == 1 else f"conv_transpose{n}d.input"):
            known(op, f"S05-{op}-unbatched", (lambda n: lambda a: len(a.input) == n + 1)(n), "")

        def same(a, n=n):
            if a.padding != "same":
                return False
            return or_(*[d * (k - 1) % 2 != 0 for d, k in zip(a.dilation, a.weight[2:])],
                       len(set(a.dilation)) > 1)
        known(f"conv{n}d.padding", f"S05-conv{n}d.padding-same", same, "")
    known("conv_tbc", "S05-conv_tbc", lambda a: True, "")
    for op in "linalg_det _linalg_det linalg_slogdet".split():
        known(op, f"S06-{op}-rank", lambda a: len(a.A) > 3, "")
    known("scaled_dot_product_attention", "S06-sdpa-batch",
          lambda a: False if len(a.query) <= 3 else or_(
              *[or_(and_(a.query[i] == 1, a.key[i] != 1), and_(a.query[i] == 1, a.value[i] != 1))
                for i in range(1, len(a.query) - 2)]), "")
    known("arange.start", "S07-arange.start-negative-end", lambda a: a.end < 0, "")
    for op in "mse_loss l1_loss kl_div".split():
        known(op, f"S07-{op}-broadcast", (lambda d: lambda a: False if a.reduction != 0 else d(a))(_differs("self", "target")), "")
    known("poisson_nll_loss", "S07-poisson_nll_loss-broadcast",
          lambda a: False if a.reduction != 0 else _differs("input", "target")(a), "")
    known("cross_entropy_loss", "S07-cross_entropy_loss-rank", lambda a: len(a.self) > 2, "")
    for op in "fft_fft fft_ifft fft_rfft".split():
        known(op, f"S07-{op}-n", lambda a: False if a.n is None else a.n != a.self[_d(a)], "")
    known("torchvision.nms", "S07-nms-rank", lambda a: True, "")
    known("stft.center", "S07-stft.center-odd", lambda a: False if not a.center else or_(a.n_fft % 2 != 0, a.n_fft > a.self[-1]), "")


def _d(a):
    from ..symex import ctx
    r = len(a.self)
    return (a.dim.__index__() if not isinstance(a.dim, int) else a.dim) % r
