"""Element-wise operators."""
from .core import *

i64 = torch.int64
c64 = torch.complex64
GROUP = "S01"

@spec("""rad2deg sin sinh asin asinh cos cosh acos acosh tan tanh atan atanh erf sigmoid
hardsigmoid square hardswish silu exp exp2 expm1 special_expm1 sqrt prims.sqrt neg floor
sign sgn detach log2 log10 log1p rsqrt abs absolute reciprocal ceil trunc fix log log_sigmoid
mish relu relu6 round isnan isinf isneginf isposinf logical_not real deg2rad selu
isfinite frac signbit zero
hardshrink softshrink elu leaky_relu threshold nan_to_num gelu
rsub.Scalar eq.Scalar ne.Scalar gt.Scalar ge.Scalar le.Scalar lt.Scalar add.Scalar sub.Scalar
mul.Scalar div.Scalar remainder.Scalar floor_divide.Scalar pow.Tensor_Scalar
lift_fresh_copy""")
def _unary(g, a):
    return a.self


@spec("celu", alpha=C(1.0))
@spec("softplus", beta=C(1.0), threshold=C(20.0))
@spec("round.decimals", decimals=I(0, 5))
@spec("hardtanh", min_val=C(-1.0), max_val=C(2.0))
@spec("clamp", min=O(F()), max=O(F()))
@spec("clamp_min clamp_max")
@spec("logit", eps=C(None, 0.25))
@spec("div.Scalar_mode", rounding_mode=C(None, "floor", "trunc"))
@spec("rrelu", lower=C(0.125), upper=C(0.5), training=C(False))
@spec("bernoulli.float bernoulli.p", p=C(0.5))
@spec("bernoulli")
@spec("exponential", lambd=C(1.0))
@spec("uniform", from_=C(0.0), to=C(1.0))
@spec("normal_functional", mean=C(0.0), std=C(1.0))
def _unary_const(g, a):
    if "min" in a and "max" in a and a.min is None and a.max is None:
        g.req(False)
    return a.self


@spec("bitwise_not", dt=dict(self=i64))
@spec("bitwise_and.Scalar __and__.Scalar", other=C(3), dt=dict(self=i64))
@spec("imag", dt=dict(self=c64))
def _unary_typed(g, a):
    return a.self


@spec("triu tril", self=T(2))
def _tri(g, a):
    return a.self


@spec("fake_quantize_per_tensor_affine fake_quantize_per_tensor_affine_cachemask",
      scale=C(1.0), zero_point=C(0), quant_min=C(0), quant_max=C(255))
@spec("fake_quantize_per_tensor_affine.tensor_qparams", scale=C([1]), zero_point=C([1]),
      quant_min=C(0), quant_max=C(255), dt=dict(zero_point=torch.int32), val=dict(scale=1))
@spec("_fake_quantize_per_tensor_affine_cachemask_tensor_qparams", scale=C([1]), zero_point=C([1]),
      fake_quant_enabled=C([1]),
      quant_min=C(0), quant_max=C(255), dt=dict(zero_point=torch.int32, fake_quant_enabled=i64),
      val=dict(scale=1))
def _fq(g, a):
    if g.cachemask:
        return a.self, a.self
    return a.self


@spec("fake_quantize_per_channel_affine fake_quantize_per_channel_affine_cachemask",
      self=T(1, None, 1), scale=T(1, 1), zero_point=T(1, 1), axis=lambda g, a, n: g.int(n, 0, len(a.self) - 1),
      quant_min=C(0), quant_max=C(255), dt=dict(zero_point=torch.int32), val=dict(scale=1))
def _fqc(g, a):
    ax = g.conc(a.axis)
    g.req(a.scale[0] == a.self[ax], a.zero_point[0] == a.self[ax])
    if g.cachemask:
        return a.self, a.self
    return a.self


@spec("quantize_per_channel", self=T(1, None, 1), scales=T(1, 1), zero_points=T(1, 1),
      axis=lambda g, a, n: g.int(n, 0, len(a.self) - 1),
      dtype=C(13), dt=dict(zero_points=i64), val=dict(scales=1))
def _qc(g, a):
    ax = g.conc(a.axis)
    g.req(a.scales[0] == a.self[ax], a.zero_points[0] == a.self[ax])
    return a.self


@spec("_make_per_channel_quantized_tensor", self=T(1, None, 1), scale=T(1, 1), zero_point=T(1, 1),
      axis=lambda g, a, n: g.int(n, 0, len(a.self) - 1),
      dt=dict(self=torch.uint8, zero_point=i64), val=dict(scale=1))
def _mqc(g, a):
    ax = g.conc(a.axis)
    g.req(a.scale[0] == a.self[ax], a.zero_point[0] == a.self[ax])
    return a.self


@spec("quantize_per_tensor", scale=C(1.0), zero_point=C(0), dtype=C(13))
@spec("_make_per_tensor_quantized_tensor", scale=C(1.0), zero_point=C(0), dt=dict(self=torch.uint8))
@spec("dequantize.self int_repr", dt=dict(self=torch.quint8))
@spec("to.dtype", dtype=C(7))
@spec("to.device", device=C("cpu"), dtype=C(7))
@spec("to.dtype_layout _to_copy")
@spec("_cast_Float _cast_Long")
@spec("contiguous", memory_format=C(0))
@spec("clone", memory_format=C(None))
@spec("zeros_like ones_like empty_like rand_like randn_like", dtype=C(None, 7),
      layout=C(None), pin_memory=C(None), memory_format=C(None))
@spec("full_like", fill_value=C(1.0))
@spec("fill.Scalar", value=C(1.0))
def _cast(g, a):
    return a.self


@spec("dequantize.tensor", dt=dict(qtensor=torch.quint8))
def _dq(g, a):
    return a.qtensor


@spec("prims.convert_element_type", dtype=C(7))
@spec("prims.view_of")
def _a(g, a):
    return a.a


@spec("to.other type_as")
@spec("bucketize.Tensor", boundaries=T(1, 1))
@spec("fill.Tensor", value=C([]))
@spec("bernoulli.Tensor", p=like("self"))
def _self_other(g, a):
    return a.self


@spec("expand_as")
def _expand_as(g, a):
    g.bcast_to(a.self, a.other)
    return a.other


@spec("dropout", p=C(0.5), train=BC())
def _dropout(g, a):
    return a.input


@spec("native_dropout", p=C(0.5), train=C(True, False, None))
def _ndropout(g, a):
    return a.input, a.input


@spec("quantized_decomposed.quantize_per_tensor", scale=C(1.0), zero_point=C(0), quant_min=C(0),
      quant_max=C(255), dtype=C(0), oracle=False)
@spec("quantized_decomposed.dequantize_per_tensor", scale=C(1.0), zero_point=C(0), quant_min=C(0),
      quant_max=C(255), dtype=C(0), out_dtype=C(None, 6), oracle=False)
def _qd(g, a):
    return a.input


@spec("quantized_decomposed.quantize_per_channel", input=T(1), scales=T(1, 1), zero_points=T(1, 1),
      axis=lambda g, a, n: g.int(n, 0, len(a.input) - 1), quant_min=C(0), quant_max=C(255), dtype=C(0),
      oracle=False)
@spec("quantized_decomposed.dequantize_per_channel", input=T(1), scales=T(1, 1), zero_points=O(T(1, 1)),
      axis=lambda g, a, n: g.int(n, 0, len(a.input) - 1), quant_min=C(0), quant_max=C(255), dtype=C(0),
      out_dtype=C(None, 6), oracle=False)
def _qdc(g, a):
    ax = g.conc(a.axis)
    g.req(a.scales[0] == a.input[ax])
    return a.input


@spec("pow.Scalar")
def _pow_s(g, a):
    return a.exponent


@spec("polar", angle=T())
def _polar(g, a):
    return g.bcast(a.abs, a.angle)


@spec("""ne.Tensor min.other max.other add.Tensor sub.Tensor mul.Tensor div.Tensor floor_divide
atan2 copysign.Tensor minimum maximum fmin fmax logical_or logical_and logical_xor
eq.Tensor gt.Tensor ge.Tensor lt.Tensor le.Tensor remainder.Tensor fmod.Tensor logaddexp logaddexp2
isclose""")
@spec("div.Tensor_mode", rounding_mode=C(None, "floor", "trunc"))
@spec("ldexp.Tensor")
@spec("""__and__.Tensor __or__.Tensor bitwise_or.Tensor bitwise_and.Tensor bitwise_xor.Tensor
bitwise_right_shift.Tensor bitwise_left_shift.Tensor""", dt=dict(self=i64, other=i64))
def _binary(g, a):
    return g.bcast(a.self, a.other)


@spec("pow.Tensor_Tensor")
def _powtt(g, a):
    return g.bcast(a.self, a.exponent)


@spec("heaviside")
def _heaviside(g, a):
    return g.bcast(a.self, a["values"])


@spec("lerp.Scalar")
def _lerps(g, a):
    return g.bcast(a.self, a.end)


R2 = T(0, 2)


@spec("lerp.Tensor", self=R2, end=R2, weight=R2)
def _lerp(g, a):
    return g.bcast(a.self, a.end, a.weight)


@spec("addcmul addcdiv", self=R2, tensor1=R2, tensor2=R2)
def _addc(g, a):
    return g.bcast(a.self, a.tensor1, a.tensor2)


@spec("where.self", condition=R2, self=R2, other=R2, dt=dict(condition=torch.bool))
def _where(g, a):
    return g.bcast(a.condition, a.self, a.other)


@spec("where.Scalar", dt=dict(condition=torch.bool))
def _where_s(g, a):
    return a.condition


@spec("where.ScalarOther", dt=dict(condition=torch.bool))
def _where_so(g, a):
    return g.bcast(a.condition, a.self)


@spec("where.ScalarSelf", dt=dict(condition=torch.bool))
def _where_ss(g, a):
    return g.bcast(a.condition, a.other)


@spec("clamp.Tensor", self=R2, min=O(R2), max=O(R2))
def _clampt(g, a):
    xs = [x for x in (a.self, a.min, a.max) if x is not None]
    if len(xs) == 1:
        g.req(False)
    return g.bcast(*xs)


@spec("clamp_min.Tensor")
def _clampmt(g, a):
    return g.bcast(a.self, a.min)


@spec("prelu", self=T(0, None), weight=T(0, 1))
def _prelu(g, a):
    # per-channel weight: numel 1, or the size of dimension 1
    if len(a.weight) == 0:
        g.req(True)
    elif len(a.self) >= 2:
        g.req(or_(a.weight[0] == a.self[1], a.weight[0] == 1))
    else:
        g.req(a.weight[0] == 1)
    return a.self


@spec("masked_fill.Scalar", dt=dict(mask=torch.bool))
@spec("masked_fill.Tensor", value=C([]), dt=dict(mask=torch.bool))
def _masked_fill(g, a):
    return g.bcast(a.self, a.mask)


@spec("masked_scatter", source=C([4096]), dt=dict(mask=torch.bool))
def _masked_scatter(g, a):
    return g.bcast(a.self, a.mask)


@spec("copy")
def _copy(g, a):
    g.bcast_to(a.src, a.self)
    return a.self


@spec("rrelu_with_noise", noise=like("self"), lower=C(0.125), upper=C(0.5), training=C(False))
def _rrwn(g, a):
    return a.self


@spec("rrelu_with_noise_functional", noise=like("self"), lower=C(0.125), upper=C(0.5), training=C(False))
def _rrwnf(g, a):
    return a.self, a.noise


# backward element-wise ops: operands of one common shape
@spec("tanh_backward sigmoid_backward", output=like("grad_output"))
@spec("gelu_backward leaky_relu_backward", self=like("grad_output"), self_is_result=C(False))
@spec("elu_backward", self_or_result=like("grad_output"), alpha=C(1.0), scale=C(1.0), input_scale=C(1.0))
@spec("rrelu_with_noise_backward", self=like("grad_output"), noise=like("grad_output"), lower=C(0.125),
      upper=C(0.5), training=C(False), self_is_result=C(False))
@spec("hardtanh_backward", self=like("grad_output"), min_val=C(-1.0), max_val=C(2.0))
@spec("softplus_backward", self=like("grad_output"), beta=C(1.0), threshold=C(20.0))
def _bwd(g, a):
    return a.grad_output


@spec("threshold_backward")
def _thb(g, a):
    return g.bcast(a.grad_output, a.self)
