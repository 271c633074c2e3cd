"""Convolution, pooling, padding, resizing."""
from .core import *

i64 = torch.int64
GROUP = "S05"


def pool_len(g, n, k, pad, s, d, ceil):
    """PyTorch's documented window count."""
    x = n + 2 * pad - d * (k - 1) - 1 + ((s - 1) if ceil else 0)
    out = fdiv(x, s) + 1
    if ceil:
        # the last window must start inside the input or its left padding
        out = ite((out - 1) * s >= n + pad, out - 1, out)
    return out


# stride/dilation vectors are case-split (they multiply or divide sizes)
def VEC(n, *vals, empty=False, single=True):
    def f(g, a, nm):
        opts = ([[]] if empty else [])
        if n == 1:
            opts += [[v] for v in vals]
        else:
            if single:
                opts += [[v] for v in vals[:2]]
            k = len(vals)
            if 1 in vals:
                opts.append([1] * n)
            for sft in range(k if n < 3 or g.tier != "quick" else 1):
                opts.append([vals[(sft + i) % k] for i in range(n)])
            if g.tier != "quick":
                import itertools
                for t in itertools.product(vals, repeat=n):
                    if list(t) not in opts:
                        opts.append(list(t))
        return list(opts[g.p.choice(len(opts))])
    return f


def KER(n, hi=4):
    def f(g, a, nm):
        if n > 1 and g.p.choice(2):
            return g.ints(1, nm, 1, hi)
        return g.ints(n, nm, 1, hi)
    return f


def PAD(n, hi=2):
    def f(g, a, nm):
        if n > 1 and g.p.choice(2):
            return g.ints(1, nm, 0, hi)
        return g.ints(n, nm, 0, hi)
    return f


def KCONC(n):
    """kernel sizes case-split (used as strides when stride is omitted)"""
    return VEC(n, 2, 3, 1)


def full(v, n):
    return list(v) * n if len(v) == 1 else list(v)


def pool(g, a, n, maxp):
    self = a.self
    k = full(a.kernel_size, n)
    s = full(a.stride, n) if len(a.stride) else list(k)
    if any(not isinstance(x, int) for x in s):
        g.req(False)
    p = full(a.padding, n)
    d = full(a.dilation, n) if "dilation" in a else [1] * n
    out = []
    for x in self[-n - 1:]:
        g.req(x >= 1)
    for i in range(n):
        g.req(2 * p[i] <= k[i])
        o = pool_len(g, self[len(self) - n + i], k[i], p[i], s[i], d[i], a.ceil_mode)
        g.req(o >= 1)
        if n == 3 and "divisor_override" in a:
            g.req(self[len(self) - n + i] >= k[i])
        out.append(o)
    return self[:len(self) - n] + out


def poolspecs(n):
    R = T(n + 1, n + 2, 0, BIG)

    def kern(g, a, nm):
        return (KCONC(n) if g.p.choice(2) else KER(n))(g, a, nm)

    def stride(g, a, nm):
        conc = all(isinstance(x, int) for x in a.kernel_size)
        if conc:
            return []
        return VEC(n, 2, 3, 1)(g, a, nm)

    dil = VEC(n, 2, 1, single=False) if n > 1 else VEC(n, 1, 2, 3)

    @spec(f"avg_pool{n}d", self=R, kernel_size=kern, stride=stride, padding=PAD(n), ceil_mode=BC(),
          count_include_pad=C(True), divisor_override=C(None))
    def _avg(g, a):
        return pool(g, a, n, False)

    @spec(f"max_pool{n}d", self=R, kernel_size=kern, stride=stride, padding=PAD(n), dilation=dil, ceil_mode=BC())
    def _max(g, a):
        return pool(g, a, n, True)

    @spec(f"max_pool{n}d_with_indices", self=R, kernel_size=kern, stride=stride, padding=PAD(n), dilation=dil, ceil_mode=BC())
    def _maxi(g, a):
        o = pool(g, a, n, True)
        return o, o


for _n in (1, 2, 3):
    poolspecs(_n)


@spec("max_pool2d_with_indices_backward", self=T(3, 4, 1, 20), kernel_size=C([2, 2]), stride=C([2, 2]), padding=C([0, 0]),
      dilation=C([1, 1]), ceil_mode=C(False), grad_output=lambda g, a, n: [], indices=lambda g, a, n: [], dt=dict(indices=i64))
def _mpb(g, a):
    for x in a.self[-2:]:
        g.req(x >= 2)
    o = a.self[:-2] + [fdiv(x, 2) for x in a.self[-2:]]
    a["grad_output"].extend(o)
    a["indices"].extend(o)
    return a.self


def adaptive(g, self, out, n):
    for x in self[1:]:
        g.req(x >= 1)
    if len(self) == n + 1:
        g.req(self[0] >= 1)
    return self[:len(self) - n] + list(out)


for _n in (1, 2, 3):
    def mk(n):
        R = T(n + 1, n + 2, 1)
        O_ = LI(n, 1, 8)

        @spec(f"adaptive_avg_pool{n}d", self=R, output_size=O_)
        def _aap(g, a):
            return adaptive(g, a.self, a.output_size, n)

        @spec(f"adaptive_max_pool{n}d", self=R, output_size=O_)
        def _amp(g, a):
            o = adaptive(g, a.self, a.output_size, n)
            return o, o
    mk(_n)


@spec("max_unpool2d", self=T(3, 4, 1), indices=like("self"), output_size=LI(2, 1, 8), dt=dict(indices=i64))
def _mu2(g, a):
    return a.self[:-2] + a.output_size


@spec("max_unpool3d", self=T(4, 5, 1), indices=like("self"), output_size=LI(3, 1, 8), stride=C([1, 1, 1]), padding=C([0, 0, 0]),
      dt=dict(indices=i64))
def _mu3(g, a):
    # the requested size must be within one stride of the default size
    for i in range(3):
        g.req(abs(a.output_size[i] - a.self[len(a.self) - 3 + i]) < 1)
    return a.self[:-3] + a.output_size


# ------------------------------------------------------------ convolution

def conv_out(g, x, w, n, stride, padding, dilation, transposed, opad, groups):
    """x: (N) C spatial..."""
    unb = len(x) == n + 1
    s, p, d = full(stride, n), full(padding, n), full(dilation, n)
    sp = x[len(x) - n:]
    ch = x[len(x) - n - 1]
    out = []
    g.req(ch >= 1)
    if not transposed:
        g.req(ch == w[1] * groups, w[1] >= 1)
        q = g.size("q", 1, BIG)
        g.req(w[0] == q * groups)
        for i in range(n):
            k = d[i] * (w[2 + i] - 1) + 1
            g.req(w[2 + i] >= 1, sp[i] >= 1)
            o = fdiv(sp[i] + 2 * p[i] - k, s[i]) + 1
            g.req(sp[i] + 2 * p[i] >= k)
            out.append(o)
        oc = w[0]
    else:
        op = full(opad, n)
        q = g.size("q", 1, BIG)
        g.req(ch == w[0], w[0] == q * groups, w[1] >= 1)
        for i in range(n):
            g.req(w[2 + i] >= 1, sp[i] >= 1)
            g.req(or_(op[i] < s[i], op[i] < d[i]))
            o = (sp[i] - 1) * s[i] - 2 * p[i] + d[i] * (w[2 + i] - 1) + op[i] + 1
            g.req(o >= 1)
            out.append(o)
        oc = w[1] * groups
    return ([] if unb else [x[0]]) + [oc] + out


def bias_ok(g, bias, oc):
    if bias is not None:
        g.req(bias[0] == oc)


BIAS = O(T(1, 1))


def CH(n):
    return dict(weight=T(n + 2, n + 2, 1, 64), bias=BIAS, groups=C(1, 2), padding=LI(n, 0, 4))


for _n in (1, 2, 3):
    def mk(n):
        st = VEC(n, 1, 2, 3, single=False)
        di = VEC(n, 1, 2, single=False)
        R = T(n + 1, n + 2, 0)

        @spec(f"conv{n}d", input=R, stride=st, dilation=di, **CH(n))
        def _conv(g, a):
            o = conv_out(g, a.input, a.weight, n, a.stride, a.padding, a.dilation, False, None, a.groups)
            bias_ok(g, a.bias, a.weight[0])
            return o

        ch = CH(n)
        ch["padding"] = C("valid", "same")

        @spec(f"conv{n}d.padding", input=R, stride=st, dilation=di, **ch)
        def _convp(g, a):
            o = conv_out(g, a.input, a.weight, n, a.stride, [0] * n, a.dilation, False, None, a.groups) \
                if a.padding == "valid" else None
            bias_ok(g, a.bias, a.weight[0])
            if o is not None:
                return o
            # 'same': stride 1, spatial sizes are preserved
            if any(s != 1 for s in a.stride):
                g.req(False)
            ch_ = a.input[len(a.input) - n - 1]
            g.req(ch_ >= 1, ch_ == a.weight[1] * a.groups)
            q = g.size("q", 1, BIG)
            g.req(a.weight[0] == q * a.groups)
            for x in a.input[-n:]:
                g.req(x >= 1)
            return a.input[:len(a.input) - n - 1] + [a.weight[0]] + a.input[-n:]

        name = {1: "conv_transpose1d", 2: "conv_transpose2d.input", 3: "conv_transpose3d.input"}[n]

        @spec(name, input=R, stride=st, dilation=di, output_padding=LI(n, 0, 2), **CH(n))
        def _convt(g, a):
            o = conv_out(g, a.input, a.weight, n, a.stride, a.padding, a.dilation, True, a.output_padding, a.groups)
            bias_ok(g, a.bias, a.weight[1] * a.groups)
            return o
    mk(_n)


def _cw(g, a, n):
    return g.dims(len(a.input), n, 1, 64)


def _vecn(*vals):
    def f(g, a, nm):
        return VEC(len(a.input) - 2, *vals, single=False)(g, a, nm)
    return f


def _ln(lo, hi):
    return lambda g, a, nm: g.ints(len(a.input) - 2, nm, lo, hi)


_CV = dict(input=T(3, 4, 0), weight=_cw, bias=BIAS, stride=_vecn(1, 2, 3), padding=_ln(0, 4), dilation=_vecn(1, 2),
           transposed=BC(), output_padding=_ln(0, 2), groups=C(1, 2))


@spec("convolution", **_CV)
@spec("_convolution _convolution.deprecated", benchmark=C(False), deterministic=C(False), cudnn_enabled=C(False),
      allow_tf32=C(False), **_CV)
def _convolution(g, a):
    n = len(a.input) - 2
    if not a.transposed:
        for x in a.output_padding:
            g.req(x == 0)
    o = conv_out(g, a.input, a.weight, n, a.stride, a.padding, a.dilation, a.transposed, a.output_padding, a.groups)
    bias_ok(g, a.bias, o[1])
    return o


@spec("convolution_backward", grad_output=lambda g, a, n: [], input=T(3, 4, 1, 20), weight=_cw,
      bias_sizes=lambda g, a, n: ([] if g.p.choice(2) else None), stride=_vecn(1, 2),
      padding=_ln(0, 2), dilation=_vecn(1, 2), transposed=BC(), output_padding=_ln(0, 0), groups=C(1, 2),
      output_mask=C([True, True, True], [True, True, False], [False, True, True], [True, False, True]))
def _cb(g, a):
    n = len(a.input) - 2
    o = conv_out(g, a.input, a.weight, n, a.stride, a.padding, a.dilation, a.transposed, a.output_padding, a.groups)
    if a.groups != 1 and a.output_mask != [True, True, True]:
        g.req(False)  # PyTorch's CPU kernel itself returns undocumented shapes here
    a["grad_output"].extend(o)
    if a.bias_sizes is not None:
        a["bias_sizes"].append(o[1])
    # results that are not requested are undefined tensors: any shape is right
    return (a.input, a.weight, [o[1]])


@spec("conv_tbc", self=T(3, 3, 1), weight=T(3, 3, 1, 64), bias=T(1, 1), pad=I(0, 4))
def _tbc(g, a):
    t, b, c = a.self
    k, ci, co = a.weight
    g.req(c == ci, a.bias[0] == co)
    o = t + 2 * a.pad - k + 1
    g.req(o >= 1)
    return [o, b, co]


@spec("torchvision.deform_conv2d", input=T(4, 4, 1), weight=T(4, 4, 1, 9), offset=lambda g, a, n: [], mask=lambda g, a, n: [],
      bias=T(1, 1), stride_h=C(1, 2), stride_w=C(1, 3), pad_h=I(0, 3), pad_w=I(0, 3), dilation_h=C(1, 2), dilation_w=C(1, 2),
      groups=C(1), offset_groups=C(1), use_mask=C(True), oracle=False)
def _dcn(g, a):
    o = conv_out(g, a.input, a.weight, 2, [a.stride_h, a.stride_w], [a.pad_h, a.pad_w], [a.dilation_h, a.dilation_w],
                 False, None, a.groups)
    k = a.weight[2] * a.weight[3]
    a["offset"].extend([a.input[0], 2 * k, o[2], o[3]])
    a["mask"].extend([a.input[0], k, o[2], o[3]])
    g.req(a.bias[0] == a.weight[0])
    return o


# ---------------------------------------------------------------- padding

def padded(g, x, pad):
    out = list(x)
    for i in range(len(pad) // 2):
        j = len(x) - 1 - i
        out[j] = x[j] + pad[2 * i] + pad[2 * i + 1]
    return out


def PADS(lo, hi):
    return lambda g, a, n: g.ints(2 * g.p.choice(len(a.self) + 1), n, lo, hi)


@spec("constant_pad_nd", self=T(0), pad=PADS(-6, 6), value=C(0.0))
@spec("pad", self=T(0), pad=PADS(-6, 6), mode=C("constant"), value=C(None, 0.0))
def _cpad(g, a):
    o = padded(g, a.self, a.pad)
    for i in range(len(a.pad) // 2):
        j = len(a.self) - 1 - i
        # a negative pad crops: the cropped part must exist
        lo, hi = a.pad[2 * i], a.pad[2 * i + 1]
        g.req(o[j] >= 0, a.self[j] + smin(lo, 0) + smin(hi, 0) >= 0)
    return o


for _n in (1, 2, 3):
    def mk(n):
        @spec(f"replication_pad{n}d", self=T(n + 1, n + 2, 1), padding=LI(2 * n, -4, 6))
        def _rep(g, a):
            o = padded(g, a.self, a.padding)
            for i in range(n):
                j = len(a.self) - 1 - i
                g.req(o[j] >= 1, a.self[j] + smin(a.padding[2 * i], 0) + smin(a.padding[2 * i + 1], 0) >= 1)
            return o

        @spec(f"reflection_pad{n}d", self=T(n + 1, n + 2, 1), padding=LI(2 * n, -4, 6))
        def _ref(g, a):
            o = padded(g, a.self, a.padding)
            for i in range(n):
                j = len(a.self) - 1 - i
                g.req(a.padding[2 * i] < a.self[j], a.padding[2 * i + 1] < a.self[j], o[j] >= 1,
                      a.self[j] + smin(a.padding[2 * i], 0) + smin(a.padding[2 * i + 1], 0) >= 1)
            return o
    mk(_n)


# ----------------------------------------------------------------- resize

def SC(n):
    """optional scale factors, exact binary fractions"""
    return C(*[[v] * n if n == 1 else v for v in
               ([2.0, 1.5, 0.5, 0.875, 1.75, 3.0625, 1.0] if n == 1 else
                [[2.0, 2.0], [1.5, 2.0], [0.5, 1.25], [2.0, 0.75], [0.875, 1.75], [3.0625, 0.9375]])])


def scaled(x, s):
    from fractions import Fraction
    f = Fraction(s)
    return fdiv(x * f.numerator, f.denominator)


@spec("upsample_nearest1d", self=T(3, 3, 1), output_size=LI(1, 1, 64), scales=C(None))
def _un1(g, a):
    return a.self[:2] + a.output_size


@spec("upsample_nearest2d upsample_bilinear2d", self=T(4, 4, 1), output_size=LI(2, 1, 64), align_corners=BC(),
      scales_h=C(None), scales_w=C(None))
def _un2(g, a):
    return a.self[:2] + a.output_size


@spec("upsample_nearest2d_backward", grad_output=lambda g, a, n: [], output_size=LI(2, 1, 64), input_size=LI(4, 1, 64),
      scales_h=C(None), scales_w=C(None))
def _un2b(g, a):
    a["grad_output"].extend(a.input_size[:2] + a.output_size)
    return a.input_size


def osz(n):
    return dict(input=T(n + 2, n + 2, 1, 4096), output_size=O(LI(n, 1, 64)),
                scale_factors=lambda g, a, nm: None if a.output_size is not None else SC(n)(g, a, nm))


@spec("upsample_nearest1d.vec", **osz(1))
@spec("upsample_nearest2d.vec", **osz(2))
@spec("upsample_bilinear2d.vec", align_corners=BC(), **osz(2))
def _unv(g, a):
    n = len(a.input) - 2
    if a.output_size is not None:
        return a.input[:2] + a.output_size
    o = [scaled(a.input[2 + i], a.scale_factors[i]) for i in range(n)]
    for x in o:
        g.req(x >= 1)
    return a.input[:2] + o


@spec("__interpolate.size_list_scale_list", input=T(4, 4, 1, 4096), size=O(LI(2, 1, 64)),
      scale_factor=lambda g, a, n: None if a["size"] is not None else SC(2)(g, a, n),
      mode=C("nearest", "bilinear"), align_corners=C(None), recompute_scale_factor=C(None), antialias=C(False), oracle=False)
def _interp(g, a):
    if a["size"] is not None:
        return a.input[:2] + a["size"]
    o = [scaled(a.input[2 + i], a.scale_factor[i]) for i in range(2)]
    for x in o:
        g.req(x >= 1)
    return a.input[:2] + o


@spec("grid_sampler", input=T(4, 4, 1), grid=T(4, 4, 1), interpolation_mode=C(0, 1), padding_mode=C(0, 1), align_corners=BC())
def _gs(g, a):
    g.req(a.input[0] == a.grid[0], a.grid[3] == 2)
    return a.input[:2] + a.grid[1:3]


@spec("col2im", self=lambda g, a, n: [], output_size=LI(2, 1, 12), kernel_size=C([2, 3], [1, 2], [3, 3]),
      dilation=VEC(2, 1, 2, single=False), padding=LI(2, 0, 2), stride=VEC(2, 1, 2, single=False))
def _col2im(g, a):
    c = g.size("c", 1, 16)
    n = []
    for i, x in enumerate(a.output_size):
        y = x + 2 * a.padding[i] - a.dilation[i] * (a.kernel_size[i] - 1) - 1
        g.req(y >= 0)
        n.append(fdiv(y, a.stride[i]) + 1)
    b = g.maybe(lambda: g.size("b", 0, 16))
    lead = [] if b is None else [b]
    a["self"].extend(lead + [c * a.kernel_size[0] * a.kernel_size[1], n[0] * n[1]])
    return lead + [c] + a.output_size


@spec("torchvision.roi_align", input=T(4, 4), rois=T(2, 2), pooled_height=I(1, 8), pooled_width=I(1, 8), sampling_ratio=C(0),
      aligned=BC(), oracle=False)
def _roi(g, a):
    g.req(a.rois[1] == 5)
    return [a.rois[0], a.input[1], a.pooled_height, a.pooled_width]


@spec("torchvision.roi_pool", input=T(4, 4), rois=T(2, 2), pooled_height=I(1, 8), pooled_width=I(1, 8), oracle=False)
def _roip(g, a):
    g.req(a.rois[1] == 5)
    o = [a.rois[0], a.input[1], a.pooled_height, a.pooled_width]
    return o, o
