"""P36: quantised layers compute the deployed integer arithmetic (utils.quant_utils, model/ops, model/layers, model/mixnet_components)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from symx.harness import *
from symx import symtorch as st, sreal as R
from symx.nnmod import symbolize
from symx.sreal import add, mul, sub, div, clamp, floor, rnd
import torch

check = Check("P36", "quantised layers", assumptions=[
    "floating point is exact real arithmetic (float32 rounding of products of small integers is outside)",
    "shapes, strides and quantiser settings are the listed ones; inputs, weights and biases are arbitrary reals in the stated ranges",
])
D = torch.float64
THOROUGH = os.environ.get("VERIF_TIER") == "thorough"


def qi(x, scale, bits, fl=False, signed=True):
    """the integer an engine stores for the real x"""
    lo, hi = (-(2 ** (bits - 1)), 2 ** (bits - 1) - 1) if signed else (0, 2 ** bits - 1)
    x = clamp(x, Fr(lo, scale), Fr(hi, scale))
    v = mul(x, scale)
    return floor(v) if fl else rnd(v)


def q(x, scale, bits, fl=False, signed=True):
    return mul(qi(x, scale, bits, fl, signed), Fr(1, scale))


def Fr(a, b=1):
    from fractions import Fraction
    return Fraction(a) / Fraction(b)


def ctxm(c):
    return st.mode() if c.symbolic else contextlib.nullcontext()


def same_all(c, t, want, msg):
    got = st.vals(t)
    c.check(len(got) == len(want), msg + " (shape)")
    for i, (a, b) in enumerate(zip(got, want)):
        c.check(R.close(a, b), f"{msg} (element {i})")


def grid(t):
    """nested list of elements with the tensor's shape"""
    v = st.vals(t)
    import numpy as np
    a = np.empty(len(v), dtype=object)
    for i, x in enumerate(v):
        a[i] = x
    return a.reshape(tuple(t.shape))


# ------------------------------------------------------------------ fake_quant

@check.obligation("fake_quant", bounds="scales 2, 128, 255, 1024, 16384, 32768; 8, 16, 32 bits or unbounded, signed and unsigned, zero points 0 and 3, round and floor; any real input in [-300, 300]",
                  functions=["utils.quant_utils:fake_quant"])
def o_fake(c):
    m = repo("utils.quant_utils")
    scale = c.choose("scale", [2, 128, 255, 1024, 16384, 32768])
    bits = c.choose("bits", [8, 16, 32, None])
    signed = c.choose("signed", [True, False]) if bits is not None else True
    fl = c.choose("floor", [False, True])
    zp = c.choose("zp", [0, 3])
    with ctxm(c):
        x = st.real_tensor(c, "x", (2,), D, lo=-300, hi=300)
        kw = {} if (scale, bits, zp, fl, signed) == (128, 8, 0, False, True) else dict(scale=scale, num_bits=bits, zero_point=zp, floor=fl, signed=signed)
        y = m.fake_quant(x, **kw)
        for i in range(2):
            xi, yi = st.vals(x)[i], st.vals(y)[i]
            k = mul(yi, scale)
            c.check(R.close(k, floor(k)) if c.symbolic else abs(k - round(k)) < 1e-6, "the result is a whole number of quantisation steps")
            if bits is not None:
                lo, hi = (-(2 ** (bits - 1)), 2 ** (bits - 1) - 1) if signed else (0, 2 ** bits - 1)
                c.check(sand(R.ge(k, lo - 1e-6 if not c.symbolic else lo), R.ge(hi + 1e-6 if not c.symbolic else hi, k)), "the result fits the integer range")
                cl = clamp(xi, Fr(lo, scale), Fr(hi, scale))
            else:
                cl = xi
            d = mul(sub(cl, yi), scale)
            e = 0 if c.symbolic else 1e-6
            if fl:
                c.check(sand(R.ge(d, 0 - e), R.gt(1 + e, d)), "floor: within one step below the clamped value")
            else:
                c.check(sand(R.ge(d, Fr(-1, 2) - e if c.symbolic else -0.5 - e), R.ge(Fr(1, 2) if c.symbolic else 0.5 + e, d)), "round: within half a step of the clamped value")


@check.obligation("fake_quant_gradient", bounds="8-bit signed / unsigned / unbounded; any real input: straight-through inside the range, zero outside",
                  functions=["utils.quant_utils:fake_quant"])
def o_fake_grad(c):
    m = repo("utils.quant_utils")
    bits = c.choose("bits", [8, None])
    signed = c.choose("signed", [True, False]) if bits else True
    with ctxm(c):
        x = st.real_tensor(c, "x", (1,), D, lo=-4, hi=4, requires_grad=True)
        w = st.real_tensor(c, "g", (1,), D, lo=-4, hi=4)
        y = m.fake_quant(x, 128, num_bits=bits, signed=signed, floor=c.choose("floor", [False, True]))
        (y * w).sum().backward()
        xi, gi, wi = st.vals(x)[0], st.vals(x.grad)[0], st.vals(w)[0]
        if bits is None:
            c.check(R.close(gi, wi), "straight-through gradient")
        else:
            lo, hi = (Fr(-1), Fr(127, 128)) if signed else (Fr(0), Fr(255, 128))
            if not c.symbolic:
                lo, hi = float(lo), float(hi)
            if sand(R.gt(xi, lo), R.gt(hi, xi)):
                c.check(R.close(gi, wi), "straight-through gradient inside the range")
            elif sor(R.gt(lo, xi), R.gt(xi, hi)):
                c.check(R.close(gi, 0), "no gradient outside the range")


# ------------------------------------------------------------------ linear

ACT = {"relu": R.relu, "none": lambda x: x, "lrelu/4": lambda x: R.where(R.gt(x, 0), x, mul(x, Fr(1, 4))), "crelu": lambda x: clamp(x, 0, 1)}


def linear_spec(x, W, b, act="relu", s_in=128, b_in=8, s_w=128, b_w=8, b_b=32, quant=True):
    """one row"""
    out = []
    for o in range(len(W)):
        if quant:
            acc = [mul(q(xi, s_in, b_in, True), q(wi, s_w, b_w)) for xi, wi in zip(x, W[o])]
            if b is not None:
                acc.append(q(b[o], s_in * s_w, b_b))
        else:
            acc = [mul(xi, wi) for xi, wi in zip(x, W[o])] + ([b[o]] if b is not None else [])
        out.append(ACT[act](add(*acc)))
    return out


@check.obligation("linear", bounds="2 rows, 2 inputs, 2 outputs; quantised (8/8 and 16/8 bits, scales 128/128 and 1024/64) and plain; activations relu, none, lrelu/4, crelu; with and without bias; arbitrary values",
                  functions=["model.layers.linear:LinearBlock.forward", "model.layers.activation:build_activation_layer"])
def o_linear(c):
    m = repo("model.layers.linear")
    quant, s_in, b_in, s_w, b_w = c.choose("q", [(True, 128, 8, 128, 8), (True, 1024, 16, 64, 8), (False, 1, 8, 1, 8)])
    bias = c.choose("bias", [True, False])
    act = c.choose("act", list(ACT))
    kw = dict(quant=True, input_quant_scale=s_in, input_quant_bits=b_in, weight_quant_scale=s_w, weight_quant_bits=b_w) if quant and s_in != 128 else dict(quant=quant)
    net = m.LinearBlock(2, 2, activation=act, bias=bias, **kw)
    with ctxm(c):
        symbolize(c, net, lo=-3, hi=3)
        x = st.real_tensor(c, "x", (2, 2), D, lo=-40, hi=40)
        y = net(x)
        W = grid(net.fc.weight)
        b = st.vals(net.fc.bias) if bias else None
        want = []
        for r in grid(x):
            want += linear_spec(list(r), W, b, act, s_in, b_in, s_w, b_w, quant=quant)
        same_all(c, y, want, "linear block")


@check.obligation("linear_integer_engine", bounds="2 inputs, 1 output; 8-bit input and weight integers and bias integers arbitrary; the layer output times 16384 is the int32 accumulator",
                  functions=["model.layers.linear:LinearBlock.forward"])
def o_lin_int(c):
    m = repo("model.layers.linear")
    net = m.LinearBlock(2, 1, activation="none", quant=True)
    with ctxm(c):
        xi = [c.int(f"x{i}", -128, 127) for i in range(2)]
        wi = c.choose("w", [[-128, 127], [-3, 5], [127, -128]])
        bi = c.int("b", -100000, 100000)
        fr = [c.real("r0", 0, Fr(127, 128)), 0]
        dw = c.choose("d", [Fr(-1, 4), Fr(1, 4)])
        g = lambda v, shape: st.make(c, v, shape, D)
        W = g([div(add(wi[0], dw), 128), div(wi[1], 128)], (1, 2))
        B = g([div(bi, 16384)], (1,))
        if c.symbolic:
            for k, v in (("weight", W), ("bias", B)):
                net.fc._parameters.pop(k)
                net.fc._parameters[k] = v
        else:
            net.fc.weight, net.fc.bias = torch.nn.Parameter(W), torch.nn.Parameter(B)
        y = net(g([div(add(a, f), 128) for a, f in zip(xi, fr)], (1, 2)))
        c.check(R.close(mul(st.vals(y)[0], 16384), add(mul(xi[0], wi[0]), mul(xi[1], wi[1]), bi)), "the output is the integer accumulator")


# ------------------------------------------------------------------ convolution

def conv_spec(x, W, b, stride, pad, dil, groups, prod=lambda v: v):
    """x[C][H][W] -> out[O][h][w]"""
    C, Hh, Ww = x.shape
    O, cpg, kh, kw = W.shape
    oh = (Hh + 2 * pad - dil * (kh - 1) - 1) // stride + 1
    ow = (Ww + 2 * pad - dil * (kw - 1) - 1) // stride + 1
    out = []
    for o in range(O):
        g = o // (O // groups)
        for y in range(oh):
            for z in range(ow):
                t = []
                for ci in range(cpg):
                    for i in range(kh):
                        for j in range(kw):
                            r, s = y * stride + i * dil - pad, z * stride + j * dil - pad
                            if 0 <= r < Hh and 0 <= s < Ww:
                                t.append(prod(mul(x[g * cpg + ci, r, s], W[o, ci, i, j])))
                if b is not None:
                    t.append(b[o])
                out.append(add(*t) if t else 0)
    return out


def qarr(a, *args):
    import numpy as np
    out = np.empty(a.shape, dtype=object)
    for i in np.ndindex(a.shape):
        out[i] = q(a[i], *args)
    return out


CONVS = [(2, 1, 1, 1, 1, 1), (1, 3, 1, 1, 1, 1), (2, 3, 1, 1, 1, 2), (2, 2, 2, 0, 1, 2), (1, 2, 1, 2, 2, 1)]   # channels, ks, stride, pad, dil, groups


@check.obligation("convolution", bounds="1-2 channels, kernels 1-3, strides 1-2, paddings 0-2, dilations 1-2, depth-wise and full, 2x3 boards; quantised (128/128 and 128x16bit/16384) or plain; arbitrary values",
                  functions=["model.layers.convolution:Conv2dBlock.forward"])
def o_conv(c):
    m = repo("model.layers.convolution")
    ch, ks, s, p, d, g = c.choose("shape", CONVS)
    quant, bits_in, s_w, b_w, s_b = c.choose("quant", [(True, 8, 128, 8, None), (True, 16, 16384, 16, 128 ** 3), (False, 8, 1, 8, None)])
    bias = c.choose("bias", [True, False])
    net = m.Conv2dBlock(ch, ch, ks, s, p, activation="relu", bias=bias, dilation=d, groups=g, quant=quant, input_quant_bits=bits_in, weight_quant_scale=s_w,
                        weight_quant_bits=b_w, bias_quant_scale=s_b)
    with ctxm(c):
        symbolize(c, net, lo=-3, hi=3)
        x = st.real_tensor(c, "x", (1, ch, 2, 3), D, lo=-3, hi=3)
        y = net(x)
        W, X = grid(net.conv.weight), grid(x)[0]
        b = st.vals(net.conv.bias) if bias else None
        if quant:
            X, W = qarr(X, 128, bits_in), qarr(W, s_w, b_w)
            b = [q(v, s_b or 128 * s_w, 32) for v in b] if bias else None
        same_all(c, y, [R.relu(v) for v in conv_spec(X, W, b, s, p, d, g)], "convolution block")


PIX = [(1, 3, 1, 1, 1), (2, 1, 1, 0, 1), (1, 2, 2, 0, 1), (1, 2, 1, 2, 2)]


def pixnet(c, mode, cfg, scales):
    m = repo("model.layers.convolution")
    ch, ks, s, p, d = cfg
    s_in, b_in, s_w, b_w, s_p, b_p = scales
    return m.Conv2dBlock(ch, ch, ks, s, p, activation="none", dilation=d, groups=ch, quant=mode, input_quant_scale=s_in, input_quant_bits=b_in,
                         weight_quant_scale=s_w, weight_quant_bits=b_w, bias_quant_scale=s_p, bias_quant_bits=b_p)


SCALES = [(128, 16, 32768, 16, 128, 16), (128, 8, 128, 8, 128, 8)]


@check.obligation("pixel_dwconv", bounds="depth-wise kernels 1-3, strides 1-2, paddings 0-2, dilations 1-2, 2x3 boards; rounding and floor products, 16-bit and 8-bit settings; training and inference; arbitrary values",
                  functions=["model.layers.convolution:Conv2dBlock.forward", "model.ops.quantized:*"])
def o_pixel(c):
    mode = c.choose("mode", ["pixel-dwconv", "pixel-dwconv-floor"])
    cfg = c.choose("cfg", PIX)
    sc = c.choose("scales", SCALES)
    train = c.choose("train", [True, False])
    net = pixnet(c, mode, cfg, sc)
    net.train(train)
    with ctxm(c):
        symbolize(c, net, lo=-3, hi=3, grad=train)
        x = st.real_tensor(c, "x", (1, cfg[0], 2, 3), D, lo=-3, hi=3)
        y = net(x)
        X, W = qarr(grid(x)[0], sc[0], sc[1]), qarr(grid(net.conv.weight), sc[2], sc[3])
        b = [q(v, sc[4], sc[5]) for v in st.vals(net.conv.bias)]
        want = conv_spec(X, W, b, cfg[2], cfg[3], cfg[4], cfg[0], prod=lambda v: q(v, sc[4], sc[5], mode.endswith("floor")))
        same_all(c, y, want, "per-product quantised depth-wise convolution")


@check.obligation("linear_gradient_decision", bounds="all listed scales and 4, 8, 16, 32 bit ranges; any representable input and weight integers",
                  functions=["model.ops.quantized:product_quantization_has_linear_gradient"])
def o_lindec(c):
    m = repo("model.ops.quantized")
    s_in, b_in = c.choose("in", [(128, 16), (128, 8), (8, 4), (1, 16)])
    s_w, b_w = c.choose("w", [(128, 8), (32768, 16), (65536, 16), (8, 4), (7, 4)])
    s_p, b_p = c.choose("p", [(128, 16), (128, 8), (128 ** 3, 32), (16384, 32), (8, 4), (8, 16)])
    r = m.product_quantization_has_linear_gradient(s_in, b_in, s_w, b_w, s_p, b_p)
    i, w = c.int("ii", -(2 ** (b_in - 1)), 2 ** (b_in - 1) - 1), c.int("wi", -(2 ** (b_w - 1)), 2 ** (b_w - 1) - 1)
    lo, hi = -(2 ** (b_p - 1)), 2 ** (b_p - 1) - 1
    inside = sand(i * w * s_p >= lo * s_in * s_w, i * w * s_p <= hi * s_in * s_w)
    if r:
        c.check(inside, "linear gradient only when no product of representable values leaves the product range")
    else:
        corners = [(a, b) for a in (-(2 ** (b_in - 1)), 2 ** (b_in - 1) - 1) for b in (-(2 ** (b_w - 1)), 2 ** (b_w - 1) - 1)]
        c.check(any(not (lo * s_in * s_w <= a * b * s_p <= hi * s_in * s_w) for a, b in corners), "saturating gradient only when some product can leave the range")


@check.obligation("pixel_dwconv_gradient", bounds="the custom backward against automatic differentiation of the generic path, 1-2 channels, kernels 1-3, strides 1-2, dilation 1-2, 2x2 boards, arbitrary values and incoming gradients",
                  functions=["model.ops.quantized:_LinearGradPixelwiseQuantizedDepthwiseConv2d.backward"])
def o_pixgrad(c):
    m = repo("model.ops.quantized")
    ch, ks, s, p, d = c.choose("cfg", [(2, 1, 1, 0, 1), (1, 3, 1, 1, 1), (1, 2, 2, 1, 1), (2, 2, 1, 1, 1), (1, 2, 1, 1, 2)])
    bias = c.choose("bias", [True, False])
    fl = c.choose("floor", [True, False])
    with ctxm(c):
        T = lambda n, sh, g=True: st.real_tensor(c, n, sh, D, lo=-2, hi=2, requires_grad=g)
        x, w, b = T("x", (2 if ch == 1 else 1, ch, 2, 2)), T("w", (ch, 1, ks, ks)), T("b", (ch,))
        y = m.pixelwise_quantized_depthwise_conv2d(x, w, b if bias else None, (s, s), (p, p), (d, d), ch, 128, 16, fl)
        g = T("g", tuple(y.shape), False)
        (y * g).sum().backward()
        X, W, G = grid(x), grid(w), grid(g)
        oh, ow = G.shape[2:]
        gx, gw = {}, {}
        for n in range(X.shape[0]):
            for o in range(ch):
                for yy in range(oh):
                    for z in range(ow):
                        for i in range(ks):
                            for j in range(ks):
                                r, t = yy * s + i * d - p, z * s + j * d - p
                                if 0 <= r < 2 and 0 <= t < 2:
                                    gx.setdefault((n, o, r, t), []).append(mul(G[n, o, yy, z], W[o, 0, i, j]))
                                    gw.setdefault((o, 0, i, j), []).append(mul(G[n, o, yy, z], X[n, o, r, t]))
        import numpy as np
        same_all(c, x.grad, [add(*gx.get(i, [0])) for i in np.ndindex(X.shape)], "input gradient")
        same_all(c, w.grad, [add(*gw.get(i, [0])) for i in np.ndindex(W.shape)], "weight gradient")
        if bias:
            same_all(c, b.grad, [add(*list(G[:, o].reshape(-1))) for o in range(ch)], "bias gradient")


# ------------------------------------------------------------------ star block, PReLU

def star_spec(x, P, dim_out):
    """P: name -> (W, b)"""
    u1 = [q(v, 128, 8, True) for v in linear_spec(x, *P["up1"], "relu")]
    u2 = [q(v, 128, 8, True) for v in linear_spec(x, *P["up2"], "none")]
    h = [q(add(mul(u1[2 * i], u2[2 * i]), mul(u1[2 * i + 1], u2[2 * i + 1])), 128, 8, True) for i in range(len(u1) // 2)]
    return linear_spec(h, *P["down"], "relu")


def lparams(block):
    return grid(block.fc.weight), st.vals(block.fc.bias)


@check.obligation("star_block", bounds="1 row, 1-2 inputs, 1 output, expand 1 and 2; arbitrary values", functions=["model.layers.star:StarBlock.forward"])
def o_star(c):
    m = repo("model.layers.star")
    di, ex = c.choose("dims", [(1, 1), (2, 1), (1, 2)])
    net = m.StarBlock(di, 1, expand=ex)
    with ctxm(c):
        symbolize(c, net, lo=-2, hi=2)
        x = st.real_tensor(c, "x", (1, di), D, lo=-3, hi=3)
        y = net(x)
        same_all(c, y, star_spec(st.vals(x), {k: lparams(getattr(net, k)) for k in ("up1", "up2", "down")}, 1), "star block")


@check.obligation("prelu", bounds="1x2x1x2 inputs; mapping-activation (16 bit, 1024 / 32768) and default settings, signed and unsigned slopes; arbitrary values",
                  functions=["model.layers.activation:QuantPReLU.forward"])
def o_prelu(c):
    m = repo("model.layers.activation")
    kw = c.choose("cfg", [{}, dict(input_quant_scale=1024, input_quant_bits=16, weight_quant_scale=32768, weight_quant_bits=16), dict(weight_signed=False)])
    net = m.QuantPReLU(2, **kw)
    with ctxm(c):
        symbolize(c, net, lo=-3, hi=3)
        x = st.real_tensor(c, "x", (1, 2, 1, 2), D, lo=-50, hi=50)
        y = net(x)
        w = [q(v, kw.get("weight_quant_scale", 128), kw.get("weight_quant_bits", 8), signed=kw.get("weight_signed", True)) for v in st.vals(net.weight)]
        want = []
        for i, v in enumerate(st.vals(x)):
            v = q(v, kw.get("input_quant_scale", 128), kw.get("input_quant_bits", 8))
            want.append(R.where(R.gt(v, 0), v, mul(w[i // 2], v)))
        same_all(c, y, want, "quantised PReLU")


# ------------------------------------------------------------------ regions and averages

def thirds(n):
    """three parts, symmetric, sizes within one of each other"""
    k = (n + 1) // 3
    return [(0, k), (k, n - k), (n - k, n)]


@check.obligation("regions", bounds="boards 3x3 .. 5x7 (thorough: to 8x8) with arbitrary contents, 1-2 channels: nine symmetric regions covering every cell once, sums, means and srai-5 quantised sums",
                  functions=["model.ops.aggregation:split_3x3_regions", "model.ops.aggregation:sum_3x3_regions", "model.ops.aggregation:mean_3x3_regions",
                             "model.ops.aggregation:quantized_sum_3x3_regions"])
def o_regions(c):
    m = repo("model.ops.aggregation")
    sizes = [(3, 3), (3, 4), (4, 5), (5, 3), (5, 7), (6, 4), (7, 5)] + ([(8, 8), (6, 7), (7, 8), (15, 3), (3, 20)] if THOROUGH else [])
    h, w = c.choose("size", sizes)
    ch = c.choose("ch", [1, 2]) if h * w <= 15 else 1
    with ctxm(c):
        x = st.real_tensor(c, "x", (1, ch, h, w), D, lo=-30, hi=30)
        X = grid(x)[0]
        got = {k: getattr(m, k)(x) for k in ("split_3x3_regions", "sum_3x3_regions", "mean_3x3_regions", "quantized_sum_3x3_regions")}
        for k, v in got.items():
            c.check(isinstance(v, tuple) and len(v) == 9, f"{k} returns nine regions")
        i = 0
        for a, b in thirds(h):
            for p, r in thirds(w):
                cells = [[X[k, y, z] for y in range(a, b) for z in range(p, r)] for k in range(ch)]
                same_all(c, got["split_3x3_regions"][i], [v for k in cells for v in k], f"region {i}")
                c.check(tuple(got["split_3x3_regions"][i].shape) == (1, ch, b - a, r - p), f"shape of region {i}")
                same_all(c, got["sum_3x3_regions"][i], [add(*k) for k in cells], f"sum of region {i}")
                same_all(c, got["mean_3x3_regions"][i], [R.mean(k) for k in cells], f"mean of region {i}")
                same_all(c, got["quantized_sum_3x3_regions"][i], [q(div(add(*k), 32), 128, 32, True) for k in cells], f"quantised sum of region {i}")
                i += 1


@check.obligation("region_sizes", bounds="every board size 3..40 x 3..40 (concrete shapes)", functions=["model.ops.aggregation:split_3x3_regions"])
def o_region_sizes(c):
    m = repo("model.ops.aggregation")
    for h in range(3, 41):
        for w in (3, h, 41 - h if h < 38 else 40):
            r = m.split_3x3_regions(torch.arange(h * w).reshape(1, 1, h, w))
            want = [tuple(torch.arange(h * w).reshape(h, w)[a:b, p:s].flatten().tolist()) for a, b in thirds(h) for p, s in thirds(w)]
            c.check([tuple(t.flatten().tolist()) for t in r] == want, f"regions of a {h}x{w} board")


def avg2(a, b):
    """rounded-up average of two int8 values"""
    return floor(div(add(a, b, 1), 2))


@check.obligation("average4", bounds="any four reals: the pairwise int8 averages of their int8 values", functions=["model.ops.aggregation:quantized_avg4"])
def o_avg4(c):
    m = repo("model.ops.aggregation")
    with ctxm(c):
        ts = [st.real_tensor(c, n, (1, 1), D, lo=-3, hi=3) for n in "abcd"]
        y = m.quantized_avg4(*ts)
        ints = [qi(st.vals(t)[0], 128, 8, True) for t in ts]
        spec = lambda i: avg2(avg2(i[0], i[1]), avg2(i[2], i[3]))
        k = mul(st.vals(y)[0], 128)
        # the same on arbitrary integers
        c.check(sand(R.ge(k, -128), R.ge(127, k)), "an int8 result")
        c.check(R.close(k, spec(ints)), "average of averages, each rounded up")


@check.obligation("dynamic_pointwise", bounds="2 samples, 2 inputs, 2 outputs, 1x2 boards, weights flat or shaped", functions=["model.ops.dynamic:dynamic_pointwise_conv2d"])
def o_dynamic(c):
    m = repo("model.ops.dynamic")
    shape = c.choose("shape", [(2, 4), (2, 2, 2), (2, 4, 1, 1)])
    with ctxm(c):
        x, w = st.real_tensor(c, "x", (2, 2, 1, 2), D, lo=-3, hi=3), st.real_tensor(c, "w", shape, D, lo=-3, hi=3)
        y = m.dynamic_pointwise_conv2d(x, w)
        c.check(tuple(y.shape) == (2, 2, 1, 2), "output shape")
        W = grid(w).reshape(2, 2, 2)
        X = grid(x)
        same_all(c, y, [add(*[mul(W[n, o, i], X[n, i, 0, z]) for i in range(2)]) for n in range(2) for o in range(2) for z in range(2)], "per-sample weights")


# ------------------------------------------------------------------ heads

class _Traced:
    pass


def head_net(c, dim_f, dim_p, dim_v, **opt):
    m = repo("model.mixnet_components")

    class Net(m.QuantizedHeadMixin, torch.nn.Module):
        def __init__(self):
            torch.nn.Module.__init__(self)
            self._init_quantized_policy_head(dim_f, dim_p, opt.get("no_dynamic_pwconv", False))
            self._init_quantized_grouped_value_head(dim_f, dim_v, no_value_group=opt.get("no_value_group", False), no_star_block=opt.get("no_star_block", False))
    return Net()


@check.obligation("policy_head", bounds="1-2 samples, 2 features, 1-2 policy channels, 1x2 boards; dynamic and static point-wise convolution; arbitrary weights and features",
                  functions=["model.mixnet_components:QuantizedHeadMixin._forward_quantized_policy"])
def o_policy(c):
    static = c.choose("static", [True, False])
    B, dp = c.choose("dims", [(1, 1), (2, 1), (1, 2)])
    net = head_net(c, 2, dp, 1, no_dynamic_pwconv=static, no_value_group=True)
    with ctxm(c):
        symbolize(c, net, lo=-2, hi=2)
        f = st.real_tensor(c, "f", (B, 2, 1, 2), D, lo=-3, hi=3)
        s = st.real_tensor(c, "s", (B, 2), D, lo=-3, hi=3)
        y = net._forward_quantized_policy(f, s, dp, no_dynamic_pwconv=static)
        c.check(tuple(y.shape) == (B, 1, 1, 2), "one policy plane per sample")
        Fg, Sg = grid(f), grid(s)
        wo, bo = grid(net.policy_output.weight)[0, :, 0, 0], st.vals(net.policy_output.bias)[0]
        want = []
        for n in range(B):
            if static:
                W, bb = grid(net.policy_pwconv.conv.weight), st.vals(net.policy_pwconv.conv.bias)
                W = [[q(W[o, i, 0, 0], 16384, 16) for i in range(dp)] for o in range(16)]
                bb = [q(v, 128 ** 3, 32) for v in bb]
            else:
                l = linear_spec(list(Sg[n]), *lparams(net.policy_pwconv_weight_linear[0]), "relu")
                l = linear_spec(l, *lparams(net.policy_pwconv_weight_linear[1]), "none")
                W = [[q(l[o * dp + i], 16384, 16, True) for i in range(dp)] for o in range(16)]
                bb = l[16 * dp:]
            for z in range(2):
                x = [q(Fg[n, i, 0, z], 128, 16) for i in range(dp)]
                h = [R.relu(add(*[mul(W[o][i], x[i]) for i in range(dp)], bb[o])) for o in range(16)]
                want.append(add(*[mul(wo[o], h[o]) for o in range(16)], bo))
        same_all(c, y, want, "policy head")


def avg4_spec(a, b, cc, d):
    """quantised pairwise averages (average4 shows this is the rounded-up int8 average)"""
    f = lambda v: q(v, 128, 8, True)
    two = lambda x, y: f(div(add(x, y, Fr(1, 128)), 2))
    return two(two(f(a), f(b)), two(f(cc), f(d)))


@check.obligation("value_head", bounds="1-2 samples, 1 feature and value channel; star blocks, plain blocks and no groups; weights, sums and regions arbitrary",
                  functions=["model.mixnet_components:QuantizedHeadMixin._forward_quantized_grouped_value", "model.mixnet_components:QuantizedHeadMixin._init_quantized_grouped_value_head"])
def o_value(c):
    star = c.choose("star", [False, True])
    B = c.choose("rows", [1, 2]) if not star else 1
    net = head_net(c, 1, 1, 1, no_star_block=not star, no_dynamic_pwconv=True)
    with ctxm(c):
        symbolize(c, net, lo=-2, hi=2)
        s = st.real_tensor(c, "s", (B, 1), D, lo=-2, hi=2)
        regs = tuple(st.real_tensor(c, f"r{i}", (B, 1), D, lo=-2, hi=2) for i in range(9))
        seen = {}
        net._trace = lambda n, t: seen.__setitem__(n, t)
        y = net._forward_quantized_grouped_value(s, regs)
        kind = ["corner", "edge", "corner", "edge", "center", "edge", "corner", "edge", "corner"]

        def block(b, x):
            if star:
                return star_spec(x, {k: lparams(getattr(b, k)) for k in ("up1", "up2", "down")}, 1)
            return linear_spec(x, *lparams(b), "relu")
        c.check(tuple(y.shape) == (B, 3), "three value outputs per sample")
        # stage by stage: each stage is judged on the values the code handed to it
        stage = lambda n, r: st.vals(seen[n])[r]
        names = [f"value.region.{i}{j}" for i in range(3) for j in range(3)]
        for r in range(B):
            for k, (nm, t) in enumerate(zip(names, regs)):
                c.check(R.close(stage(nm, r), block(getattr(net, "value_" + kind[k]), [st.vals(t)[r]])[0]), f"block of region {k}")
            v = [stage(nm, r) for nm in names]
            quads = []
            for n, cells in (("00", (0, 1, 3, 4)), ("01", (1, 2, 4, 5)), ("10", (3, 4, 6, 7)), ("11", (4, 5, 7, 8))):
                qin = stage(f"value.quad.{n}.input", r)
                c.check(R.close(qin, avg4_spec(*[v[i] for i in cells])), f"quadrant {n} averages its four regions")
                quads.append(stage(f"value.quad.{n}.output", r))
                c.check(R.close(quads[-1], block(net.value_quad, [qin])[0]), f"block of quadrant {n}")
            x = grid(seen["value.concat"])[r]
            c.check(len(x) == 5, "concatenated features")
            for i, w in enumerate([st.vals(s)[r]] + quads):
                c.check(R.close(x[i], w), "the global sum, then the quadrants in order")
            for i, (l, act) in enumerate(zip(net.value_linear, ("relu", "relu", "none"))):
                x = grid(seen[f"value.linear.{i}.input"])[r] if i else x
                o = linear_spec(list(x), *lparams(l), act)
                for a, b in zip(grid(seen[f"value.linear.{i}.output"])[r], o):
                    c.check(R.close(a, b), f"value layer {i}")
            for a, b in zip(grid(y)[r], grid(seen["value.linear.2.output"])[r]):
                c.check(R.close(a, b), "the last layer is the value")


if __name__ == "__main__":
    check.main()
