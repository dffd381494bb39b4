"""P40: network layers, masks and input planes (model/layers, model/input.py, model/head.py, model/resnet.py, model/mixnet_components.Mapping)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from symx.harness import *
from symx import symtorch as st, sreal as R
from symx.nnmod import symbolize
from symx.sreal import add, mul, sub, div, clamp, neg, sq
from fractions import Fraction
import numpy as np
import torch

check = Check("P40", "network layers and masks", assumptions=[
    "floating point is exact real arithmetic; tanh, sigmoid, exp are uninterpreted functions, sqrt its defining property",
    "shapes are the listed ones; inputs, parameters and running statistics arbitrary reals in the stated ranges; convolutions with masks have stride 1",
])
D = torch.float64
THOROUGH = os.environ.get("VERIF_TIER") == "thorough"


def ctxm(c):
    return st.mode() if c.symbolic else contextlib.nullcontext()


def grid(t):
    v = st.vals(t)
    a = np.empty(len(v), dtype=object)
    for i, x in enumerate(v):
        a[i] = x
    return a.reshape(tuple(t.shape))


def same_all(c, t, want, msg, shape=None):
    got = st.vals(t)
    want = list(np.asarray(want, dtype=object).reshape(-1)) if not isinstance(want, list) else want
    if shape is not None:
        c.check(tuple(t.shape) == tuple(shape), f"{msg} (shape {tuple(t.shape)})")
    c.check(len(got) == len(want), msg + " (size)")
    for i, (a, b) in enumerate(zip(got, want)):
        c.check(R.close(a, b), f"{msg} (element {i})")


def sym(c, name, shape, lo=-4, hi=4, grad=False):
    return st.real_tensor(c, name, shape, D, lo=lo, hi=hi, requires_grad=grad)


# ------------------------------------------------------------------ directional convolution

# the four board lines in the order of the layer's inputs: step (dy, dx) from tap 0 to tap 2
LINES = {False: [(0, 1), (1, 0), (1, 1), (-1, 1)], True: [(0, 1), (1, 0), (-1, 1), (1, 1)]}


@check.obligation("directional", bounds="1-2 channels in and out, boards 1x1, 2x3, 3x2 (thorough 3x4), both weight layouts, both direction orders, zero and one padding, any subset of directions; arbitrary values",
                  functions=["model.layers.directional:DirectionalConvLayer.forward", "model.layers.directional:DirectionalConvLayer._conv1d_direction", "model.layers.convolution:pointwise_matmul"])
def o_dir(c):
    m = repo("model.layers.directional")
    last, fix, nonzero = c.choose("last", [True, False]), c.choose("fix", [False, True]), c.choose("nonzero", [False, True])
    ci, co = c.choose("ch", [(1, 1), (1, 2), (2, 1)])
    h, w = c.choose("size", [(1, 1), (2, 3), (3, 2)] + ([(3, 4)] if THOROUGH else []))
    missing = c.choose("missing", [None, 1, 2]) if (ci, co) == (1, 1) else None
    net = m.DirectionalConvLayer(ci, co, use_nonzero_padding=nonzero, use_channel_last=last, fix_direction_order=fix)
    with ctxm(c):
        symbolize(c, net)
        xs = [None if i == missing else sym(c, f"x{i}", (1, ci, h, w)) for i in range(4)]
        ys = net(xs)
        W = grid(net.weight)
        tap = (lambda o, i, k: W[o, i, k]) if last else (lambda o, i, k: W[k, o, i])
        b = st.vals(net.bias)
        c.check(len(ys) == 4, "four directions")
        for k, (x, y) in enumerate(zip(xs, ys)):
            if x is None:
                c.check(y is None, "an absent direction stays absent")
                continue
            X = grid(x)[0]
            dy, dx = LINES[fix][k]
            want = []
            for o in range(co):
                for r in range(h):
                    for s in range(w):
                        t = [b[o]]
                        for i in range(ci):
                            for j in (-1, 0, 1):
                                p, q = r + j * dy, s + j * dx
                                inside = 0 <= p < h and 0 <= q < w
                                if inside or nonzero:
                                    t.append(mul(X[i, p, q] if inside else 1, tap(o, i, j + 1)))
                        want.append(add(*t))
            same_all(c, y, want, f"direction {k}", (1, co, h, w))


@check.obligation("mapping", bounds="line lengths 3, 5 and 7, 1 input and 1 middle channel, boards up to 3x3; arbitrary parameters: one feature per direction that depends exactly on the cells of its own line through the cell",
                  functions=["model.mixnet_components:Mapping.forward", "model.mixnet_components:DirectionalConvResBlock.forward", "model.mixnet_components:Conv0dResBlock.forward"])
def o_mapping(c):
    m = repo("model.mixnet_components")
    L = c.choose("len", [3, 5] + ([7] if THOROUGH else []))
    fix = c.choose("fix", [False, True])
    dirs = c.choose("dirs", [[0, 1, 2, 3], [2], [1, 3]])
    last = c.choose("last", [True, False]) if dirs == [2] else True
    net = m.Mapping(1, 1, 2, use_channel_last=last, fix_direction_order=fix, activation="relu", line_length=L)
    h, w = (2, 3) if L == 3 else (3, 2)
    with ctxm(c):
        symbolize(c, net)
        x = sym(c, "x", (1, 1, h, w))
        y = net(x, dirs=dirs)
        c.check(tuple(y.shape) == (1, len(dirs), 2, h, w), "one feature map per requested direction")
        X = grid(x)[0, 0]
        P = {k: grid(p) for k, p in net.named_parameters()} if not c.symbolic else {}
        P = {k: grid(getattr_path(net, k)) for k in param_names(net)}

        def conv(prefix, f, dy, dx):
            W, b = P[prefix + ".weight"].reshape(-1), P[prefix + ".bias"].reshape(-1)[0]
            out = {}
            for (r, s) in f:
                out[r, s] = add(b, *[mul(W[j + 1], f[r + j * dy, s + j * dx]) for j in (-1, 0, 1) if (r + j * dy, s + j * dx) in f])
            return out

        def pw(prefix, f):
            W, b = P[prefix + ".weight"].reshape(-1), P[prefix + ".bias"].reshape(-1)[0]
            return {k: add(mul(W[0], v), b) for k, v in f.items()}
        relu = lambda f: {k: R.relu(v) for k, v in f.items()}
        for n, d in enumerate(dirs):
            dy, dx = LINES[fix][d]
            f = {(r, s): X[r, s] for r in range(h) for s in range(w)}
            f = relu(conv("d_conv", f, dy, dx))
            for i in range(L // 2 - 1):
                g = relu(conv(f"convs.{i}.d_conv", f, dy, dx))
                g = relu(pw(f"convs.{i}.conv1x1", g))
                f = {k: add(g[k], f[k]) for k in f}
            i = L // 2 - 1
            g = relu(pw(f"convs.{i}.conv2", relu(pw(f"convs.{i}.conv1", f))))
            f = {k: add(g[k], f[k]) for k in f}
            W, b = P["final_conv.weight"].reshape(2), P["final_conv.bias"].reshape(2)
            want = [add(mul(W[o], f[r, s]), b[o]) for o in range(2) for r in range(h) for s in range(w)]
            same_all(c, y[:, n], want, f"direction {d}")


def getattr_path(net, path):
    for p in path.split("."):
        net = net._modules[p] if p in getattr(net, "_modules", {}) else getattr(net, p)
    return net


def param_names(net):
    return [f"{n}.{k}" if n else k for n, m in net.named_modules() for k, v in m._parameters.items() if v is not None]


# ------------------------------------------------------------------ activations

@check.obligation("activations", bounds="all named activations on any real input in [-8, 8]; channel-wise leaky ReLU with and without bias and slope bound; unknown names are errors",
                  functions=["model.layers.activation:build_activation_layer", "model.layers.activation:ClippedReLU.forward", "model.layers.activation:ChannelWiseLeakyReLU.forward"])
def o_act(c):
    m = repo("model.layers.activation")
    name = c.choose("name", ["relu", "lrelu", "lrelu/4", "crelu", "tanh", "sigmoid", "silu", "none", "bogus", "cw", "cw-nobias", "cw-bound"])
    inplace = c.choose("inplace", [False, True]) if name in ("relu", "lrelu", "crelu") else False
    with ctxm(c):
        if name == "bogus":
            return expect_error(c, lambda: m.build_activation_layer("reluu"), (ValueError,), "unknown activations are refused")
        if name.startswith("cw"):
            net = m.ChannelWiseLeakyReLU(2, bias=name != "cw-nobias", bound=6 if name == "cw-bound" else 0)
            symbolize(c, net)
            x = sym(c, "x", (1, 2, 1, 2), -8, 8)
            X = st.vals(x)
            y = net(x)
            S = st.vals(net.neg_slope)
            if name == "cw-bound":
                S = [mul(R.tanh(div(s, 6)), 6) for s in S]
            B = st.vals(net.bias) if net.bias is not None else [0, 0]
            want = [add(R.where(R.gt(v, 0), v, mul(S[i // 2], v)), B[i // 2]) for i, v in enumerate(X)]
            for i, (a, b) in enumerate(zip(st.vals(y), want)):
                c.check(R.close(a, b), f"channel-wise leaky ReLU ({i})")
            same_all(c, x, X, "the input is left alone")
            return
        a = m.build_activation_layer(name, inplace)
        if name == "none":
            return c.check(a is None, "no activation")
        x = sym(c, "x", (2,), -8, 8)
        X = st.vals(x)
        y = a(x)
        F = {"relu": R.relu, "lrelu": lambda v: R.where(R.gt(v, 0), v, mul(v, Fraction(0.1))), "lrelu/4": lambda v: R.where(R.gt(v, 0), v, mul(v, Fraction(1, 4))),
             "crelu": lambda v: clamp(v, 0, 1), "tanh": R.tanh, "sigmoid": R.sigmoid, "silu": lambda v: mul(v, R.sigmoid(v))}[name]
        same_all(c, y, [F(v) for v in X], name)
        if not inplace:
            same_all(c, x, X, "the input is left alone")


# ------------------------------------------------------------------ normalisation

MASKS = [None, [[1, 1], [1, 1]], [[1, 0], [1, 1]], [[1, 0], [0, 1]]]


def norm_stats(X, M):
    """per channel: (mean, var, count) over the real cells"""
    B, C = X.shape[:2]
    out = []
    for ch in range(C):
        cells = [X[b, ch].reshape(-1)[i] for b in range(B) for i in range(X[b, ch].size) if M is None or M[b][i]]
        n = len(cells)
        mean = div(add(*cells), n)
        var = R.maxi(sub(div(add(*[sq(v) for v in cells]), n), sq(mean)), 0)
        out.append((mean, var, n))
    return out


def mask_tensor(M):
    return None if M is None else torch.tensor(M, dtype=D).reshape(len(M), 1, 1, -1)


@check.obligation("masked_batch_norm", bounds="2 samples of 1x2 cells, 1-2 channels, four masks; affine or not; two consecutive training steps then evaluation; arbitrary values, running statistics and epsilon 1e-4",
                  functions=["model.layers.normalization:MaskNorm.forward", "model.layers.normalization:masked_batch_norm", "model.layers.normalization:build_norm2d_layer"])
def o_masknorm(c):
    m = repo("model.layers.normalization")
    name = c.choose("norm", ["maskbn", "maskbn-noaffine", "mask", "mask-affine"])
    M = c.choose("mask", MASKS)
    ch = c.choose("ch", [1, 2]) if name == "maskbn" else 1
    steps = 2 if ch == 1 and M in (None, MASKS[2]) else 1
    net = m.build_norm2d_layer(name, ch).double()
    eps, mom = Fraction(1e-4), Fraction(1e-3)
    with ctxm(c):
        symbolize(c, net, ranges={"running_var": (0, 4)}, buffers=True)
        w = st.vals(net.weight) if net.weight is not None else [1] * ch
        b = st.vals(net.bias) if net.bias is not None else [0] * ch
        rm, rv = (st.vals(net.running_mean), st.vals(net.running_var)) if name.startswith("maskbn") else (None, None)
        mt = mask_tensor(M)
        if mt is not None and c.symbolic:
            mt = st.lift(mt)

        def expect(X, mean, var):
            want = []
            for bi in range(2):
                for k in range(ch):
                    for i in range(2):
                        v = X[bi, k, 0, i]
                        if mean is not None:
                            v = div(sub(v, mean[k]), R.sqrt(add(var[k], eps)))
                        v = add(mul(v, w[k]), b[k])
                        want.append(v if M is None or M[bi][i] else 0)
            return want
        net.train()
        for s in range(steps):
            x = sym(c, f"x{s}", (2, ch, 1, 2))
            X = grid(x)
            y = net(x, mt)
            if name.startswith("maskbn"):
                S = norm_stats(X, M)
                mean, var = [q[0] for q in S], [q[1] for q in S]
                same_all(c, y, expect(X, mean, var), f"training step {s}", (2, ch, 1, 2))
                rm = [add(a, mul(mom, sub(q, a))) for a, q in zip(rm, mean)]
                rv = [add(a, mul(mom, sub(q, a))) for a, q in zip(rv, var)]
                same_all(c, net.running_mean, rm, "running mean")
                same_all(c, net.running_var, rv, "running variance")
            else:
                same_all(c, y, expect(X, None, None), f"training step {s}", (2, ch, 1, 2))
        net.eval()
        x = sym(c, "xe", (2, ch, 1, 2))
        y = net(x, mt)
        same_all(c, y, expect(grid(x), rm, rv), "evaluation", (2, ch, 1, 2))
        if rm is not None:
            same_all(c, net.running_mean, rm, "evaluation leaves the running mean")
            same_all(c, net.running_var, rv, "evaluation leaves the running variance")


@check.obligation("masked_batch_norm_gradient", bounds="2 samples of 1x2 cells, 1 channel, four masks, affine or not, with and without the extra scale; arbitrary values and incoming gradients: the exact derivative of the normalisation",
                  functions=["model.layers.normalization:_MaskedBatchNormFunction.backward"])
def o_normgrad(c):
    m = repo("model.layers.normalization")
    M = c.choose("mask", MASKS)
    affine = c.choose("affine", [True, False])
    scaled = c.choose("scaled", [False, True])
    with ctxm(c):
        x = sym(c, "x", (2, 1, 1, 2), grad=True)
        w, b = (sym(c, "w", (1,), grad=True), sym(c, "b", (1,), grad=True)) if affine else (None, None)
        sc = sym(c, "s", ()) if scaled else None
        mt = mask_tensor(M)
        if mt is not None and c.symbolic:
            mt = st.lift(mt)
        y, mean, var = m.masked_batch_norm(x, mt, w, b, sc, 1e-4)
        g = sym(c, "g", (2, 1, 1, 2))
        (y * g).sum().backward()
        X, G = list(grid(x).reshape(-1)), list(grid(g).reshape(-1))
        on = [1] * 4 if M is None else [v for r in M for v in r]
        mu, v, n = norm_stats(grid(x), M)[0]
        s = R.sqrt(add(v, Fraction(1e-4)))
        gain = mul(st.vals(w)[0] if affine else 1, st.vals(sc)[0] if scaled else 1)
        xh = [div(sub(a, mu), s) for a in X]
        gs = add(*[G[i] for i in range(4) if on[i]])
        gd = add(*[mul(G[i], xh[i]) for i in range(4) if on[i]])
        want = [div(mul(gain, sub(sub(G[i], div(gs, n)), mul(xh[i], div(gd, n)))), s) if on[i] else 0 for i in range(4)]
        same_all(c, x.grad, want, "input gradient")
        if affine:
            same_all(c, w.grad, [mul(gd, st.vals(sc)[0] if scaled else 1)], "weight gradient")
            same_all(c, b.grad, [gs], "bias gradient")
        outs = [add(mul(xh[i], gain), st.vals(b)[0] if affine else 0) if on[i] else 0 for i in range(4)]
        same_all(c, y, outs, "output")
        c.check(not mean.requires_grad and not var.requires_grad, "statistics carry no gradient")


@check.obligation("layer_norm", bounds="2 samples, 2 channels, 1x2 cells in both layouts; affine or not; arbitrary values", functions=["model.layers.normalization:LocalLayerNorm.forward"])
def o_ln(c):
    m = repo("model.layers.normalization")
    fmt = c.choose("fmt", ["channels_first", "channels_last"])
    affine = c.choose("affine", [True, False])
    net = m.LocalLayerNorm(2, channelwise_affine=affine, data_format=fmt)
    with ctxm(c):
        symbolize(c, net)
        x = sym(c, "x", (2, 2, 1, 2) if fmt == "channels_first" else (2, 1, 2, 2))
        y = net(x)
        X = grid(x) if fmt == "channels_first" else np.moveaxis(grid(x), -1, 1)
        Y = grid(y) if fmt == "channels_first" else np.moveaxis(grid(y), -1, 1)
        w, b = (st.vals(net.weight), st.vals(net.bias)) if affine else ([1, 1], [0, 0])
        for bi in range(2):
            for i in range(2):
                v = [X[bi, k, 0, i] for k in range(2)]
                mu = R.mean(v)
                s = R.sqrt(add(R.mean([sq(sub(a, mu)) for a in v]), Fraction(1e-5)))
                for k in range(2):
                    c.check(R.close(Y[bi, k, 0, i], add(mul(div(sub(v[k], mu), s), w[k]), b[k])), "normalised over the channels of one cell")


@check.obligation("norm_factory", bounds="every documented name and three unknown ones", functions=["model.layers.normalization:build_norm2d_layer"])
def o_normfac(c):
    m = repo("model.layers.normalization")
    B = m.build_norm2d_layer
    t = lambda n: (n.norm_type, n.affine, n.num_features)
    c.check(B("none", 4) is None, "none")
    c.check([t(B(n, 4)) for n in ("mask", "mask-affine", "maskbn", "maskbn-noaffine")] == [("fixup", False, 4), ("fixup", True, 4), ("bnorm", True, 4), ("bnorm", False, 4)], "mask norms")
    c.check(B("gn-2", 4).num_groups == 2 and B("gn", 4, 4).num_groups == 4 and B("gn-2", 4).num_channels == 4, "group norm")
    c.check(type(B("bn", 4)) is m.BatchNorm and type(B("ln", 4)) is m.LocalLayerNorm, "batch and layer norm")
    for bad in ("bnn", "", "mask-bn"):
        expect_error(c, lambda: B(bad, 4), (ValueError,), "unknown names are refused")


# ------------------------------------------------------------------ masks

@check.obligation("mask_erosion", bounds="square kernels 1-5, paddings 0..(k-1)/2, boards 5x5 and 6x5 holding any board of at least the kernel size in their top-left corner",
                  functions=["model.layers.convolution:Conv2dBlock._erode_mask", "model.layers.convolution:Conv2dBlock.forward"])
def o_erode(c):
    m = repo("model.layers.convolution")
    k = c.choose("k", [1, 2, 3, 5])
    p = c.choose("p", list(range(0, (k - 1) // 2 + 1)))
    H, W = c.choose("size", [(5, 5), (6, 5)])
    act = c.choose("first", [True, False])
    net = m.Conv2dBlock(1, 1, k, 1, p, activation="none", norm="mask", activation_first=act).double()
    bh = int(c.int("bh", k, H))
    bw = int(c.int("bw", k, W))
    mask = torch.zeros(1, 1, H, W, dtype=D)
    mask[:, :, :bh, :bw] = 1
    x = torch.ones(1, 1, H, W, dtype=D)
    with torch.no_grad():
        net.conv.weight.fill_(1)
        y, mo = net(x * mask, mask)
    oh, ow = H + 2 * p - k + 1, W + 2 * p - k + 1
    c.check(tuple(y.shape) == (1, 1, oh, ow) and tuple(mo.shape) == (1, 1, oh, ow), "mask and output keep the same shape")
    # with padding p the board shrinks by k-1-2p; a board too small to keep a cell leaves an empty mask
    want = torch.zeros(1, 1, oh, ow, dtype=D)
    want[:, :, :max(bh - (k - 1 - 2 * p), 0), :max(bw - (k - 1 - 2 * p), 0)] = 1
    c.check(torch.equal(mo, want), "the output mask marks the cells the board keeps")


def resnet3(c, **kw):
    m = repo("model.resnet")
    return m.ResNetv3(kw.pop("blocks", 1), 1, head_type="v0-nodraw", input_type=kw.pop("inp", "mask-nostm"), input_kernel_size=3, input_padding=1, **kw).double()


def masked_data(c, boards, H, W, pad):
    """board tensor with arbitrary contents on real cells and `pad` outside"""
    rows, sizes = [], []
    for r, (h, w) in enumerate(boards):
        for p in range(2):
            for y in range(H):
                for x in range(W):
                    rows.append(c.real(f"b{r}_{p}_{y}_{x}", -2, 2) if y < h and x < w else pad)
        sizes += [h, w]
    return {"board_input": st.make(c, rows, (len(boards), 2, H, W), torch.float32), "stm_input": torch.full((len(boards),), -1.0),
            "board_size": torch.tensor(sizes, dtype=torch.int32).reshape(-1, 2)}


@check.obligation("padding_invariance", bounds="mask-aware network with one or two blocks of one channel (evaluation), boards of 1x1, 1x2 and 2x1 cells padded to 2x2 (thorough 2x3): the outputs on real cells equal those of the unpadded board for any parameters",
                  functions=["model.resnet:ResNetv3.forward", "model.resnet:ResBlock.forward", "model.input:MaskedInputPlane.forward", "model.head:OutputHeadV0.forward"])
def o_padinv(c):
    h, w = c.choose("board", [(1, 1), (1, 2), (2, 1)] + ([(2, 2)] if THOROUGH else []))
    stm = c.choose("inp", ["mask-nostm", "mask"])
    net = resnet3(c, inp=stm, blocks=2 if (h, w) == (1, 1) or THOROUGH else 1)
    net.eval()
    H, W = (2, 3) if THOROUGH else (2, 2)
    with ctxm(c):
        symbolize(c, net, ranges={"running_var": (0, 4)}, buffers=True)
        big = masked_data(c, [(h, w)], H, W, 0.0)
        B = grid(big["board_input"])
        small = {"board_input": st.make(c, list(B[:, :, :h, :w].reshape(-1)), (1, 2, h, w), torch.float32), "stm_input": big["stm_input"], "board_size": torch.tensor([[h, w]])}
        dt = torch.float64

        def run(d):
            d = dict(d)
            d["board_input"] = d["board_input"]
            with patched_float(dt):
                return net(d)
        yb, ys = run(big), run(small)
        same_all(c, yb["value"], st.vals(ys["value"]), "value head")
        PB, PS = grid(yb["policy"]), grid(ys["policy"])
        for y in range(h):
            for x in range(w):
                c.check(R.close(PB[0, y, x], PS[0, y, x]), "policy of a real cell")
        Mk = grid(yb["board_mask"])
        want = [1 if y < h and x < w else 0 for y in range(H) for x in range(W)]
        c.check([float(v) for v in Mk.reshape(-1)] == [float(v) for v in want], "the reported board mask marks the real cells")


@contextlib.contextmanager
def patched_float(dt):
    """evaluate the network in double precision: `.float()` of the inputs keeps the exact values"""
    old = torch.Tensor.float
    torch.Tensor.float = lambda self, *a, **k: self.to(dt)
    try:
        yield
    finally:
        torch.Tensor.float = old


@check.obligation("masked_training_statistics", bounds="mask-aware network in training mode on a batch of two differently sized boards padded to 2x2: arbitrary parameters; statistics equal those of the real cells alone and padding contributes nothing to any real output",
                  functions=["model.resnet:ResNetv3.forward", "model.layers.normalization:masked_batch_norm"])
def o_trainstats(c):
    net = resnet3(c)
    net.train()
    with ctxm(c):
        symbolize(c, net, lo=-1, hi=1, ranges={"running_var": (0, 4)}, buffers=True)
        d = masked_data(c, [(1, 2), (2, 1)], 2, 2, 0.0)
        feats = []
        blk = net.conv_trunk[0]
        for cb in blk.conv:
            n, old = cb.norm, cb.norm.forward
            def f(x, mask=None, old=old):
                y = old(x, mask=mask)
                feats.append((x, mask, y))
                return y
            n.forward = f
        with patched_float(torch.float64):
            y = net(d)
        c.check(len(feats) == 2, "both block convolutions are normalised")
        for x, mask, out in feats:
            X, Mk, Y = grid(x), grid(mask), grid(out)
            M = [[float(v) != 0 for v in Mk[b].reshape(-1)] for b in range(2)]
            c.check(M == [[True, True, False, False], [True, False, True, False]], "masks follow the board sizes")
            for b in range(2):
                for i in range(4):
                    if not M[b][i]:
                        c.check(R.close(Y[b, 0].reshape(-1)[i], 0), "padding cells stay zero after every normalisation")


# ------------------------------------------------------------------ heads and inputs

@check.obligation("output_head", bounds="2 samples, 2 features, 1x2 cells; with and without draws and masks; arbitrary values", functions=["model.head:OutputHeadV0.forward", "model.head:build_head"])
def o_head(c):
    m = repo("model.head")
    nodraw = c.choose("nodraw", [False, True])
    M = c.choose("mask", MASKS)
    net = m.build_head("v0-nodraw" if nodraw else "v0", 2)
    with ctxm(c):
        symbolize(c, net)
        x = sym(c, "x", (2, 2, 1, 2))
        mt = mask_tensor(M)
        if mt is not None and c.symbolic:
            mt = st.lift(mt)
        out = net(x, mt) if M is not None else net(x)
        X = grid(x)
        Wv, Wp = grid(net.value_head.fc.weight), grid(net.policy_head.conv.weight).reshape(-1)
        want, pol = [], []
        for b in range(2):
            on = [i for i in range(2) if M is None or M[b][i]]
            mean = [R.mean([X[b, k, 0, i] for i in on]) for k in range(2)]
            for o in range(1 if nodraw else 3):
                want.append(add(*[mul(Wv[o, k], mean[k]) for k in range(2)]))
            pol += [add(*[mul(Wp[k], X[b, k, 0, i]) for k in range(2)]) for i in range(2)]
        same_all(c, out["value"], want, "value averages the real cells", (2, 1 if nodraw else 3))
        same_all(c, out["policy"], pol, "policy", (2, 1, 2))
        c.check(set(out) == ({"value", "policy"} | ({"board_mask"} if M is not None else set())), "documented outputs")
        if M is not None:
            c.check([float(v) for v in st.vals(out["board_mask"])] == [float(v) for r in M for v in r], "the board mask is passed on")
    expect_error(c, lambda: m.build_head("v9", 2), (ValueError,), "unknown heads are refused")


@check.obligation("input_planes", bounds="2 samples on 1x2 and 2x2 boards with arbitrary planes, side values and sizes; both views; basic, mask, pattern-code, combined- and line-pattern planes with arbitrary codes",
                  functions=["model.input:*", "model.validation:validate_batch_shared_value"])
def o_input(c):
    m = repo("model.input")
    kind = c.choose("kind", ["basic", "basic-nostm", "basicns", "mask", "maskns", "pcode2", "pcode1-nostm", "combpat2", "linepat1-nostm", "linepat2"])
    inv = c.choose("inv", [False, True])
    B, H, W = 2, 1, 2
    net = m.build_input_plane(kind)
    # occupied cells: which stones
    with ctxm(c):
        board = c.choose("stones", [[0, 1, 1, 0, 0, 0, 0, 1], [0, 0, 0, 1, 1, 0, 1, 0]])
        bt = torch.tensor(board, dtype=torch.int8).reshape(B, 2, H, W)
        stm = st.real_tensor(c, "stm", (B,), torch.float32, lo=-1, hi=1)
        data = {"board_input": bt, "stm_input": stm}
        S = st.vals(stm)
        Bd = np.array(board).reshape(B, 2, H, W)
        base = []
        for b in range(B):
            planes = [list(Bd[b, 1 - k if inv else k].reshape(-1)) for k in range(2)]
            if not (kind.endswith("-nostm") or kind.endswith("ns")):
                planes.append([neg(S[b]) if inv else S[b]] * (H * W))
            base.append(planes)
        if kind in ("mask", "maskns"):
            sizes = c.choose("sizes", [[1, 2, 1, 1], [1, 1, 1, 2]])
            data["board_size"] = torch.tensor(sizes, dtype=torch.int32).reshape(2, 2)
            x, mask = net(data, inv)
            want = [1.0 if y < sizes[2 * b] and z < sizes[2 * b + 1] else 0.0 for b in range(B) for y in range(H) for z in range(W)]
            c.check([float(v) for v in st.vals(mask)] == want and tuple(mask.shape) == (B, 1, H, W), "mask marks the cells of each board")
            for b in range(B):
                on = [int(v) for v in want[b * H * W:(b + 1) * H * W]]
                base[b] = [[v if o else 0 for v, o in zip(pl, on)] for pl in base[b]]
            feats = [[] for _ in range(B)]
        elif kind.startswith("basic"):
            x = net(data, inv)
            feats = [[] for _ in range(B)]
        else:
            dimkey, lo, hi, n = {"pcode": ("pcode_dim", 10, 12, 2380), "combpat": ("p4_dim", 8, 10, 14), "linepat": ("p_dim", 0, 8, 14)}[kind.rstrip("-nostm").rstrip("12")]
            dim = int(kind.replace("-nostm", "")[-1])
            symbolize(c, net) if n < 100 else None
            emb = [mm for mm in net.modules() if isinstance(mm, torch.nn.Embedding)][0]
            if n > 100:
                net.double()
            codes = torch.zeros(B, 12, H, W, dtype=torch.int32)
            seedv = 1
            for i in np.ndindex(B, 12, H, W):
                seedv = (seedv * 75 + 74) % 65537
                codes[i] = seedv % n
            data["sparse_feature_input"] = codes
            dims = torch.tensor([[14] * 8 + [14, 14, 2380, 2380]] * B)
            data["sparse_feature_dim"] = dims
            x = net(data, inv)
            E = grid(emb.weight)
            feats = []
            for b in range(B):
                f = []
                occupied = [Bd[b, 0, y, z] + Bd[b, 1, y, z] > 0 for y in range(H) for z in range(W)]
                if hi - lo == 2:
                    for d in range(dim):
                        f.append([0 if occupied[i] else add(E[int(codes[b, lo, i // W, i % W]), d], E[int(codes[b, lo + 1, i // W, i % W]), d]) for i in range(H * W)])
                else:
                    for k in range(4):
                        for d in range(dim):
                            f.append([0 if occupied[i] else add(E[int(codes[b, k, i // W, i % W]), d], E[int(codes[b, 4 + k, i // W, i % W]), d]) for i in range(H * W)])
                feats.append(f)
            bad = dict(data, sparse_feature_dim=dims.clone())
            bad["sparse_feature_dim"][1, lo + 1] += 1
            expect_error(c, lambda: net(bad, inv), (ValueError,), "a batch of another pattern table is refused")
            with torch.no_grad():
                pass
        want = [v for b in range(B) for pl in base[b] + feats[b] for v in pl]
        same_all(c, x, want, f"{kind} planes", (B, net.dim_plane, H, W))
    expect_error(c, lambda: m.build_input_plane("bogus"), (ValueError,), "unknown inputs are refused")


@check.obligation("hash_layer", bounds="2 rows; perfect tables of 2 and 3 levels with 2-3 inputs, hashed tables of 4 slots, 1-2 sub-features; every input level combination, arbitrary table values and hash words; out-of-range inputs",
                  functions=["model.layers.hashing:HashLayer.forward", "model.layers.hashing:HashLayer.__init__"])
def o_hash(c):
    m = repo("model.layers.hashing")
    n, lev, log, dim, sub_f, quant = c.choose("cfg", [(2, 2, 4, 2, 1, True), (2, 3, 4, 1, 1, False), (2, 3, 2, 1, 1, False), (2, 2, 2, 2, 2, False), (3, 2, 2, 1, 1, True), (2, 3, 4, 2, 2, False)])
    net = m.HashLayer(n, lev, hash_logsize=log, dim_feature=dim, quant_int8=quant, sub_features=sub_f)
    perfect = 2 ** log >= lev ** n
    c.check(net.perfect_hash == perfect, "the perfect table is used exactly when it fits")
    rows = [[int(c.int(f"l{r}_{i}", 0, lev - 1)) for i in range(n)] for r in range(1)]
    use_long = c.choose("long", [True, False])
    with ctxm(c):
        symbolize(c, net)
        if not perfect:
            hs = c.choose("hashes", [[3, -5, 7, 1 << 30, -(1 << 31), 11], [-1, -2, -3, -4, -5, -6], [2147483647, 2147483647, 2147483647, 2147483647, 1, 1]])
            with torch.no_grad():
                net.hashs.copy_(torch.tensor((hs * 3)[:n * lev], dtype=torch.int32).reshape(n, lev))
        xl = torch.tensor(rows)
        y = net(None, xl) if use_long else net(xl.to(D) / (lev - 1))
        E = grid(net.features.weight)
        want = []
        N = lev ** n if perfect else 2 ** log
        for r in rows:
            idx = sum(v * lev ** i for i, v in enumerate(r)) if perfect else sum(int(net.hashs[i, v]) for i, v in enumerate(r)) % 2 ** log
            f, off, k = [], 0, idx
            for s in range(sub_f):
                f += list(E[off + k])
                off += -(-N // 2 ** s)
                k //= 2
            if sub_f > 1:
                W, b = grid(net.feature_mapping.weight), st.vals(net.feature_mapping.bias)
                f = [add(b[o], *[mul(W[o, i], f[i]) for i in range(len(f))]) for o in range(dim)]
            if quant:
                f = [mul(R.rnd(mul(clamp(clamp(v, -1, Fraction(127, 128)), -1, Fraction(127, 128)), 128)), Fraction(1, 128)) for v in f]
            want += f
        same_all(c, y, want, "table lookup", (1, dim))
        bad = xl.clone()
        bad[0, c.choose("bad", list(range(n)))] = c.choose("badv", [-1, lev])
        expect_error(c, lambda: net(None, bad) if use_long else net(bad.to(D) / (lev - 1)), (IndexError, RuntimeError), "levels outside the table are an error, never another entry")


@check.obligation("embedding", bounds="2x2 indices into a 3x2 table with repeats, both code paths; arbitrary table and incoming gradients", functions=["model.ops.embedding:*"])
def o_embed(c):
    m = repo("model.ops.embedding")
    idx = torch.tensor([[0, 2], [2, 2]]) if c.choose("idx", [0, 1]) else torch.tensor([[1, 0], [1, 2]])
    path = c.choose("path", ["eager", "function"])
    w = torch.tensor([[1., 2], [3, 4], [5, 6]], dtype=D, requires_grad=True)
    if path == "eager" or c.symbolic:
        with ctxm(c):
            t = sym(c, "t", (3, 2))
            y = m.small_table_embedding(idx, t)
            T = grid(t)
            same_all(c, y, [v for i in idx.flatten().tolist() for v in T[i]], "table rows", (2, 2, 2))
    y = m._SmallTableEmbeddingFunction.apply(idx, w) if path == "function" else m.small_table_embedding(idx, w)
    g = torch.tensor(np.arange(8).reshape(2, 2, 2) + 1.0)
    (y * g).sum().backward()
    want = torch.zeros(3, 2, dtype=D)
    for i, row in zip(idx.flatten().tolist(), g.reshape(-1, 2)):
        want[i] += row
    c.check(torch.equal(w.grad, want), "each row gathers the gradients of its uses")


@check.obligation("pointwise", bounds="2 samples, 2 in, 2 out, 1x2 boards, with and without bias", functions=["model.layers.convolution:pointwise_matmul", "model.layers.convolution:PointwiseConv2d.forward"])
def o_pw(c):
    m = repo("model.layers.convolution")
    net = m.PointwiseConv2d(2, 2, bias=c.choose("bias", [True, False]))
    with ctxm(c):
        symbolize(c, net)
        x = sym(c, "x", (2, 2, 2, 1))
        y = net(x)
        W, X = grid(net.weight)[:, :, 0, 0], grid(x)
        b = st.vals(net.bias) if net.bias is not None else [0, 0]
        same_all(c, y, [add(b[o], *[mul(W[o, i], X[n, i, z, 0]) for i in range(2)]) for n in range(2) for o in range(2) for z in range(2)], "1x1 convolution", (2, 2, 2, 1))


if __name__ == "__main__":
    check.main()
