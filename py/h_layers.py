"""Layers with ideal tiles compute what their digital counterparts compute, however they are split over tiles."""
import torch
import torch.nn.functional as F
from torch import nn
from aihwkit.nn import (AnalogLinear, AnalogLinearMapped, AnalogConv1d, AnalogConv2d, AnalogConv3d, AnalogConv1dMapped,
                        AnalogConv2dMapped, AnalogConv3dMapped, AnalogSequential, AnalogRNN, AnalogVanillaRNNCell,
                        AnalogLSTMCell, AnalogGRUCell, AnalogLSTMCellCombinedWeight)
from aihwkit.nn.conversion import convert_to_analog, convert_to_digital, _DEFAULT_MAPPED_CONVERSION_MAP as MAPPED
from aihwkit.optim import AnalogSGD
from aihwkit.simulator.configs import SingleRPUConfig, FloatingPointRPUConfig, InferenceRPUConfig
from aihwkit.simulator.tiles.array import TileModuleArray
import fake
from lib import perfect, custom


def rpu(kind, **m):
    """perfect configurations of the torch tile, or of the compiled tile with the stand-in"""
    if kind == "torch":
        return perfect(**m)
    if kind == "custom":
        return custom(**m)
    fake.use()
    return perfect({"single": SingleRPUConfig, "inference": InferenceRPUConfig, "fp": FloatingPointRPUConfig}[kind], **m) \
        if kind != "fp" else FloatingPointRPUConfig()


def dense(h, l, w, b, x, ref, ident, gs=None):
    """output and input gradient equal the digital function ref(x) (built from x, w, b)"""
    y = l(x)
    h.observe(y)
    xr = x.detach().clone().requires_grad_()
    r = ref(xr)
    h.true(tuple(y.shape) == tuple(r.shape), f"{ident}: output shape")
    h.eq(y, r, f"{ident}: output")
    g = h.tensor("g", tuple(y.shape))
    y.backward(g)
    r.backward(g)
    h.eq(x.grad, xr.grad, f"{ident}: input gradient")
    return y, g


def run_linear_split(h):
    n_in, n_out = h.choice("sizes", [(3, 3), (5, 1), (1, 4)])
    kind = h.choice("kind", ["torch", "inference"])
    cfg = rpu(kind, max_input_size=h.choice("mi", [2, 3, 0]), max_output_size=h.choice("mo", [2, 1, 0]),
              weight_scaling_omega=0.0)
    bias = h.flag("bias")
    l = AnalogLinearMapped(n_in, n_out, bias, rpu_config=cfg)
    w, b = h.tensor("w", (n_out, n_in)), h.tensor("b", (n_out,)) if bias else None
    l.set_weights(w, b)
    w2, b2 = l.get_weights()
    h.eq(w2, w, "split weights read back")
    if bias:
        h.eq(b2, b, "split bias read back")
    for t in l.analog_tiles():
        h.true(cfg.mapping.max_input_size <= 0 or t.in_size <= cfg.mapping.max_input_size, "tile within the maximal input size")
        h.true(cfg.mapping.max_output_size <= 0 or t.out_size <= cfg.mapping.max_output_size, "tile within the maximal output size")
    x = h.tensor("x", (2, n_in), grad=True)
    y, g = dense(h, l, w, b, x, lambda v: F.linear(v, w, b), "split linear")
    if bias:
        h.eq(next(p for n, p in l.named_parameters() if n.endswith("bias")).grad, g.sum(0), "bias gradient")


def run_linear_scaled(h):
    """the same with weights scaled to the conductance range, per tile"""
    cfg = rpu("torch", max_input_size=1, max_output_size=1, weight_scaling_omega=0.5,
              weight_scaling_columnwise=h.flag("col"), learn_out_scaling=h.flag("learn"))
    l = AnalogLinearMapped(2, 2, True, rpu_config=cfg)
    w, b = h.tensor("w", (2, 2)), h.tensor("b", (2,))
    l.set_weights(w, b)
    h.eq(l.get_weights()[0], w, "split weights read back")
    x = h.tensor("x", (1, 2), grad=True)
    dense(h, l, w, b, x, lambda v: F.linear(v, w, b), "split linear")
    l.remap_analog_weights(1.0)
    h.eq(l.get_weights()[0], w, "remap keeps the weights")


def run_linear_update(h):
    """one SGD step of the split layer is the digital SGD step"""
    kind = h.choice("kind", ["torch", "single", "inference"])
    cfg = rpu(kind, max_input_size=2, max_output_size=2, weight_scaling_omega=0.0)
    l = AnalogLinearMapped(3, 3, True, rpu_config=cfg)
    w, b = h.tensor("w", (3, 3)), h.tensor("b", (3,))
    l.set_weights(w, b)
    opt = AnalogSGD(l.parameters(), lr=0.5)
    opt.zero_grad()
    x, g = h.tensor("x", (2, 3)), h.tensor("g", (2, 3))
    l(x).backward(g)
    opt.step()
    w2, b2 = l.get_weights()
    h.eq(w2, w - 0.5 * g.t() @ x, "weights after one step")
    h.eq(b2, b - 0.5 * g.sum(0), "bias after one step")


def run_leading_dims(h):
    """any number of leading dimensions"""
    kind = h.choice("kind", ["torch", "single"])
    split = h.flag("split")
    cfg = rpu(kind, max_input_size=1 if split else 0, max_output_size=0, weight_scaling_omega=0.0)
    cls = AnalogLinearMapped if split else AnalogLinear
    l = cls(2, 3, True, rpu_config=cfg)
    w, b = h.tensor("w", (3, 2)), h.tensor("b", (3,))
    l.set_weights(w, b)
    shape = h.choice("shape", [(2,), (1, 2), (2, 2, 2), (1, 2, 1, 2)])
    x = h.tensor("x", shape, grad=True)
    dense(h, l, w, b, x, lambda v: F.linear(v, w, b), "leading dimensions")


# ---------------------------------------------------------------- convolutions
CONV2 = [dict(k=(2, 2), s=(1, 1), p=(0, 0), d=(1, 1)), dict(k=(1, 2), s=(2, 1), p=(1, 0), d=(1, 1)),
         dict(k=(2, 1), s=(1, 2), p=(0, 1), d=(2, 1)), dict(k=(2, 2), s=(2, 1), p=(1, 1), d=(1, 2)),
         dict(k=(2, 3), s=(1, 2), p=(0, 2), d=(1, 1)), dict(k=(3, 2), s=(1, 1), p=(2, 0), d=(2, 1))]


def conv_case(h, cls, fn, kind, c, image, cin=2, cout=2, batch=(1,), indexed=None, bias=True, digital=True, **m):
    if kind != "fp":
        m.setdefault("weight_scaling_omega", 0.0)
    cfg = rpu(kind, digital_bias=digital, **m)
    kw = {} if indexed is None else dict(use_indexed=indexed)
    l = cls(cin, cout, c["k"], c["s"], c["p"], c["d"], bias=bias, rpu_config=cfg, **kw)
    w = h.tensor("w", (cout, cin) + tuple(c["k"]))
    b = h.tensor("b", (cout,)) if bias else None
    l.set_weights(w, b)
    h.eq(l.get_weights()[0].reshape(w.shape), w, "kernel read back")
    x = h.tensor("x", batch + (cin,) + image, grad=True)
    y, g = dense(h, l, w, b, x, lambda v: fn(v, w, b, c["s"], c["p"], c["d"]), cls.__name__)
    return l, w, b, x, g


def run_conv2d(h):
    c = h.choice("c", CONV2)
    conv_case(h, AnalogConv2d, F.conv2d, h.choice("kind", ["torch", "single"]), c, (3, 4), batch=h.choice("b", [(2,), ()]))


def run_conv2d_indexed(h):
    c = h.choice("c", CONV2)
    conv_case(h, AnalogConv2d, F.conv2d, h.choice("kind", ["single", "inference"]), c, (3, 4), batch=(2,), indexed=True,
              digital=h.flag("digital"))


def run_conv2d_mapped(h):
    c = h.choice("c", CONV2[:3])
    kind = h.choice("kind", ["torch", "single"])
    ix = h.flag("indexed") if kind == "single" else None
    n = c["k"][0] * c["k"][1]
    conv_case(h, AnalogConv2dMapped, F.conv2d, kind, c, (3, 3), cin=3, cout=2, indexed=ix, bias=h.flag("bias"),
              max_input_size=h.choice("mi", [2 * n, n + 1]), max_output_size=h.choice("mo", [1, 0]))


def run_conv1d(h):
    c = h.choice("c", [dict(k=(2,), s=(1,), p=(0,), d=(1,)), dict(k=(3,), s=(2,), p=(1,), d=(1,)),
                       dict(k=(1,), s=(2,), p=(1,), d=(1,))])
    mapped = h.flag("mapped")
    conv_case(h, AnalogConv1dMapped if mapped else AnalogConv1d, F.conv1d, h.choice("kind", ["single", "inference"]), c, (4,),
              cin=3 if mapped else 2, batch=(2,), digital=True if mapped else h.flag("digital"),
              **(dict(max_input_size=c["k"][0] * h.choice("mi", [1, 2]), max_output_size=1) if mapped else {}))


CONV3 = [dict(k=(2, 1, 2), s=(1, 1, 1), p=(0, 0, 0), d=(1, 1, 1)), dict(k=(1, 2, 2), s=(2, 1, 1), p=(0, 1, 0), d=(1, 1, 1)),
         dict(k=(2, 2, 1), s=(1, 2, 1), p=(1, 0, 1), d=(1, 1, 1)), dict(k=(2, 1, 2), s=(1, 2, 1), p=(0, 0, 1), d=(1, 1, 1)),
         dict(k=(1, 2, 3), s=(1, 1, 2), p=(0, 1, 2), d=(1, 1, 1))]


def run_conv3d(h):
    c = h.choice("c", CONV3)
    mapped = h.flag("mapped")
    conv_case(h, AnalogConv3dMapped if mapped else AnalogConv3d, F.conv3d, "single", c, (2, 3, 2), cin=2,
              digital=True if mapped else h.flag("digital"),
              **(dict(max_input_size=c["k"][0] * c["k"][1] * c["k"][2], max_output_size=1) if mapped else {}))


def run_conv_refused(h):
    """what is not supported is refused instead of computed wrongly"""
    cls, one = h.choice("cls", [(AnalogConv1d, 1), (AnalogConv1dMapped, 1), (AnalogConv2d, 2), (AnalogConv2dMapped, 2),
                                (AnalogConv3d, 3), (AnalogConv3dMapped, 3)])
    cfg = rpu("single", weight_scaling_omega=0.0)
    what = h.choice("what", ["groups", "padding_mode", "dilation"])
    kw = dict(groups=dict(groups=2), padding_mode=dict(padding_mode="circular"), dilation=dict(dilation=(2,) * one))[what]
    if what == "dilation" and one == 2:
        h.true(True, "dilation of 2D convolutions is supported")
        return
    h.raises(lambda: cls(2, 2, (2,) * one, rpu_config=cfg, **kw), "refused")


def run_conv_history(h):
    """inputs of different sizes one after the other"""
    cls, fn, c, shapes = h.choice("cls", [
        (AnalogConv2d, F.conv2d, CONV2[1], [(2, 4), (4, 2)]), (AnalogConv2d, F.conv2d, CONV2[0], [(3, 2), (2, 2)]),
        (AnalogConv2dMapped, F.conv2d, CONV2[1], [(2, 4), (4, 2)]), (AnalogConv3d, F.conv3d, CONV3[0], [(2, 2, 3), (3, 1, 4)]),
        (AnalogConv3dMapped, F.conv3d, CONV3[0], [(2, 2, 3), (3, 1, 4)]), (AnalogConv1d, F.conv1d,
         dict(k=(2,), s=(1,), p=(1,), d=(1,)), [(3,), (4,)])])
    cfg = rpu("single", weight_scaling_omega=0.0)
    kw = dict(use_indexed=True) if "2d" in cls.__name__ else {}
    l = cls(1, 1, c["k"], c["s"], c["p"], c["d"], rpu_config=cfg, **kw)
    w, b = h.tensor("w", (1, 1) + tuple(c["k"])), h.tensor("b", (1,))
    l.set_weights(w, b)
    for i, s in enumerate(shapes + shapes[:1]):
        x = h.tensor(f"x{i}", (1 + i % 2, 1) + s)
        h.eq(l(x), fn(x, w, b, c["s"], c["p"], c["d"]), f"{cls.__name__}: output after inputs of another size")


def run_conv_update(h):
    """one SGD step of indexed and unfolded convolutions is the digital one"""
    cls, fn, c, im, kw = h.choice("cls", [
        (AnalogConv2d, F.conv2d, CONV2[0], (3, 2), dict(use_indexed=True)),
        (AnalogConv2d, F.conv2d, CONV2[3], (2, 3), dict(use_indexed=False)),
        (AnalogConv2dMapped, F.conv2d, CONV2[0], (3, 2), dict(use_indexed=True)),
        (AnalogConv1d, F.conv1d, dict(k=(2,), s=(1,), p=(1,), d=(1,)), (3,), {}),
        (AnalogConv3d, F.conv3d, CONV3[0], (2, 1, 3), {})])
    kind = h.choice("kind", ["single", "inference"])
    dig = True if "Mapped" in cls.__name__ else h.flag("digital")
    cfg = rpu(kind, weight_scaling_omega=0.0, digital_bias=dig)
    l = cls(1, 2, c["k"], c["s"], c["p"], c["d"], rpu_config=cfg, **kw)
    w, b = h.tensor("w", (2, 1) + tuple(c["k"]), grad=True), h.tensor("b", (2,), grad=True)
    l.set_weights(w.detach(), b.detach())
    opt = AnalogSGD(l.parameters(), lr=0.5)
    opt.zero_grad()
    x = h.tensor("x", (2, 1) + im)
    y = l(x)
    g = h.tensor("g", tuple(y.shape))
    y.backward(g)
    opt.step()
    fn(x, w, b, c["s"], c["p"], c["d"]).backward(g)
    w2, b2 = l.get_weights()
    h.eq(w2.reshape(w.shape), w.detach() - 0.5 * w.grad, "kernel after one step")
    h.eq(b2, b.detach() - 0.5 * b.grad, "bias after one step")


# ---------------------------------------------------------------- recurrent
def cell_ref(kind, x, s, p):
    if kind == "combined":
        (w, b), = p
        hx, cx = s
        g = torch.cat((x, hx), 1) @ w.t() + b
    elif kind == "lstm":
        hx, cx = s
        g = x @ p[0][0].t() + p[0][1] + hx @ p[1][0].t() + p[1][1]
    if kind in ("lstm", "combined"):
        n = g.shape[1] // 4
        i, f, c, o = g[:, :n], g[:, n:2 * n], g[:, 2 * n:3 * n], g[:, 3 * n:]
        cy = torch.sigmoid(f) * cx + torch.sigmoid(i) * torch.tanh(c)
        hy = torch.sigmoid(o) * torch.tanh(cy)
        return hy, (hy, cy)
    gi, gh = x @ p[0][0].t() + p[0][1], s @ p[1][0].t() + p[1][1]
    if kind == "rnn":
        o = torch.tanh(gi + gh)
        return o, o
    n = s.shape[1]
    r = torch.sigmoid(gi[:, :n] + gh[:, :n])
    u = torch.sigmoid(gi[:, n:2 * n] + gh[:, n:2 * n])
    m = torch.tanh(gi[:, 2 * n:] + r * gh[:, 2 * n:])
    o = (1 - u) * m + u * s
    return o, o


CELLS = dict(rnn=AnalogVanillaRNNCell, lstm=AnalogLSTMCell, gru=AnalogGRUCell, combined=AnalogLSTMCellCombinedWeight)


def run_rnn(h):
    """sequences through the recurrent layers: forward, bidirectional, stacked"""
    kind = h.choice("cell", list(CELLS))
    bidir, layers = h.choice("arch", [(False, 1), (True, 1), (False, 2), (True, 2)])
    cfg = perfect(weight_scaling_omega=0.0)
    m = AnalogRNN(CELLS[kind], 1, 1, bias=True, rpu_config=cfg, num_layers=layers, bidir=bidir)
    ps = []
    for i, l in enumerate(q for q in m.modules() if isinstance(q, AnalogLinear)):
        w, b = h.tensor(f"w{i}", (l.out_features, l.in_features)), h.tensor(f"b{i}", (l.out_features,))
        l.set_weights(w, b)
        ps.append((w, b))
    T = 2 if layers == 1 else 1
    x = h.tensor("x", (T, 1, 1))
    y, st = m(x)
    per = 1 if kind == "combined" else 2
    seq = [x[t] for t in range(T)]
    k, outs = 0, []
    for _ in range(layers):
        res, fin = [], []
        for d in range(2 if bidir else 1):
            p = ps[k:k + per]
            k += per
            s = torch.zeros(1, 1)
            s = (s, s) if kind in ("lstm", "combined") else s
            o = []
            for v in (seq[::-1] if d else seq):
                q, s = cell_ref(kind, v, s, p)
                o.append(q)
            res.append(o[::-1] if d else o)
            fin.append(s)
        seq = [torch.cat([r[t] for r in res], -1) for t in range(T)]
        outs.append(fin)
    h.eq(y, torch.stack(seq), f"{kind}: outputs")
    for a, f in zip(st, outs):
        a = a if bidir else [a]
        for u, v in zip(a, f):
            for p, q in zip(u if isinstance(u, tuple) else (u,), v if isinstance(v, tuple) else (v,)):
                h.eq(p, q, f"{kind}: final state")


def run_rnn_states(h):
    """given initial states, several units and sequences; with and without the analog layers"""
    kind = h.choice("cell", list(CELLS))
    bidir, layers = h.choice("arch", [(False, 1), (True, 1), (False, 2)])
    analog = kind == "gru" or h.flag("analog")      # the GRU cell is always analog
    cfg = perfect(weight_scaling_omega=0.0)
    big = not bidir and layers == 1
    hid, nb = (2, 2 if kind in ("rnn", "gru") else 1) if big else (1, 1)
    m = AnalogRNN(CELLS[kind], hid, hid, bias=True, rpu_config=cfg if analog else None, num_layers=layers, bidir=bidir,
                  dropout=0.0)
    ps = []
    for i, l in enumerate(q for q in m.modules() if isinstance(q, nn.Linear)):
        if (i == 0 and kind in ("rnn", "gru")) or not big:
            w, b = h.tensor(f"w{i}", (l.out_features, l.in_features)), h.tensor(f"b{i}", (l.out_features,))
        else:
            w = (torch.arange(l.out_features * l.in_features) % 5 - 2.0).reshape(l.out_features, -1) / 4
            b = torch.arange(l.out_features) / 8.0
        if isinstance(l, AnalogLinear):
            l.set_weights(w, b)
        else:
            with torch.no_grad():
                l.weight.copy_(w)
                l.bias.copy_(b)
        ps.append((w, b))
    x = h.tensor("x", (1, nb, hid))
    nd = 2 if bidir else 1
    two = kind in ("lstm", "combined")
    init = [[tuple(h.tensor(f"s{i}{d}{k}", (nb, hid)) for k in range(2 if two else 1)) for d in range(nd)] for i in range(layers)]
    st0 = [[s if two else s[0] for s in lay] for lay in init]
    y, st = m(x, [lay if bidir else lay[0] for lay in st0])
    per = 1 if kind == "combined" else 2
    cur, k = x[0], 0
    for i in range(layers):
        res = []
        for d in range(nd):
            q, s = cell_ref(kind, cur, st0[i][d], ps[k:k + per])
            k += per
            res.append(q)
            got = st[i][d] if bidir else st[i]
            for a, b in zip(got if two else (got,), s if two else (s,)):
                h.eq(a, b, f"{kind}: final state")
        cur = torch.cat(res, -1)
    h.eq(y[0], cur, f"{kind}: outputs")


def run_rnn_grad(h):
    """gradients through two time steps are those of the digital cell"""
    kind = h.choice("cell", list(CELLS))
    cfg = perfect(weight_scaling_omega=0.0)
    m = AnalogRNN(CELLS[kind], 1, 1, bias=True, rpu_config=cfg)
    ps = []
    for i, l in enumerate(q for q in m.modules() if isinstance(q, AnalogLinear)):
        w, b = h.tensor(f"w{i}", (l.out_features, l.in_features)), h.tensor(f"b{i}", (l.out_features,))
        l.set_weights(w, b)
        ps.append((w, b))
    x = h.tensor("x", (2, 1, 1), grad=True)
    y, _ = m(x)
    g = h.tensor("g", (2, 1, 1))
    y.backward(g)
    xr = x.detach().clone().requires_grad_()
    s = torch.zeros(1, 1)
    s = (s, s) if kind in ("lstm", "combined") else s
    o = []
    for t in range(2):
        q, s = cell_ref(kind, xr[t], s, ps)
        o.append(q)
    torch.stack(o).backward(g)
    h.eq(x.grad, xr.grad, f"{kind}: input gradient")


# ---------------------------------------------------------------- conversion
class Net(nn.Module):
    def __init__(self):
        super().__init__()
        self.a = nn.Linear(2, 2)
        self.seq = nn.Sequential(nn.Linear(2, 3, bias=False), nn.ReLU(), nn.Sequential(nn.Linear(3, 1)))
        self.keep = nn.Linear(1, 1)

    def forward(self, x):
        return self.keep(self.seq(self.a(x)))


def run_convert(h):
    """converting to analog and back keeps every weight, the structure, and the original model"""
    net = Net()
    lin = [l for l in net.modules() if isinstance(l, nn.Linear)]
    ps = []
    for i, l in enumerate(lin):
        w = h.tensor(f"w{i}", tuple(l.weight.shape))
        b = h.tensor(f"b{i}", tuple(l.bias.shape)) if l.bias is not None else None
        with torch.no_grad():
            l.weight.copy_(w)
            if b is not None:
                l.bias.copy_(b)
        ps.append((w, b))
    cfg = perfect(max_input_size=2, max_output_size=2, weight_scaling_omega=0.0)
    excl = h.flag("exclude")
    inplace = h.flag("inplace")
    an = convert_to_analog(net, cfg, conversion_map=MAPPED if h.flag("mapped") else None, exclude_modules=["keep"] if excl else None, inplace=inplace)
    for i, l in enumerate(lin if not inplace else []):
        h.eq(l.weight, ps[i][0], "the original model is unchanged")
    al = [l for l in an.modules() if isinstance(l, AnalogLinear)]
    h.true(len(al) == 3 + (not excl), "all layers converted")
    for l, (w, b) in zip(al, ps):
        h.eq(l.get_weights()[0], w, "weights converted")
        if b is not None:
            h.eq(l.get_weights()[1], b, "bias converted")
        h.true((l.get_weights()[1] is None) == (b is None), "bias converted")
    x = h.tensor("x", (1, 2))
    r = x
    for i, (w, b) in enumerate(ps):
        r = F.linear(r, w, b)
        if i == 1:
            r = torch.relu(r)
    h.eq(an(x), r, "the converted model computes the same")
    back = convert_to_digital(an)
    dl = [l for l in back.modules() if isinstance(l, nn.Linear)]
    h.true(len(dl) == 4 and not any(isinstance(l, AnalogLinear) for l in dl), "all layers converted back")
    h.true([n for n, _ in back.named_modules()] == [n for n, _ in Net().named_modules()], "same structure")
    for l, (w, b) in zip(dl, ps):
        h.eq(l.weight, w, "weights converted back")
        if b is not None:
            h.eq(l.bias, b, "bias converted back")
    h.eq(back(x), r, "the model converted back computes the same")


def run_convert_conv(h):
    """converting convolutions to analog and back keeps kernel, geometry and function; layers can get their own configuration"""
    cls, c, im = h.choice("cls", [
        (nn.Conv1d, dict(k=(3,), s=(2,), p=(1,), d=(1,)), (4,)), (nn.Conv2d, CONV2[2], (3, 3)), (nn.Conv2d, CONV2[5], (3, 2)),
        (nn.Conv3d, CONV3[1], (2, 2, 2))])
    bias = h.flag("bias")
    mapped = h.flag("mapped")
    net = nn.Sequential(cls(2, 2, c["k"], c["s"], c["p"], c["d"], bias=bias), nn.Identity())
    w = h.tensor("w", tuple(net[0].weight.shape))
    b = h.tensor("b", (2,)) if bias else None
    with torch.no_grad():
        net[0].weight.copy_(w)
        if bias:
            net[0].bias.copy_(b)
    seen = []

    def cfg_of(name, module, cfg):
        seen.append(name)
        cfg.mapping.weight_scaling_omega = 0.5
        return cfg
    cfg = rpu("single", weight_scaling_omega=0.0)
    fun = cfg_of if h.flag("own") else None
    an = convert_to_analog(net, cfg, conversion_map=MAPPED if mapped else None, specific_rpu_config_fun=fun)
    h.true(type(an[0]).__name__ == "Analog" + cls.__name__ + ("Mapped" if mapped else ""), "converted class")
    t = next(an[0].analog_tiles())
    h.true(t.rpu_config.mapping.weight_scaling_omega == (0.5 if fun else 0.0), "configuration of the layer")
    h.true(cfg.mapping.weight_scaling_omega == 0.0, "given configuration unchanged")
    h.true(fun is None or "0" in seen, "function asked for the layer by name")
    h.eq(an[0].get_weights()[0].reshape(w.shape), w, "kernel converted")
    x = h.tensor("x", (1, 2) + im, -1, 1)
    f = getattr(F, cls.__name__.lower())
    r = f(x, w, b, c["s"], c["p"], c["d"])
    h.eq(net(x), r, "the original computes the same")
    h.eq(an(x), r, "the converted model computes the same")
    back = convert_to_digital(an)
    h.true(type(back[0]) is cls and type(net[0]) is cls, "converted back")
    for a in ("kernel_size", "stride", "padding", "dilation", "in_channels", "out_channels"):
        h.true(getattr(back[0], a) == getattr(net[0], a), "geometry kept")
    h.eq(back[0].weight, w, "kernel converted back")
    h.true((back[0].bias is None) == (not bias), "bias converted back")
    if bias:
        h.eq(back[0].bias, b, "bias converted back")
    h.eq(back(x), r, "the model converted back computes the same")


def run_container(h):
    """weights of a container, by name"""
    cfg = perfect(weight_scaling_omega=0.0)
    s = AnalogSequential(AnalogLinear(1, 2, True, cfg), nn.Sequential(AnalogLinear(2, 1, False, cfg)))
    ws = [(h.tensor("w0", (2, 1)), h.tensor("b0", (2,))), (h.tensor("w1", (1, 2)), None)]
    d = s.get_weights()
    h.true(len(d) == 2, "all tiles")
    s.set_weights({k: v for k, v in zip(d, ws)})
    for (k, v), (w, b) in zip(s.get_weights().items(), ws):
        h.eq(v[0], w, "weights")
        if b is not None:
            h.eq(v[1], b, "bias")
    x = h.tensor("x", (1, 1))
    h.eq(s(x), (x @ ws[0][0].t() + ws[0][1]) @ ws[1][0].t(), "output")
    h.raises(lambda: s.set_weights({}), "missing weights refused")
