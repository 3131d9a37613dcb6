"""Weights: setting, reading, scales, forward/backward/update invariance."""
import torch
from torch.nn import Parameter
from aihwkit.nn import AnalogLinear
from aihwkit.optim import AnalogSGD
from aihwkit.simulator.configs import TorchInferenceRPUConfig, InferenceRPUConfig, SingleRPUConfig, FloatingPointRPUConfig
import fake
from lib import perfect, custom

OUT, IN = 2, 3


def mk(h, cls="torch", bias=True, **m):
    cfg = (custom if cls == "custom" else perfect)(**m)
    t = cfg.tile_class(OUT, IN, cfg, bias=bias)
    return t, cfg


def mapping(h):
    return dict(weight_scaling_omega=h.choice("omega", [0.0, 0.5, 1.0]), weight_scaling_columnwise=h.flag("colwise"),
                learn_out_scaling=h.flag("learn"), out_scaling_columnwise=h.flag("outcol"))


def roundtrip(h, cls):
    m = mapping(h)
    bias = h.flag("bias")
    t, cfg = mk(h, cls, bias, **m)
    w, b = h.tensor("w", (OUT, IN)), (h.tensor("b", (OUT,)) if bias else None)
    t.set_weights(w.clone(), b.clone() if bias else None)
    w2, b2 = t.get_weights()
    h.observe(w2)
    h.eq(w2, w, "weights read back as set")
    if bias:
        h.eq(b2, b, "bias read back as set")
    else:
        h.true(b2 is None, "no bias")
    raw, _ = t.get_weights(apply_weight_scaling=False)
    s = t.get_scales()
    if s is not None:
        h.eq(raw * s.view(-1, 1), w, "analog weight times scale is the weight")
    else:
        h.eq(raw, w, "without scales the analog weight is the weight")
    om = m["weight_scaling_omega"]
    if om > 0:
        mx = w.abs().amax(1, keepdim=True) if m["weight_scaling_columnwise"] else w.abs().amax().view(1, 1)
        h.eq(torch.where(mx > 0, raw * mx, raw), torch.where(mx > 0, om * w, w), "the largest analog weight is omega")
    # without scaling on request, values go to the tile unchanged and the scales stay
    v = h.tensor("v", (OUT, IN))
    t.set_weights(v.clone(), b.clone() if bias else None, apply_weight_scaling=False)
    raw, _ = t.get_weights(apply_weight_scaling=False)
    h.eq(raw, v, "unscaled weights read back")
    s2 = t.get_scales()
    h.true((s is None) == (s2 is None), "scales kept")
    if s is not None:
        h.eq(s2, s, "scales kept")


def run_roundtrip(h):
    roundtrip(h, "torch")


def run_roundtrip_custom(h):
    roundtrip(h, "custom")


def forward(h, cls):
    m = mapping(h)
    t, cfg = mk(h, cls, True, **m)
    w, b = h.tensor("w", (OUT, IN)), h.tensor("b", (OUT,))
    t.set_weights(w, b)
    if m["learn_out_scaling"]:
        a = h.tensor("a", (OUT if m["out_scaling_columnwise"] else 1,), 0.25, 2)
        t.set_learned_out_scales(a)
        weff = w * a.view(-1, 1)
        h.eq(t.get_weights()[0], weff, "learned output scale is part of the weight")
    else:
        weff = w
    if h.flag("train"):
        t.train()
    else:
        t.eval()
    x = h.tensor("x", (2, IN), grad=True)
    y = t(x)
    h.observe(y)
    h.eq(y, x @ weff.T + b, "forward is W x + b")
    g = h.tensor("g", (2, OUT))
    y.backward(g)
    h.eq(x.grad, g @ weff, "input gradient is W^T g")
    h.eq(t.bias.grad, g.sum(0), "bias gradient")
    if m["learn_out_scaling"]:
        ref = (g * (x @ w.T)).sum(0)
        h.eq(t.out_scaling_alpha.grad, ref if m["out_scaling_columnwise"] else ref.sum().view(1), "output scale gradient")


def run_forward(h):
    forward(h, "torch")


def run_forward_custom(h):
    forward(h, "custom")


def run_scales(h):
    """set_scales / set_mapping_scales / set_learned_out_scales and what reads them"""
    m = mapping(h)
    t, cfg = mk(h, "torch", False, **m)
    w = h.tensor("w", (OUT, IN))
    t.set_weights(w)
    raw, _ = t.get_weights(apply_weight_scaling=False)
    k = h.choice("kind", ["float", "one", "vec"])
    if k == "float":
        s = h.real("s", 0.25, 4)
        sv = torch.ones(OUT) * s
    elif k == "one":
        s = h.tensor("s", (1,), 0.25, 4)
        sv = s.expand(OUT)
    else:
        s = h.tensor("s", (OUT,), 0.25, 4)
        sv = s
    if k == "float":
        t.set_mapping_scales(s)
        t.set_learned_out_scales(1.0)
    else:
        t.set_scales(s.clone())
    h.eq(t.get_scales() * torch.ones(OUT), sv, "scales read back")
    h.eq(t.get_weights()[0], raw * sv.view(-1, 1), "weights follow the scales")
    x = h.tensor("x", (1, IN))
    h.eq(t(x), x @ (raw * sv.view(-1, 1)).T, "output follows the scales")


def run_remap(h):
    """remap_weights changes neither the weights nor the output"""
    m = mapping(h)
    t, cfg = mk(h, h.choice("cls", ["torch", "custom"]), True, **m)
    w, b = h.tensor("w", (OUT, IN)), h.tensor("b", (OUT,))
    t.set_weights(w, b)
    if m["learn_out_scaling"]:
        t.set_learned_out_scales(h.tensor("a", (OUT if m["out_scaling_columnwise"] else 1,), 0.25, 2))
    w1, b1 = t.get_weights()
    t.remap_weights(h.choice("om2", [0.5, 1.0]))
    w2, b2 = t.get_weights()
    h.eq(w2, w1, "remap keeps the weights")
    h.eq(b2, b1, "remap keeps the bias")
    x = h.tensor("x", (1, IN))
    h.eq(t(x), x @ w1.T + b, "remap keeps the output")


def run_update_custom(h):
    """one SGD step of the custom tile moves the weight by -lr * gradient (scaled by the mapping)"""
    m = dict(weight_scaling_omega=h.choice("omega", [0.0, 0.5]), weight_scaling_columnwise=h.flag("colwise"),
             weight_scaling_lr_compensation=h.flag("lrcomp"), learn_out_scaling=h.flag("learn"))
    cfg = custom(**m)
    l = AnalogLinear(IN, OUT, True, rpu_config=cfg)
    w, b = h.tensor("w", (OUT, IN)), h.tensor("b", (OUT,))
    l.set_weights(w, b)
    t = next(l.analog_tiles())
    s = t.get_scales()
    s = torch.ones(OUT) if s is None else s * torch.ones(OUT)
    h.assume(s > 0.125)
    lr = h.choice("lr", [0.5, 0.125])
    opt = AnalogSGD(l.parameters(), lr=lr)
    x, g = h.tensor("x", (2, IN)), h.tensor("g", (2, OUT))
    raw = t.get_weights(apply_weight_scaling=False)[0]
    opt.zero_grad()
    y = l(x)
    y.backward(g)
    opt.step()
    raw2 = t.get_weights(apply_weight_scaling=False)[0]
    # d(raw) = -lr * (g / s)^T x: in weight units the step is the plain SGD step -lr g^T x
    ref = raw - lr * (g / s.view(1, -1)).T @ x
    h.observe(raw2)
    h.eq(raw2, ref, "analog weight after one step")
    h.eq(t.get_weights()[0] if not m["learn_out_scaling"] else raw2 * s.view(-1, 1), w - lr * g.T @ x,
         "the weight moves by the plain SGD step")
    h.eq(l.get_weights()[1], b - lr * g.sum(0), "bias after one step")


def run_update_torch(h):
    """the same for the torch tile"""
    m = dict(weight_scaling_omega=h.choice("omega", [0.0, 0.5]), weight_scaling_columnwise=h.flag("colwise"))
    cfg = perfect(**m)
    l = AnalogLinear(IN, OUT, True, rpu_config=cfg)
    w, b = h.tensor("w", (OUT, IN)), h.tensor("b", (OUT,))
    l.set_weights(w, b)
    t = next(l.analog_tiles())
    s = t.get_scales()
    s = torch.ones(OUT) if s is None else s * torch.ones(OUT)
    h.assume(s > 0.125)
    opt = AnalogSGD(l.parameters(), lr=0.5)
    x, g = h.tensor("x", (2, IN)), h.tensor("g", (2, OUT))
    opt.zero_grad()
    l(x).backward(g)
    opt.step()
    h.eq(l.get_weights()[0], w - 0.5 * g.T @ x, "the weight moves by the plain SGD step")
    h.eq(l.get_weights()[1], b - 0.5 * g.sum(0), "bias after one step")


def run_program(h):
    """read-verify programming of the custom tile starts from the reference when asked, and stops when close"""
    t, cfg = mk(h, "custom", False, weight_scaling_omega=0.0)
    w = h.tensor("w", (OUT, IN), 0.5, 2)
    t.set_weights(w)
    t.program_weights(from_reference=h.flag("fr"), max_iter=1, learning_rate=1.0, tolerance=None, w_init=0.5)
    h.eq(t.get_weights()[0], w, "one perfect step with learning rate 1 programs the weight")
    v = h.tensor("v", (OUT, IN), 0.5, 2)
    t.tile.set_weights(v)                   # the device has changed, the reference has not
    fr = h.flag("fr2")
    t.program_weights(from_reference=fr, max_iter=1, learning_rate=1.0, tolerance=None, w_init=0.5)
    h.eq(t.get_weights()[0], w if fr else v, "programs the reference, or the current weights")
    xs = 2 * torch.eye(IN)
    t.program_weights(from_reference=False, x_values=xs, max_iter=1, learning_rate=0.25, tolerance=None, w_init=0.5)
    h.eq(t.get_weights()[0], w if fr else v, "given input values are used")
    h.eq(t.tile.get_learning_rate(), 0.1, "learning rate restored")


def run_analog_bias(h):
    """the bias as an additional column of the tile"""
    fake.use()
    kind = h.choice("kind", ["single", "inference", "fp"])
    cfg = {"single": SingleRPUConfig, "inference": InferenceRPUConfig, "fp": FloatingPointRPUConfig}[kind]()
    om, col, learn = 0.0, False, False
    cfg.mapping.digital_bias = False
    if kind != "fp":
        cfg.forward.is_perfect = True
        om, col, learn = h.choice("scaling", [(0.0, False, False), (0.5, False, False), (0.5, True, True)])
        m = cfg.mapping
        m.weight_scaling_omega, m.weight_scaling_columnwise, m.learn_out_scaling = om, col, learn
        m.out_scaling_columnwise = col
    if kind == "inference":
        cfg.drift_compensation = None
    l = AnalogLinear(2, 2, True, rpu_config=cfg)
    t = next(l.analog_tiles())
    w, b = h.tensor("w", (2, 2)), h.tensor("b", (2,))
    l.set_weights(w, b)
    w2, b2 = l.get_weights()
    h.eq(w2, w, "weights read back as set")
    h.eq(b2, b, "bias read back as set")
    raw = t.tile.get_weights()
    h.true(tuple(raw.shape) == (2, 3), "the bias is a column of the tile")
    if learn:
        a = h.tensor("a", (2,), 0.25, 2)
        t.set_learned_out_scales(a)
        w, b = w * a.view(-1, 1), b * a
        h.eq(l.get_weights()[0], w, "weights include the learned scales")
        h.eq(l.get_weights()[1], b, "bias includes the learned scales")
    x = h.tensor("x", (2, 2))
    h.eq(l(x), x @ w.t() + b, "output")


def run_read(h):
    """estimating the weights by products yields the weights"""
    kind = h.choice("kind", ["torch", "single", "inference"])
    dig = kind == "torch" or h.flag("digital")
    if kind != "torch":
        fake.use()
    cfg = {"torch": TorchInferenceRPUConfig, "single": SingleRPUConfig, "inference": InferenceRPUConfig}[kind]()
    cfg.forward.is_perfect = True
    cfg.drift_compensation = None
    m = cfg.mapping
    m.digital_bias = dig
    m.weight_scaling_omega, m.learn_out_scaling = h.choice("scaling", [(0.0, False), (0.5, False), (0.5, True)])
    m.weight_scaling_columnwise = m.out_scaling_columnwise = m.learn_out_scaling
    bias = h.flag("bias")
    l = AnalogLinear(2, 2, bias, rpu_config=cfg)
    t = next(l.analog_tiles())
    w, b = h.tensor("w", (2, 2), 0.25, 2), h.tensor("b", (2,)) if bias else None
    l.set_weights(w, b)
    if m.learn_out_scaling:
        t.set_learned_out_scales(torch.tensor([0.5, 2.0]))
    l.train() if h.flag("train") else l.eval()
    tr = t.training
    xs = h.choice("xs", [torch.eye(2), torch.tensor([[1.0, 2.0], [0.0, -1.0], [0.5, 0.0], [1.0, 1.0]])])
    if bias and not dig:
        xs = torch.cat([xs, torch.tensor([[2.0, 1.0]])])
    sc = h.flag("scaled")
    for got, want in zip(t.read_weights(apply_weight_scaling=sc, x_values=xs), t.get_weights(apply_weight_scaling=sc)):
        h.true((got is None) == (want is None), "bias read")
        if got is not None:
            h.eq(got, want, "weights estimated by reading")
    h.true(t.training == tr, "mode restored")


def run_random_init(h):
    """uniform random programming start lies in the given range"""
    t, cfg = mk(h, "custom", False, weight_scaling_omega=0.0)
    lo, hi = h.choice("lim", [(-0.5, 0.5), (-1.0, 0.25), (0.0, 2.0)])
    t.tile.set_weights_uniform_random(lo, hi)
    w = t.tile.get_weights()
    h.le(lo * torch.ones_like(w), w, "not below the lower limit")
    h.le(w, hi * torch.ones_like(w), "not above the upper limit")
    u = h.draws()[-1][1]
    h.eq(w, lo + (hi - lo) * u, "uniform in the range")
