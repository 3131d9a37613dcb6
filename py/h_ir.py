"""Input range: clipping, initialisation from data, learning gradient, weight update with the clipped input."""
import torch
import torch.nn.functional as F
from aihwkit.nn import AnalogLinear
from aihwkit.optim import AnalogSGD
from aihwkit.simulator.configs import InferenceRPUConfig, TorchInferenceRPUConfig
from aihwkit.simulator.parameters import IOParameters
from aihwkit.simulator.parameters.enums import NoiseManagementType as NM, BoundManagementType as BM
from aihwkit.simulator.tiles.custom import CustomRPUConfig
import fake
from lib import perfect

KIND = dict(torch=TorchInferenceRPUConfig, inference=InferenceRPUConfig, custom=CustomRPUConfig)


def layer(h, kind, n_in=2, n_out=1, bias=False, ir=None, **m):
    if kind == "inference":
        fake.use()
    m.setdefault("weight_scaling_omega", 0.0)
    cfg = perfect(KIND[kind], **m)
    p = cfg.pre_post.input_range
    p.enable = True
    p.init_from_data = 0
    for k, v in (ir or {}).items():
        assert hasattr(p, k)
        setattr(p, k, v)
    l = AnalogLinear(n_in, n_out, bias, rpu_config=cfg)
    w = h.tensor("w", (n_out, n_in))
    b = h.tensor("b", (n_out,)) if bias else None
    l.set_weights(w, b)
    return l, next(l.analog_tiles()), w, b


def set_range(h, t, lo=0.25, hi=2.0):
    r = h.real("r", lo, hi)
    t.set_input_range(r)
    return r


def run_clip(h):
    """inputs are clipped to the range, in training and evaluation; everything inside passes unchanged"""
    kind = h.choice("kind", ["torch", "inference", "custom"])
    learn = h.flag("learn")
    l, t, w, b = layer(h, kind, bias=True, ir=dict(learn_input_range=learn))
    r = set_range(h, t)
    l.train() if h.flag("train") else l.eval()
    x = h.tensor("x", (2, 2))
    y = l(x)
    h.observe(y)
    h.eq(y, F.linear(torch.clamp(x, -r, r), w, b), "output of the clipped input")
    h.eq(t.input_range, torch.ones(1) * r, "range not changed by a product")


def run_set(h):
    kind = h.choice("kind", ["torch", "inference"])
    l, t, w, b = layer(h, kind, ir=dict(learn_input_range=h.flag("learn"), init_value=1.5))
    h.eq(t.input_range, torch.ones(1) * 1.5, "initial value")
    v = h.real("v", -2, 2)
    t.set_input_range(torch.ones(1) * v if h.flag("tensor") else v)
    h.eq(t.input_range, torch.ones(1) * abs(v), "range is the magnitude of the value")
    l2 = AnalogLinear(2, 1, False, rpu_config=perfect(KIND[kind]))
    h.raises(lambda: next(l2.analog_tiles()).set_input_range(1.0), "not enabled")
    x = h.tensor("x", (1, 2))
    l2.set_weights(w)
    h.eq(l2(x), x @ w.t(), "no clipping when not enabled")


def run_init_data(h):
    """the first batches in training set the range to the running mean of alpha times the standard deviation"""
    kind = h.choice("kind", ["torch", "inference"])
    n = h.choice("n", [1, 2])
    l, t, w, b = layer(h, kind, n_in=1, ir=dict(init_from_data=n, init_std_alpha=2.0, init_value=h.choice("iv", [1.0, 3.0])))
    r = t.input_range.detach().clone()
    idx = 0
    for k in range(3):
        x = h.tensor(f"x{k}", (2, 1), -4, 4) if k < 2 else h.tensor(f"x{k}", (1, 1), -4, 4).expand(2, 1).clone()
        train = k != 1 or h.flag("train1")
        l.train() if train else l.eval()
        if train and idx < n:
            d = (x[0] - x[1]).abs()
            if bool((d > 0).all()):
                r = (r * idx + 2.0 * x.std()) / (idx + 1)
                idx += 1
        y = l(x)
        h.eq(t.input_range, r, "range after the batch")
        c = torch.minimum(torch.maximum(x, -r), r)
        h.eq(y * 1.0, c @ w.t(), "output uses the new range")


def ir_grad(x, r, gx, p, out_pct=None):
    """documented gradient of the range; gx is the gradient at the input"""
    up, lo = (x >= r).float(), (x <= -r).float()
    g = torch.clamp(up * gx, max=0.0).sum() - torch.clamp(lo * gx, min=0.0).sum()
    if p["gradient_relative"]:
        g = g * r
    g = g * p["gradient_scale"]
    if out_pct is not None:
        g = g - torch.where(out_pct < p["output_min_percentage"], (1 - out_pct) * r, 0.0 * out_pct)
    pct = (x.abs() < r).float().mean()
    if p["decay"] > 0:
        g = g + torch.where(pct > p["input_min_percentage"], p["decay"] * r + 0 * pct, 0 * pct)
    return g


def run_grad(h):
    kind = h.choice("kind", ["torch", "inference", "custom"])
    o = h.choice("options", [(True, 1.0, 0.0, 0.95), (False, 0.5, 0.0, 0.95), (True, 0.5, 0.25, 0.95), (False, 1.0, 0.25, 0.25)])
    p = dict(zip(("gradient_relative", "gradient_scale", "decay", "input_min_percentage"), o))
    l, t, w, b = layer(h, kind, n_in=2, n_out=1, ir=p)
    r = set_range(h, t, 0.5, 1.0)
    l.train()
    x = h.tensor("x", (1, 2), grad=True)
    g = h.tensor("g", (1, 1))
    l(x).backward(g)
    gx = g @ w
    h.eq(t.input_range.grad.view(()), ir_grad(x.detach(), r, gx, p), "gradient of the range")


def run_grad_accum(h):
    """two backward passes add up; an optimizer step moves the range against the gradient"""
    kind = h.choice("kind", ["torch", "inference"])
    p = dict(gradient_relative=True, gradient_scale=1.0, decay=0.0, input_min_percentage=0.5)
    l, t, w, b = layer(h, kind, n_in=1, n_out=1, ir=p)
    r = set_range(h, t, 0.5, 1.0)
    opt = AnalogSGD(l.parameters(), lr=0.125)
    l.train()
    opt.zero_grad()
    ref = torch.zeros(())
    wg = torch.zeros(1, 1)
    # the compiled tile is updated with the clipped input divided by the range
    q = r if kind == "inference" else 1.0
    for k in range(2):
        x, g = h.tensor(f"x{k}", (1, 1), grad=True), h.tensor(f"g{k}", (1, 1))
        l(x).backward(g)
        ref = ref + ir_grad(x.detach(), r, g @ w, p)
        wg = wg + g.t() @ (torch.clamp(x.detach(), -r, r) / q)
    h.eq(t.input_range.grad.view(()), ref, "gradients add up")
    opt.step()
    h.eq(t.input_range.view(()), r - 0.125 * ref, "range after the step")
    h.eq(l.get_weights()[0], w - 0.125 * wg, "weight update uses the clipped input")


def run_out_clip(h):
    """output clipping increases the range in proportion to the clipped outputs"""
    fake.use()
    cfg = InferenceRPUConfig()
    cfg.mapping.weight_scaling_omega = 0.0
    cfg.drift_compensation = None
    cfg.forward = IOParameters(inp_res=-1, out_res=-1, out_noise=0.0, out_bound=1.0, noise_management=NM.NONE,
                               bound_management=BM.NONE)
    p = dict(gradient_relative=True, gradient_scale=1.0, decay=0.0, input_min_percentage=0.5,
             output_min_percentage=h.choice("omp", [0.95, 0.5]))
    q = cfg.pre_post.input_range
    q.enable, q.init_from_data, q.manage_output_clipping = True, 0, True
    for k, v in p.items():
        setattr(q, k, v)
    n_in, n_out = h.choice("shape", [(1, 2), (2, 1), (1, 1)])
    l = AnalogLinear(n_in, n_out, False, rpu_config=cfg)
    t = next(l.analog_tiles())
    w = h.tensor("w", (n_out, n_in))
    l.set_weights(w)
    r = set_range(h, t, 0.5, 1.0)
    l.train()
    x, g = h.tensor("x", (1, n_in), grad=True), h.tensor("g", (1, n_out))
    y = l(x)
    y.backward(g)
    out = (torch.clamp(x.detach(), -r, r) / r) @ w.t()
    ok = out.abs() < 0.999
    gm = torch.where(ok, g, torch.zeros_like(g))
    h.eq(x.grad, gm @ w, "no gradient through clipped outputs")
    h.eq(t.input_range.grad.view(()), ir_grad(x.detach(), r, gm @ w, p, ok.float().mean()), "gradient of the range")


def run_unsupported(h):
    """management of output clipping needs a product with an output bound and no other management"""
    fake.use()
    cfg = InferenceRPUConfig()
    cfg.pre_post.input_range.enable = True
    cfg.pre_post.input_range.manage_output_clipping = True
    cfg.forward.noise_management = NM.NONE
    cfg.forward.bound_management = BM.NONE
    bad = h.choice("bad", ["none", "perfect", "nm", "bm"])
    if bad == "perfect":
        cfg.forward.is_perfect = True
    if bad == "nm":
        cfg.forward.noise_management = h.choice("nm", [NM.ABS_MAX, NM.CONSTANT])
    if bad == "bm":
        cfg.forward.bound_management = BM.ITERATIVE
    if bad == "none":
        AnalogLinear(1, 1, False, rpu_config=cfg)
        h.true(True, "supported")
    else:
        h.raises(lambda: AnalogLinear(1, 1, False, rpu_config=cfg), "refused")
