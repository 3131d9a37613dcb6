"""Hardware-aware training with the torch tile: weight modifiers, clipping, remapping."""
import torch
from aihwkit.nn import AnalogLinear
from aihwkit.optim import AnalogSGD
from aihwkit.simulator.configs import TorchInferenceRPUConfig
from aihwkit.simulator.parameters.enums import WeightModifierType as MT, WeightClipType as CT, WeightRemapType as RT
from aihwkit.simulator.tiles.torch_tile import TorchSimulatorTile
from lib import perfect


def lin(h, m=2, n=2, setup=None, wr=2.0, **mp):
    bias = mp.pop("bias", False)
    cfg = perfect(TorchInferenceRPUConfig, **mp)
    if setup:
        setup(cfg)
    l = AnalogLinear(m, n, bias=bias, rpu_config=cfg)
    w = h.tensor("w", (n, m), -wr, wr)
    tile = next(l.analog_tiles())
    tile.tile.set_weights(w)
    return l, tile, w


def kinds(h):
    return h.choice("kind", [MT.NONE, MT.COPY, MT.MULT_NORMAL, MT.ADD_NORMAL])


def run_noise(h):
    """in training the product uses weights with the documented noise, in evaluation the weights; the weights stay"""
    k, rel, s = kinds(h), h.flag("rel"), 0.5
    pbs = h.flag("per_sample") if k in (MT.MULT_NORMAL, MT.ADD_NORMAL) else False

    def setup(c):
        c.modifier.type, c.modifier.std_dev, c.modifier.rel_to_actual_wmax = k, s, rel
        c.modifier.assumed_wmax, c.modifier.per_batch_sample = 2.0, pbs
    l, tile, w = lin(h, 2, 1, setup)
    w0 = w.clone()
    w.requires_grad_(False)
    x = h.tensor("x", (2, 2), -2, 2, grad=True)
    n0 = len(h.draws())
    y = l(x)
    d = h.draws()[n0:]
    wm = w0.abs().max() if rel else torch.tensor(2.0)
    wm = torch.where(wm > 0, wm, torch.ones_like(wm))
    if k in (MT.NONE, MT.COPY):
        h.true(len(d) == 0, "no noise drawn")
        wn = w0
    else:
        xi = d[0][1]
        h.true(tuple(xi.shape) == ((2, 1, 2) if pbs else (1, 2)), "one draw per weight (and sample)")
        wn = w0 + (w0 if k == MT.MULT_NORMAL else wm) * s * xi
    e = (wn * x.detach().unsqueeze(1)).sum(-1) if pbs else x.detach() @ wn.t()
    h.eq(y, e, "output in training")
    g = h.tensor("g", (2, 1), -2, 2)
    y.backward(g)
    h.eq(x.grad, (g.unsqueeze(-1) * wn).sum(1) if pbs else g @ wn, "input gradient uses the noisy weights")
    h.eq(tile.tile.weight.grad, g.t() @ x.detach(), "weight gradient passes the noise")
    h.eq(tile.tile.get_weights(), w0, "weights kept")
    l.eval()
    n0 = len(h.draws())
    h.eq(l(x.detach()), x.detach() @ w0.t(), "output in evaluation")
    h.true(len(h.draws()) == n0, "no noise in evaluation")


def run_discretize(h):
    """discretised weights: nearest (or one of the two next) levels, exact for levels, gradient straight through"""
    rel, sto = h.flag("rel"), h.flag("sto")
    res = h.choice("res", [0.5, 4.0, 0.125])

    def setup(c):
        m = c.modifier
        m.type, m.res, m.sto_round, m.rel_to_actual_wmax, m.assumed_wmax = MT.DISCRETIZE, res, sto, rel, 2.0
    l, tile, w = lin(h, 2, 1, setup)
    w0 = w.clone()
    n0 = len(h.draws())
    y = l(torch.eye(2))
    wd = y.detach().t()
    wm = w0.abs().max() if rel else torch.tensor(2.0)
    wm = torch.where(wm > 0, wm, torch.ones_like(wm))
    st = (1 / res if res > 1 else res) * 2 * wm
    if not sto:
        h.eq(wd, torch.round(w0 / st) * st, "a multiple of the step")
    h.le((wd - w0).abs(), torch.ones_like(wd) * st * (1.0 if sto else 0.5), "nearest level" if not sto else "a neighbouring level")
    if sto:
        u = h.draws()[n0:][0][1]
        h.eq(wd, torch.round(w0 / st + u - 0.5) * st, "chosen by the draw")
    g = h.tensor("g", (2, 1), -2, 2)
    y.backward(g)
    h.eq(tile.tile.weight.grad, g.t(), "weight gradient passes")
    l.eval()
    h.eq(l(torch.eye(2)).t(), w0, "output in evaluation")


def run_clip(h):
    """after an optimizer step the weights are clipped as configured, and only then"""
    k = h.choice("kind", [CT.NONE, CT.FIXED_VALUE, CT.LAYER_GAUSSIAN])
    f = h.choice("fixed", [-1.0, 0.5, 1.5])
    shape = h.choice("shape", [(1, 2), (1, 1)])

    def setup(c):
        c.clip.type, c.clip.fixed_value, c.clip.sigma = k, f, 1.5
    l, tile, w = lin(h, shape[1], shape[0], setup)
    w0 = w.clone()
    x = h.tensor("x", (1, shape[1]), -1, 1)
    opt = AnalogSGD(l.parameters(), lr=0.5)
    opt.regroup_param_groups(l)
    y = l(x)
    h.eq(tile.tile.get_weights(), w0, "a forward pass does not clip")
    g = h.tensor("g", (1, shape[0]), -1, 1)
    y.backward(g)
    opt.step()
    u = w0 - 0.5 * g.t() @ x
    if k == CT.NONE or (k == CT.FIXED_VALUE and f <= 0):
        e = u
    elif k == CT.FIXED_VALUE:
        e = u.clamp(-f, f)
    else:
        if u.numel() == 1:                                      # no deviation: only the fixed value counts
            e = u.clamp(-f, f) if f > 0 else u
        else:
            a = ((u - u.mean()) ** 2).sum().sqrt() * 1.5
            if f > 0:
                h.assume(a > 0)
                a = torch.minimum(a, torch.tensor(f))
            e = torch.where(a > 0, torch.minimum(torch.maximum(u, -a), a), u)
    h.eq(tile.tile.get_weights(), e, "weights after the step")


def run_remap(h):
    """remapping leaves weights times scales, hence outputs and biases, and fills the range of every tile (row)"""
    k = h.choice("kind", [RT.LAYERWISE_SYMMETRIC, RT.CHANNELWISE_SYMMETRIC])
    learn = h.flag("learn")

    def setup(c):
        c.remap.type = k
    l, tile, w = lin(h, 2, 2, setup, learn_out_scaling=learn, out_scaling_columnwise=True, weight_scaling_omega=1.0,
                     weight_scaling_columnwise=True, bias=True)
    w = h.tensor("v", (2, 2), -2, 2)
    b = h.tensor("b", (2,), -1, 1)
    l.set_weights(w, b)
    if learn:
        tile.set_learned_out_scales(h.tensor("o", (2,), 0.25, 2))
    w1, _ = l.get_weights()
    w1 = w1.clone()
    tile.post_update_step()
    w2, b2 = l.get_weights()
    h.eq(w2, w1, "logical weights after remapping")
    h.eq(b2, b, "bias after remapping")
    x = h.tensor("x", (1, 2), -1, 1)
    l.eval()
    h.eq(l(x), x @ w1.t() + b, "output after remapping")
    t = tile.tile.get_weights().abs()
    if k == RT.LAYERWISE_SYMMETRIC:
        h.true(torch.logical_or(t.max() == 1.0, (w1 == 0).all()), "the tile fills its range")
    else:
        h.true(torch.logical_or(t.amax(1) == 1.0, (w1 == 0).all(1)), "every row fills its range")


BAD = [("modifier", "enable_during_test", True), ("modifier", "copy_last_column", True), ("modifier", "pdrop", None),
       ("modifier", "type", MT.DOREFA), ("modifier", "type", MT.POLY), ("modifier", "type", MT.PROG_NOISE),
       ("modifier", "type", MT.PCM_NOISE), ("modifier", "type", MT.DISCRETIZE_ADD_NORMAL), ("clip", "type", CT.AVERAGE_CHANNEL_MAX),
       ("remap", "remapped_wmax", None), ("remap", "max_scale_range", None), ("remap", "max_scale_ref", None)]


def run_refused(h):
    """hardware-aware options the torch tile lacks are refused"""
    i = h.choice("what", list(range(len(BAD))))
    c = perfect(TorchInferenceRPUConfig)
    p, a, v = BAD[i]
    if v is None:
        v = h.real("v", 0.001, 0.999)
    setattr(getattr(c, p), a, v)
    h.raises(lambda: TorchSimulatorTile.check_rpu_config_support(c), f"{p}.{a} refused")
    h.raises(lambda: AnalogLinear(1, 1, rpu_config=c), f"layer with {p}.{a} refused")


def run_backward_step(h):
    """two training passes accumulate gradients with their own noise; the step moves the clean weights"""
    def setup(c):
        c.modifier.type, c.modifier.std_dev = MT.ADD_NORMAL, 0.5
    mp = h.choice("mp", [{}, dict(weight_scaling_omega=0.5, weight_scaling_columnwise=True)])
    l, tile, w = lin(h, 1, 2, setup, **mp)
    w = torch.stack([h.real("a", 0.25, 2) * torch.ones(1), h.real("b", -2, -0.25) * torch.ones(1)])
    l.set_weights(w)
    opt = AnalogSGD(l.parameters(), lr=0.25)
    opt.regroup_param_groups(l)
    u = w.clone()
    for k in range(2):
        x, g = h.tensor(f"x{k}", (1, 1), -1, 1), h.tensor(f"g{k}", (1, 2), -1, 1)
        l(x).backward(g)
        u = u - 0.25 * g.t() @ x
    opt.step()
    h.eq(l.get_weights()[0], u, "logical weights after the step")
