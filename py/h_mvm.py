"""The analog matrix-vector product of the PyTorch tile against its documented chain."""
import torch
from aihwkit.simulator.configs import TorchInferenceRPUConfig
from aihwkit.simulator.parameters import IOParameters
from aihwkit.simulator.parameters.enums import (BoundManagementType as BM, NoiseManagementType as NM, AnalogMVType)
from aihwkit.simulator.tiles.analog_mvm import AnalogMVM
from aihwkit.simulator.tiles.torch_tile import TorchSimulatorTile


def plain():
    io = IOParameters()
    io.inp_res = io.out_res = -1
    io.inp_bound, io.out_bound = 1.0, 4.0
    io.out_noise = io.inp_noise = 0.0
    io.bound_management, io.noise_management = BM.NONE, NM.NONE
    return io


class Draws:
    """the random draws the product made, taken by kind and shape"""

    def __init__(self, h):
        self.d = h.draws()

    def take(self, kind, shape):
        for i, (k, t) in enumerate(self.d):
            if k == kind and tuple(t.shape) == tuple(shape):
                return self.d.pop(i)[1]
        raise AssertionError(f"no {kind} draw of shape {shape}")


def quant(v, res, bound, sto, dr):
    if res <= 0:
        return v
    r = (1 / res if res > 1.0 else res) * 2 * bound
    u = v / r
    if sto:
        u = u + (dr.take("uniform", v.shape) - 0.5)
    return torch.round(u) * r


def ref_mvm(h, w, x, io, trans=False, noise_values=None, dr=None):
    """batch of rows; bound management for a single row"""
    dr = dr or Draws(h)
    wt = w if trans else w.t()
    if io.noise_management == NM.ABS_MAX:
        s = x.abs().amax(-1, keepdim=True)
    elif io.noise_management == NM.MAX:
        s = x.amax(-1, keepdim=True)
    elif io.noise_management == NM.CONSTANT:
        s = torch.ones(x.shape[0], 1) * (io.nm_thres if io.nm_thres > 0 else 1.0)
    else:
        s = torch.ones(x.shape[0], 1)
    if io.noise_management in (NM.ABS_MAX, NM.MAX) and io.nm_thres > 0:
        s = torch.minimum(s, torch.full_like(s, io.nm_thres))
    s = torch.where(s > 0, s, torch.ones_like(s))
    red = 1.0
    ires = 0.0
    if io.inp_res > 0:
        ires = (1 / io.inp_res if io.inp_res > 1 else io.inp_res) * 2 * io.inp_bound
    while True:
        v = quant(x / s / red, io.inp_res, io.inp_bound, io.inp_sto_round, dr)
        if io.inp_bound > 0:
            v = torch.clamp(v, -io.inp_bound, io.inp_bound)
        if io.inp_noise > 0:
            v = v + io.inp_noise * dr.take("gauss", v.shape)
        if io.inp_asymmetry != 0:
            v = torch.where(v < 0, v * (1 - io.inp_asymmetry), v)
        o = v @ wt
        if io.out_asymmetry != 0:
            o = torch.where(o < 0, o * (1 - io.out_asymmetry), o)
        if noise_values is not None:
            o = o + noise_values.view(1, -1) * dr.take("gauss", o.shape)
        elif io.out_noise > 0:
            o = o + io.out_noise * dr.take("gauss", o.shape)
        o = quant(o, io.out_res, io.out_bound, io.out_sto_round, dr)
        over = (o > io.out_bound).any() if io.out_bound > 0 else torch.tensor(False)
        under = (o < -io.out_bound).any() if io.out_bound > 0 else torch.tensor(False)
        if io.out_bound > 0:
            o = torch.clamp(o, -io.out_bound, io.out_bound)
        if io.bound_management == BM.NONE:
            break
        if not bool(over | under):
            break
        if red > io.max_bm_factor or (ires > 0 and red > io.max_bm_res / ires):
            break
        red *= 2.0
    return o * s * red * io.out_scale


def go(h, io, n=1, o=2, i=2, xr=2.0, wr=1.0, trans=False, noise_values=None, x=None, w=None, ident="output"):
    w = h.tensor("w", (o, i), -wr, wr) if w is None else w
    x = h.tensor("x", (n, o if trans else i), -xr, xr) if x is None else x
    kw = {} if noise_values is None else dict(out_noise_values=noise_values)
    x0, w0 = x.clone(), w.clone()
    before = len(h.draws())
    y = AnalogMVM.matmul(w, x, io, trans=trans, **kw)
    d = Draws(h)
    d.d = d.d[before:]
    zero = io.noise_management in (NM.ABS_MAX, NM.MAX) and io.inp_noise <= 0 and bool((x.abs().amax() == 0)) \
        if io.noise_management == NM.ABS_MAX else False
    if zero:
        h.eq(y, torch.zeros_like(y), "a zero input gives a zero output")
    else:
        r = ref_mvm(h, w, x, io, trans, noise_values, d)
        h.eq(y, r, ident)
    h.observe(y)
    h.eq(x, x0, "input unchanged")
    h.eq(w, w0, "weights unchanged")
    return y


def run_perfect(h):
    """perfect and ideal products ignore every other setting"""
    io = plain()
    io.inp_res, io.out_res, io.inp_noise, io.out_noise, io.out_asymmetry, io.inp_asymmetry = 0.5, 0.25, 0.5, 0.5, 0.5, 0.5
    io.out_scale, io.bound_management, io.noise_management = 4.0, BM.ITERATIVE, NM.ABS_MAX
    if h.flag("ideal"):
        io.mv_type = AnalogMVType.IDEAL
    else:
        io.is_perfect = True
    tr = h.flag("trans")
    w, x = h.tensor("w", (2, 3)), h.tensor("x", (2, 2 if tr else 3))
    y = AnalogMVM.matmul(w, x, io, trans=tr, is_test=h.flag("test"))
    h.eq(y, x @ w if tr else x @ w.t(), "perfect product is exact")
    w3 = h.tensor("w3", (2, 2, 3))
    x3 = x
    y = AnalogMVM.matmul(w3, x3, io, trans=tr)
    h.eq(y, torch.stack([x3[k] @ (w3[k] if tr else w3[k].t()) for k in range(2)]), "one weight matrix per sample")


def run_linear(h):
    """no bounds reached, no noise, no converters: the exact product whatever the noise management"""
    io = plain()
    io.noise_management = h.choice("nm", [NM.NONE, NM.ABS_MAX, NM.CONSTANT, NM.MAX])
    io.inp_bound = 0.0 if io.noise_management != NM.ABS_MAX else h.choice("ib", [0.0, 1.0])
    io.out_bound = h.choice("ob", [0.0, 16.0])
    io.nm_thres = h.choice("thr", [0.0, 0.5]) if io.noise_management == NM.CONSTANT else 0.0
    io.bound_management = h.choice("bm", [BM.NONE, BM.ITERATIVE])
    io.out_scale = h.choice("os", [1.0, 0.5])
    tr = h.flag("trans")
    dyn = io.noise_management in (NM.ABS_MAX, NM.MAX)
    w, x = h.tensor("w", (2, 2), -2, 2, grad=True), h.tensor("x", (1 if dyn else 2, 2), -2, 2, grad=True)
    if dyn:
        h.assume(x.amax(-1) > 0.5)
    if io.out_bound:
        h.assume((x @ (w if tr else w.t())).abs() < 8)
        if io.noise_management in (NM.ABS_MAX, NM.MAX):
            h.assume(w.abs() < 2)
    y = AnalogMVM.matmul(w, x, io, trans=tr)
    h.observe(y)
    h.eq(y, io.out_scale * (x @ (w if tr else w.t())), "exact product")


def run_linear_grad(h):
    """without converters, noise and saturation the gradients are those of the exact product"""
    io = plain()
    io.noise_management = h.choice("nm", [NM.NONE, NM.ABS_MAX, NM.CONSTANT])
    io.inp_bound = 0.0
    io.out_bound = 0.0
    io.bound_management = h.choice("bm", [BM.NONE, BM.ITERATIVE])
    io.nm_thres = 0.5 if io.noise_management == NM.CONSTANT else 0.0
    w, x = h.tensor("w", (2, 2), -2, 2, grad=True), h.tensor("x", (1, 2), -2, 2, grad=True)
    if io.noise_management == NM.ABS_MAX:
        h.assume(x[:, 0].abs() > x[:, 1].abs())
    g = h.tensor("g", (1, 2))
    AnalogMVM.matmul(w, x, io).backward(g)
    h.eq(w.grad, g.t() @ x.detach(), "weight gradient")
    h.eq(x.grad, g @ w.detach(), "input gradient")


def run_dac(h):
    io = plain()
    io.inp_res = h.choice("res", [0.25, 4.0])
    io.inp_bound = h.choice("ib", [1.0, 0.5])
    io.inp_sto_round = h.flag("sto")
    go(h, io, n=1, o=1, i=2, w=torch.tensor([[0.5, -1.0]]))


def run_adc(h):
    io = plain()
    io.inp_bound = 0.0
    io.out_res = h.choice("res", [0.25, 4.0])
    io.out_bound = h.choice("ob", [1.0, 0.5])
    io.out_sto_round = h.flag("sto")
    go(h, io, n=1, o=2, i=1, w=torch.tensor([[0.5], [-1.0]]))


def run_both(h):
    io = plain()
    io.inp_res, io.out_res = 0.25, 0.125
    io.noise_management = h.choice("nm", [NM.NONE, NM.ABS_MAX])
    go(h, io, n=1, o=1, i=2, w=torch.tensor([[0.75, -1.0]]))


def run_nm(h):
    io = plain()
    io.noise_management = h.choice("nm", [NM.ABS_MAX, NM.CONSTANT, NM.MAX])
    io.nm_thres = h.choice("thr", [0.0, 0.5])
    io.inp_bound = h.choice("ib", [1.0, 0.0])
    io.out_bound = h.choice("ob", [4.0, 0.0])
    w, x = h.tensor("w", (1, 2)), h.tensor("x", (2, 2))
    if io.noise_management == NM.MAX:
        h.assume(x.amax(-1) > 0)
    go(h, io, n=2, o=1, i=2, w=w, x=x)


def run_noise(h):
    io = plain()
    io.inp_noise = h.choice("inp", [0.0, 0.5])
    io.out_noise = h.choice("out", [0.0, 0.25])
    io.inp_asymmetry, io.out_asymmetry = h.choice("asym", [(0.0, 0.0), (0.25, 0.0), (0.0, 0.5), (0.25, -0.5)])
    nv = h.tensor("nv", (2,), 0, 1) if h.flag("perline") else None
    go(h, io, n=2, o=2, i=1, w=torch.tensor([[0.5], [-1.5]]), noise_values=nv)


def run_trans(h):
    io = plain()
    io.inp_asymmetry, io.out_asymmetry = 0.25, 0.5
    io.noise_management = h.choice("nm", [NM.NONE, NM.ABS_MAX])
    go(h, io, n=1, o=2, i=3 if io.noise_management == NM.NONE else 2, trans=True, wr=2.0)


def run_bm(h):
    """bound management halves the input until nothing clips, or a limit is reached"""
    io = plain()
    io.bound_management = BM.ITERATIVE
    io.noise_management = h.choice("nm", [NM.NONE, NM.ABS_MAX, NM.CONSTANT])
    io.nm_thres = 0.5 if io.noise_management == NM.CONSTANT else 0.0
    io.inp_bound = h.choice("ib", [0.0, 1.0])
    io.out_bound = 1.0
    io.out_scale = h.choice("os", [1.0, 2.0])
    lim = h.choice("lim", ["none", "factor", "res"])
    if lim == "factor":
        io.max_bm_factor = 2
    if lim == "res":
        io.inp_res, io.inp_bound, io.max_bm_res = 0.25, 1.0, h.choice("bmr", [0.5, 1.0])
    go(h, io, n=1, o=2, i=1, xr=4.0, w=torch.tensor([[2.0], [-1.5]]))


def run_bm_res(h):
    io = plain()
    io.bound_management = BM.ITERATIVE
    io.out_bound, io.inp_bound = 1.0, h.choice("ib", [1.0, 0.5])
    io.inp_res, io.max_bm_res = h.choice("res", [(0.25, 0.5), (4.0, 1.0), (0.125, 0.5)])
    go(h, io, n=1, o=1, i=1, xr=2.0, w=torch.tensor([[8.0]]))


def run_sat(h):
    """with bounds, outputs never exceed the output bound (before the scales are undone)"""
    io = plain()
    io.out_res = h.choice("ores", [-1, 0.25])
    io.out_noise = 0.5
    io.out_bound = 1.0
    y = go(h, io, n=1, o=2, i=1, w=torch.tensor([[2.0], [-3.0]]))
    h.le(y.abs(), torch.ones_like(y), "within the output bound")


def run_tile(h):
    """the tile uses its forward settings, in training and evaluation, and draws per-line noise once"""
    cfg = TorchInferenceRPUConfig()
    cfg.forward = plain()
    cfg.forward.out_noise = 0.5
    cfg.forward.out_noise_std = h.choice("std", [0.0, 0.25, 2.0])
    t = TorchSimulatorTile(2, 3, cfg)
    d0 = h.draws()
    w = h.tensor("w", (3, 2))
    t.set_weights(w)
    h.eq(t.get_weights(), w, "weights")
    if cfg.forward.out_noise_std > 0:
        g = d0[-1][1]
        h.eq(t.out_noise_values, (0.5 * (1 + cfg.forward.out_noise_std * g)).abs(), "per-line noise strength")
    for k in range(2):
        x = h.tensor(f"x{k}", (2, 2), -0.5, 0.5)
        n0 = len(h.draws())
        y = t(x, is_test=h.flag(f"test{k}"))
        d = Draws(h)
        d.d = d.d[n0:]
        nv = (0.5 * (1 + cfg.forward.out_noise_std * d0[-1][1])).abs() if cfg.forward.out_noise_std > 0 else None
        h.eq(y, ref_mvm(h, w, x, cfg.forward, False, nv, d), "tile output")


def run_unsupported(h):
    """settings the PyTorch tile does not implement are refused, not silently ignored"""
    io = plain()
    bad = h.choice("what", [("w_noise", 0.5), ("ir_drop", 0.5), ("out_nonlinearity", 0.5), ("slope_calibration", 0.5),
                            ("v_offset_std", 0.5), ("v_offset_w_min", 0.5), ("r_series", 0.5),
                            ("w_read_asymmetry_dtod", 0.5), ("bound_management", BM.SHIFT),
                            ("noise_management", NM.AVERAGE_ABS_MAX), ("noise_management", NM.ABS_MAX_NP_SUM),
                            ("mv_type", AnalogMVType.POS_NEG_SEPARATE)])
    v = bad[1]
    if isinstance(v, float):
        v = h.real("v", 0.001, 2)
    setattr(io, bad[0], v)
    h.raises(lambda: AnalogMVM.check_support(io), f"{bad[0]} refused")
