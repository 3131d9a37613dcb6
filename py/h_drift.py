"""Programming, drift and drift compensation of inference tiles, with an arbitrary noise model."""
import torch
import fake
from aihwkit.nn import AnalogLinear, AnalogConv2d, AnalogSequential
from aihwkit.inference.noise.base import BaseNoiseModel
from aihwkit.inference.compensation.drift import (GlobalDriftCompensation, GlobalDriftCompensationWithExactReference,
                                                  PerColumnDriftCompensation)
from aihwkit.simulator.configs import InferenceRPUConfig, TorchInferenceRPUConfig
from lib import perfect

T = [0.0, 10.0, 100.0]


class Model(BaseNoiseModel):
    """any noise model: programming adds arbitrary numbers, drift multiplies by an arbitrary factor per weight and time"""
    def __init__(self, h, drift=None, prog=True):
        self.h, self.prog, self.fac, self.drift, self.n = h, prog, {}, drift, 0

    def __deepcopy__(self, memo):
        return self

    def apply_programming_noise(self, weights):
        self.n += 1
        e = self.h.tensor(f"prog{self.n}", weights.shape, -0.125, 0.125) if self.prog else torch.zeros(weights.shape)
        nu = self.h.tensor(f"nu{self.n}", weights.shape, 0.25, 1)
        self.last = (weights.clone(), weights + e, nu)
        return weights + e, [nu]

    def apply_drift_noise(self, weights, drift_noise_parameters, t_inference):
        assert len(drift_noise_parameters) == 1
        return weights * self.factor(drift_noise_parameters[0], t_inference)

    def factor(self, nu, t):
        if self.drift is not None:
            return self.drift[t] * torch.ones(nu.shape)
        return {0.0: torch.ones(nu.shape), 10.0: nu, 100.0: nu * nu}[t]


COMP = dict(none=lambda: None, glob=GlobalDriftCompensation, exact=GlobalDriftCompensationWithExactReference,
            column=PerColumnDriftCompensation)


def config(h, comp=("none", "glob", "exact", "column"), kinds=(InferenceRPUConfig, TorchInferenceRPUConfig), **mp):
    fake.use()
    c = perfect(h.choice("cfg", list(kinds)), **mp)
    k = h.choice("comp", list(comp))
    c.drift_compensation = COMP[k]()
    return k, c


def readout(k, w):
    m = w.abs().mean() if k != "column" else w.abs().mean(1)
    return torch.maximum(m, torch.full_like(m, 0.0001))


def tile_of(l):
    return next(l.analog_tiles())


def weights(h, n=2, m=1, name="w"):
    """no weight is zero or changes its sign"""
    return h.tensor(name, (n, m), 1.125, 2) * torch.tensor([[1.0, -1.0][(i + j) % 2] for i in range(n) for j in range(m)]).view(n, m)


def run_compensate(h):
    """drifted weights, the compensation factor, and where it is applied"""
    sc = h.flag("scaled")
    k, c = config(h, **(dict(weight_scaling_omega=0.5, weight_scaling_columnwise=True) if sc else {}))
    c.noise_model = m = Model(h)
    bias = h.flag("bias")
    l = AnalogLinear(1, 2, bias=bias, rpu_config=c)
    w = weights(h)
    b = torch.tensor([0.5, -1.0]) if bias else torch.zeros(2)
    l.set_weights(w, b if bias else None)
    t = tile_of(l)
    s = (t.get_scales().view(-1, 1).clone() if t.get_scales() is not None else torch.ones(2, 1))
    w0 = t.tile.get_weights().clone()
    l.eval()
    l.program_analog_weights()
    ref, pw, nu = m.last
    h.eq(ref, w0, "programmed from the weights of the tile")
    x = h.tensor("x", (2, 1), -1, 1)
    h.eq(l(x), x @ (s * pw).t() + b, "output after programming")
    h.eq(t.alpha, torch.ones(1), "no compensation right after programming")
    tt = h.choice("t", T)
    l.drift_analog_weights(tt)
    dw = pw * m.factor(nu, tt)
    h.eq(t.tile.get_weights(), dw, "drifted weights")
    a = torch.ones(1)
    if k != "none":
        a = readout(k, w0 if k == "exact" else pw) / readout(k, dw)
        h.eq(t.alpha.flatten(), a.flatten(), "compensation factor")
    h.eq(l(x), (x @ (s * dw).t()) * a + b, "output in evaluation")
    l.train()
    h.eq(l(x), x @ (s * dw).t() + b, "training output is not compensated")


def run_history(h):
    """drift depends on the time since programming, not on earlier drifts; programming again starts over"""
    k, c = config(h, comp=("none", "glob", "column"), kinds=(InferenceRPUConfig, TorchInferenceRPUConfig))
    c.noise_model = m = Model(h)
    l = AnalogLinear(1, 2, bias=False, rpu_config=c)
    t = tile_of(l)
    w = weights(h)
    l.set_weights(w)
    l.eval()
    first = h.choice("first", ["program", "drift"])
    if first == "program":
        l.program_analog_weights()
    else:
        l.drift_analog_weights(100.0)                      # programs on its own
    ref, pw, nu = m.last
    h.eq(ref, w, "programmed from the weights of the tile")
    l.drift_analog_weights(10.0)
    if h.flag("back"):
        l.drift_analog_weights(100.0)
        l.drift_analog_weights(10.0)
    dw = pw * nu
    h.eq(t.tile.get_weights(), dw, "weights at the last time")
    if k != "none":
        h.eq(t.alpha.flatten(), (readout(k, pw) / readout(k, dw)).flatten(), "factor at the last time")
    h.true(m.n == 1, "programmed once")
    again = h.choice("again", ["reference", "current", "set"])
    if again == "set":
        v = weights(h, name="v")
        l.set_weights(v)
        h.eq(t.alpha.flatten()[:1], torch.ones(1), "no compensation of new weights")
        h.eq(l(torch.eye(1)).t(), v, "output of new weights")
        l.drift_analog_weights(0.0)
        h.true(m.n == 2, "new weights are programmed before they drift")
        h.eq(m.last[0], v, "programmed from the new weights")
    elif again == "reference":
        l.program_analog_weights()
        h.eq(m.last[0], w, "programmed from the reference")
    else:
        t.program_weights(from_reference=False)
        h.eq(m.last[0], dw, "programmed from the current weights")
    h.eq(l(torch.eye(1)).t(), m.last[1], "output after programming again")
    l.drift_analog_weights(10.0)
    ref, pw, nu = m.last
    a = readout(k, pw) / readout(k, pw * nu) if k != "none" else torch.ones(1)
    h.eq(l(torch.eye(1)).t(), pw * nu * a.view(-1, 1), "output after drifting again")


def run_uniform(h):
    """weights that all drift by the same factor are fully compensated"""
    k, c = config(h, comp=("glob", "column"))
    f = h.real("f", 0.25, 1)
    c.noise_model = Model(h, drift={0.0: 1.0, 10.0: f, 100.0: f * f}, prog=False)
    l = AnalogLinear(2, 2, bias=False, rpu_config=c)
    w = weights(h, 2, 2)
    l.set_weights(w)
    l.eval()
    l.drift_analog_weights(h.choice("t", T))
    x = h.tensor("x", (1, 2), -1, 1)
    h.eq(l(x), x @ w.t(), "compensated output")


def run_conv(h):
    """compensation per column scales the output channels of convolutions"""
    k, c = config(h, comp=("glob", "column"))
    c.noise_model = m = Model(h)
    l = AnalogConv2d(1, 2, (1, 1), bias=False, rpu_config=c)
    if h.flag("indexed"):
        if isinstance(c, TorchInferenceRPUConfig):
            return
        l.use_indexed = True
    w = weights(h, 2, 1)
    l.set_weights(w.reshape(l.get_weights()[0].shape))
    l.eval()
    l.drift_analog_weights(10.0)
    _, pw, nu = m.last
    dw = pw * nu
    a = (readout(k, pw) / readout(k, dw)).view(-1, 1)
    x = h.tensor("x", (1, 1, 1, 2), -1, 1)
    e = (dw * a) @ x.reshape(1, 2)
    h.eq(l(x).reshape(2, 2), e, "output of the convolution")


def run_zero(h):
    """weights that are (almost) zero do not blow up the compensation"""
    k, c = config(h, comp=("glob", "exact", "column"))
    c.noise_model = Model(h, prog=False)
    l = AnalogLinear(1, 2, bias=False, rpu_config=c)
    w = h.tensor("w", (2, 1), -0.00005, 0.00005)
    l.set_weights(w)
    l.eval()
    l.drift_analog_weights(10.0)
    h.eq(tile_of(l).alpha.flatten()[:1], torch.ones(1), "no compensation of zero weights")


def run_trans(h):
    """tiles used transposed are compensated by their outputs too"""
    fake.use()
    from aihwkit.simulator.tiles.inference import InferenceTile
    c = perfect(InferenceRPUConfig)
    k = h.choice("comp", ["glob", "exact", "column"])
    c.drift_compensation = COMP[k]()
    c.noise_model = m = Model(h)
    it, ot = h.choice("trans", [(True, False), (False, True), (True, True)])
    t = InferenceTile(2, 1, c, False, it, ot)
    w = weights(h)
    t.set_weights(w)
    t.eval()
    t.drift_weights(10.0)
    ref, pw, nu = m.last
    dw = pw * nu
    a = readout(k, w if k == "exact" else pw) / readout(k, dw)
    h.eq(t.alpha.flatten(), a.flatten(), "compensation factor")


def run_model(h):
    """programming, drifting and their arguments reach every tile of a model"""
    k, c = config(h, comp=("glob",))
    mp = h.choice("size", [0, 1])
    c.mapping.max_input_size = c.mapping.max_output_size = mp
    c.noise_model = Model(h)
    ls = [AnalogLinear(1, 2, bias=False, rpu_config=c), AnalogLinear(2, 1, bias=False, rpu_config=c)]
    if mp:
        from aihwkit.nn import AnalogLinearMapped
        ls = [AnalogLinearMapped(1, 2, bias=False, rpu_config=c), AnalogLinearMapped(2, 1, bias=False, rpu_config=c)]
    net = AnalogSequential(*ls)
    net.eval()
    for n, l in enumerate(ls):
        l.set_weights(weights(h, *((2, 1) if n == 0 else (1, 2)), name=f"w{n}"))
    tiles = [t for l in ls for t in l.analog_tiles()]
    ref = [t.tile.get_weights().clone() for t in tiles]
    log = []
    m = Model(h)
    base = m.apply_programming_noise

    def rec(weights):
        r = base(weights)
        log.append(m.last)
        return r
    m.apply_programming_noise = rec
    net.program_analog_weights(noise_model=m)
    h.true(len(log) == len(tiles), "every tile programmed once")
    net.drift_analog_weights(10.0)
    for t, r, (a, b, nu) in zip(tiles, ref, log):
        h.eq(a, r, "programmed from the weights of the tile")
        h.eq(t.tile.get_weights(), b * nu, "drifted weights of every tile")
        h.eq(t.alpha, readout("glob", b) / readout("glob", b * nu), "compensation factor of every tile")


def run_state(h):
    """a drifted tile can be saved and loaded into a fresh layer, which then behaves the same"""
    k, c = config(h, comp=("glob", "column", "none"))
    c.noise_model = m = Model(h)
    l = AnalogLinear(1, 2, bias=False, rpu_config=c)
    w = weights(h)
    l.set_weights(w)
    l.eval()
    l.drift_analog_weights(10.0)
    _, pw, nu = m.last
    sd = l.state_dict()
    n = AnalogLinear(1, 2, bias=False, rpu_config=c)
    n.eval()
    if h.flag("used"):
        n.drift_analog_weights(100.0)
    n.load_state_dict(sd)
    a = (readout(k, pw) / readout(k, pw * nu)).view(-1, 1) if k != "none" else 1.0
    h.eq(n(torch.eye(1)).t(), pw * nu * a, "output of the loaded layer")
    m.n = 9
    n.drift_analog_weights(100.0)
    h.true(m.n == 10, "loaded weights are programmed before they drift")
    h.eq(m.last[0], pw * nu, "programmed from the loaded weights")
    _, p2, nu2 = m.last
    d2 = p2 * nu2 * nu2
    a = (readout(k, p2) / readout(k, d2)).view(-1, 1) if k != "none" else 1.0
    h.eq(n(torch.eye(1)).t(), d2 * a, "output after further drift")
    h.eq(l(torch.eye(1)).t(), pw * nu * ((readout(k, pw) / readout(k, pw * nu)).view(-1, 1) if k != "none" else 1.0),
         "the saved layer is not affected")
