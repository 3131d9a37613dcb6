"""Conductance converters and statistical noise models."""
import math
import numpy as np
import torch
from aihwkit.inference.converter import conductance as C
from aihwkit.inference.converter import fusion
from aihwkit.inference.noise import pcm as PCM
from aihwkit.inference.noise.base import BaseNoiseModel
from aihwkit.inference.noise.pcm import PCMLikeNoiseModel, CustomDriftPCMLikeNoiseModel
from aihwkit.inference.noise.custom import StateIndependentNoiseModel
from aihwkit.inference.noise.hermes import HermesNoiseModel
from aihwkit.inference.noise import reram as RERAM
from aihwkit.inference.noise.reram import ReRamWan2022NoiseModel, ReRamCMONoiseModel


def interp(x, xp, fp):
    """numpy.interp on tensors"""
    if not isinstance(x, torch.Tensor):
        return np.interp(x, xp, fp)
    fp = fp.tolist() if isinstance(fp, torch.Tensor) else list(fp)
    xp = xp.tolist() if isinstance(xp, torch.Tensor) else list(xp)
    y = torch.full_like(x, fp[-1])
    for i in reversed(range(len(xp) - 1)):
        d = xp[i + 1] - xp[i]
        y = torch.where(x < xp[i + 1], (x - xp[i]) * ((fp[i + 1] - fp[i]) / d) + fp[i], y)
    return torch.where(x < xp[0], torch.full_like(x, fp[0]), y)


def from_numpy(a):
    return a if isinstance(a, torch.Tensor) else torch.from_numpy(a)


Sk = fusion.LinearRegression


class Regression(Sk):
    """sklearn.linear_model.LinearRegression for one feature"""
    def __init__(self, fit_intercept=True):
        super().__init__(fit_intercept=fit_intercept)
        self.ic = fit_intercept

    def fit(self, x, y):
        if not isinstance(x, torch.Tensor):
            return super().fit(x, y)
        x, y = x.flatten(), y.flatten()
        if self.ic:
            x, y = x - x.mean(), y - y.mean()
        d = (x * x).sum()
        self.coef_ = [[((x * y).sum() / d) if bool(d != 0) else 0.0]]
        return self


def models(h):
    if not h.sym:
        return
    h.numpy_models()
    for m in (C, PCM):
        m.interp = interp
        m.from_numpy = from_numpy
    fusion.LinearRegression = Regression
    RERAM.log10 = lambda x: torch.log(x) / math.log(10.0) if isinstance(x, torch.Tensor) else np.log10(x)


def seq(c):
    return [c] if isinstance(c, torch.Tensor) else list(c)


def gmin_gmax(h):
    return h.choice("g", [(None, None), (0.0, 40.0), (5.0, 20.0)])


PAIRS = [[1.0], [1.0, 2.0], [2.0, 1.0], [3.0, 1.0, 0.5]]


def converter(h, kinds):
    k = h.choice("conv", kinds)
    if k == "fusion":
        c = fusion.FusionConductanceConverter(h.choice("gm", [10, 40]))
        return k, c, 0.0, c.g_max
    if k == "custom":
        f, g = h.choice("lists", [
            ([1.0], [[0, 5, 10.0], [10.0, 5, 0]]),
            ([1.0, 2.0], [[0, 0, 0, 5, 10.0], [10.0, 5.0, 0, 0, 0], [0, 0, 0, 5, 10.0], [10.0, 5.0, 0, 0, 0]])])
        return k, C.CustomPairConductanceConverter(f, g, g_min=0.0, g_max=10.0), 0.0, 10.0
    lo, hi = gmin_gmax(h)
    kw = dict(g_min=lo, g_max=hi)
    if k == "pair":
        c = C.SinglePairConductanceConverter(**kw)
    elif k == "npair":
        f = h.choice("f", PAIRS)
        c = (C.DualPairConductanceConverter if len(f) == 2 and h.flag("dual") else C.NPairConductanceConverter)(f, **kw)
    else:
        c = C.SingleDeviceConductanceConverter(**kw)
    h.true(lo is None or (c.g_min == lo and c.g_max == hi), "conductance limits as given")
    return k, c, c.g_min, c.g_max


def run_convert(h):
    """a matrix converted to conductances and back is the matrix; conductances stay in their range"""
    models(h)
    k, c, lo, hi = converter(h, ["pair", "npair", "device", "custom", "fusion"])
    w = h.tensor("w", h.choice("shape", [(1, 2), (2, 1)]), -2, 2)
    w0 = w.clone()
    g, p = c.convert_to_conductances(w)
    h.eq(w, w0, "weights not changed by the conversion")
    gs = seq(g)
    for q in gs:
        h.observe(q)
        h.le(lo * torch.ones_like(q), q, "conductance not below the minimum", 1e-4)
        h.le(q, hi * torch.ones_like(q), "conductance not above the maximum", 1e-4)
    if k in ("pair", "npair"):
        for a, b in zip(gs[::2], gs[1::2]):
            for s, q in ((a, w > 0), (b, w < 0)):
                h.true(torch.logical_or(q, (s - lo).abs() <= 1e-4), "the device of the other sign stays at the minimum")
    if k == "npair":
        for i in range(len(gs) - 2):
            h.true(torch.logical_or((gs[i + 2] - lo).abs() <= 1e-4, (gs[i] - hi).abs() <= 1e-4),
                   "a more significant pair is used only when the others are exhausted")
    if k in ("pair", "npair", "fusion"):
        top = torch.stack([q.reshape(w.shape) for q in gs]).flatten(2 if k == "fusion" else 0).amax(-1)
        big = w.abs().amax(1) if k == "fusion" else w.abs().max()
        h.true(torch.logical_or(big < 1e-3, (top - hi).abs() <= 1e-3).all(), "the largest weight uses the full range")
    g0 = [q.clone() for q in gs]
    h.eq(c.convert_back_to_weights(g, p), w, "converted back")
    h.true(all(bool((a == b).all()) for a, b in zip(g0, seq(g))) if not h.sym else True, "conductances kept")


def run_linear(h):
    """changed conductances change the weights linearly: w + (dg+ - dg-) * F / scale"""
    k, c, lo, hi = converter(h, ["pair", "npair", "device"])
    w = h.tensor("w", (1, 2), 0.25, 2)
    g, p = c.convert_to_conductances(w)
    d = h.tensor("d", (2 if k != "device" else 1, 1, 2), -1, 1)
    gs = [q + d[min(i % 2, d.shape[0] - 1)] for i, q in enumerate(seq(g))]
    if k == "device":
        h.eq(c.convert_back_to_weights(g + d[0], p), w + d[0] / p["scale_ratio"], "change of the weights")
        h.eq(c.convert_back_to_weights([q for q in g + d[0]], p), w + d[0] / p["scale_ratio"], "the same from a list of rows")
        return
    f = getattr(c, "f_lst", [1.0])
    h.eq(c.convert_back_to_weights(gs, p), w + sum(f) * (d[0] - d[1]) / p["scale_ratio"], "change of the weights")
    h.eq(p["scale_ratio"], sum(f) * (hi - lo) / w.abs().max(), "scale of the conversion")


def run_refused(h):
    """wrong converter settings are refused"""
    i = h.choice("case", list(range(8)))
    f = [lambda: C.SinglePairConductanceConverter(g_max=5.0, g_min=5.0), lambda: C.SinglePairConductanceConverter(g_max=-1.0),
         lambda: C.NPairConductanceConverter([-1.0, 1.0]), lambda: C.NPairConductanceConverter((1.0, 1.0)),
         lambda: C.DualPairConductanceConverter([1.0]), lambda: fusion.FusionConductanceConverter(50),
         lambda: C.CustomPairConductanceConverter([1.0, 1.0], [[0.0, 1.0], [1.0, 0.0]]),
         lambda: C.CustomPairConductanceConverter([1.0], [[0.0, 1.0, 9.0], [9.0, 7.0, 0.0]])][i]
    h.raises(f, f"refused {i}", Exception)


def draw(h):
    """the last random draw; +-64 bounds the effect of rounded constants"""
    xi = h.draws()[-1][1]
    h.assume(xi.abs() <= 64)
    return xi


# ---- noise models: documented formulas
def poly(c, r):
    return sum(a * r ** i for i, a in enumerate(c))


def prog_model(h):
    """(model, expected sigma of the programming noise as a function of g)"""
    k = h.choice("model", ["pcm", "independent", "hermes1", "hermes2", "wan", "cmo"])
    given = h.choice("coeff", ["default", "given", "given_ref"])
    co, kw = [0.5, -0.25, 1.0], {}
    gm = h.choice("gm", [None, 10.0])
    ref = None
    if given != "default":
        kw["prog_coeff"] = co
    if given == "given_ref" and k in ("pcm", "hermes1", "hermes2"):
        kw["prog_coeff_g_max_reference"] = ref = 5.0
    sc = h.choice("scale", [1.0, 2.0])
    if k in ("pcm", "independent"):
        M = PCMLikeNoiseModel if k == "pcm" else StateIndependentNoiseModel
        m = M(g_max=gm, prog_noise_scale=sc, **kw)
        gm = gm or 25.0
        dc = [0.26348, 1.965, -1.1731] if k == "pcm" else [0.2, 0.0, 0.0]
        cc = co if given != "default" else dc
        rr = ref or (25.0 if given == "default" and k == "pcm" else gm)
        return k, m, gm, lambda g: sc * poly(cc, g / gm) * (gm / rr if k == "pcm" else 1.0)
    if k.startswith("hermes"):
        n = int(k[-1])
        m = HermesNoiseModel(num_devices=n, g_max=gm, prog_noise_scale=sc, **kw)
        top = {1: 10.35, 2: 20.7}[n]
        gm = gm or top
        dc = {2: [0.16603222, 4.71806468, -8.48101252, 4.68961419], 1: [0.15781817, 2.32443916, -2.16310839, 0.68841818]}[n]
        cc = co if given != "default" else dc
        rr = ref or (top if given == "default" else gm)
        return k, m, gm, lambda g: sc * poly(cc, g / gm) * gm / rr
    if k == "wan":
        kw = {}
        if given != "default":
            kw["coeff_dic"] = {2.0: co, 1.0: [0.25, 0.5]}
        if given == "given_ref":
            kw["coeff_g_max_reference"] = 5.0
        m = ReRamWan2022NoiseModel(g_max=gm, noise_scale=sc, **kw)
        gm = gm or 25.0
        cc = [0.25, 0.5] if given != "default" else [0.348, 16.03, -43.853, 45.393, -16.815]
        rr = 40.0 if given == "default" else 5.0 if given == "given_ref" else gm
        return k, m, gm, lambda g: sc * poly(cc, g / gm) * gm / rr
    kw = dict(coeff_dict={0.5: [0.25, 0.01], 2.0: [1.0, 2.0]}, acceptance_range=0.5) if given != "default" else {}
    m = ReRamCMONoiseModel(g_max=gm, g_min=1.0 if gm else None, prog_noise_scale=sc, **kw)
    cc = [0.25, 0.01] if given != "default" else [0.00081107, 0.00106879]
    return k, m, gm or 88.199997, lambda g: sc * poly(cc, g)


def run_prog(h):
    """programming noise: the target plus noise of documented strength, never below zero"""
    k, m, gm, sig = prog_model(h)
    h.true(abs(m.g_max - gm) < 1e-6, "maximal conductance")
    g = h.tensor("g", (2,), 0, gm)
    g0 = g.clone()
    y = m.apply_programming_noise_to_conductance(g)
    xi = draw(h)
    e = g0 + sig(g0) * xi
    h.eq(y, e if k == "cmo" else e.clamp(min=0.0), "programmed conductance")
    h.eq(g, g0, "target not changed")


def run_nu(h):
    """drift coefficients: documented mean and spread, not negative"""
    k = h.choice("model", ["pcm", "independent", "custom"])
    models(h)
    s = h.choice("scale", [1.0, 0.5])
    g = h.tensor("g", (1,), 0, 25)
    if k == "pcm":
        m = PCMLikeNoiseModel(drift_scale=s)
        l = torch.log((g / 25.0).abs().clamp(min=1e-7))
        mu, sd = (0.0244 - 0.0155 * l).clamp(0.049, 0.1), (-0.0125 * l - 0.0059).clamp(0.008, 0.045)
    elif k == "independent":
        a, b = h.choice("nu", [(0.1, 0.05), (0.06, 0.0)])
        m = StateIndependentNoiseModel(drift_nu_mean=a, drift_nu_std=b, drift_scale=s)
        mu, sd = a * torch.ones(1), b * torch.ones(1)
    else:
        gl, a, b = [0.0, 10.0, 25.0], [0.1, 0.05, 0.02], [0.01, 0.02, 0.0]
        m = CustomDriftPCMLikeNoiseModel(dict(g_lst=gl, nu_mean_lst=a, nu_std_lst=b), drift_scale=s)
        mu, sd = interp(g.clone(), gl, a), interp(g.clone(), gl, b)
    nu = m.generate_drift_coefficients(g)
    xi = draw(h)
    h.eq(nu, s * (mu + sd * xi).abs(), "drift coefficient")
    h.le(torch.zeros(1), nu, "not negative", 1e-6)


def run_drift(h):
    """drift: power law in time since programming, read noise on top, not negative, nothing at time zero without read noise"""
    k = h.choice("model", ["pcm", "independent", "hermes1", "hermes2"])
    rs = h.choice("read", [0.0, 1.0])
    kw = dict(read_noise_scale=rs)
    gm = 10.0
    m = dict(pcm=lambda: PCMLikeNoiseModel(g_max=gm, **kw), independent=lambda: StateIndependentNoiseModel(g_max=gm, **kw),
             hermes1=lambda: HermesNoiseModel(num_devices=1, g_max=gm, **kw),
             hermes2=lambda: HermesNoiseModel(num_devices=2, g_max=gm, **kw))[k]()
    t0 = {"pcm": 20.0, "independent": 20.0, "hermes1": 200.0, "hermes2": 300.0}[k]
    tr = 5.12e-7 if k.startswith("hermes") else 2.5e-7
    t = h.choice("t", [0.0, 1.0, 1e6])
    g, nu = h.tensor("g", (1,), 0.001, 10), h.tensor("nu", (1,), 0, 0.5)
    y = m.apply_drift_noise_to_conductance(g, nu, t)
    gd = g * ((t + t0) / t0) ** (-nu) if t > 0 else g
    xi = h.draws()[-1][1]
    r = g.abs() / gm
    n = math.sqrt(math.log((t + t0 + tr) / (2 * tr)))
    if k == "pcm":
        e = gd + gd * rs * (0.0088 / (r ** 0.65).clamp(min=1e-3)).clamp(max=0.2) * n * xi
    elif k == "independent":
        e = gd + gd / gm * rs * n * xi
    else:
        a, b, c, d, v, hi = ((-0.0078, 0.0038, 0.0179, 0.04, 0.1591, (0.0664, -0.1352, 0.0768, 0.0088)) if k == "hermes1" else
                             (-0.0117, -0.0069, 0.015, 0.04, 0.16, (0.0069, -0.028, 0.0211, 0.0123)))
        q = (a * torch.log(r) + b).clamp(c, d) if bool(r < v) else hi[0] * r ** 3 + hi[1] * r ** 2 + hi[2] * r + hi[3]
        e = gd + gd * rs * q * n * xi
    h.eq(y, e.clamp(min=0.0), "drifted conductance")
    if rs == 0.0:
        h.le(y, g, "without read noise a conductance never grows", 1e-5)
        if t == 0.0:
            h.eq(y, g, "no drift at time zero")


MODELS = dict(pcm=lambda c, **k: PCMLikeNoiseModel(g_converter=c, **k), independent=lambda c, **k: StateIndependentNoiseModel(g_converter=c, **k),
              hermes=lambda c, **k: HermesNoiseModel(g_converter=c, **k))


def noiseless(h, drift=0.0):
    k = h.choice("model", ["pcm", "independent", "hermes", "wan", "cmo"])
    conv = h.choice("conv", ["pair", "npair", "device"]) if k == "pcm" else "pair"
    c = dict(pair=lambda: C.SinglePairConductanceConverter(g_max=20.0, g_min=2.0),
             npair=lambda: C.NPairConductanceConverter([1.0, 3.0], g_max=20.0),
             device=lambda: C.SingleDeviceConductanceConverter(g_max=20.0, g_min=2.0))[conv]()
    if k == "wan":
        return k, ReRamWan2022NoiseModel(g_converter=c, noise_scale=0.0)
    if k == "cmo":
        return k, ReRamCMONoiseModel(prog_noise_scale=0.0, read_noise_scale=0.0, drift_scale=0.0)
    return k, MODELS[k](c, prog_noise_scale=0.0, read_noise_scale=0.0, drift_scale=drift)


def run_off(h):
    """with all noise switched off, programming and drift change nothing"""
    models(h)
    k, m = noiseless(h)
    w = torch.cat([h.tensor("w", (1, 1), -1, 1), torch.ones(1, 1)], 1)
    t = h.choice("t", [0.0, 86400.0])
    if k == "wan" and t == 0.0:
        return
    p, nu = m.apply_programming_noise(w)
    h.eq(p, w, "programmed weights")
    h.eq(m.apply_drift_noise(p, nu, t), w, "drifted weights")
    h.eq(m.apply_noise(w, t), w, "weights with noise applied at once")


def run_slices(h):
    """every conductance of a unit cell gets its own drift coefficient, whatever the time"""
    conv = h.choice("conv", ["pair", "npair"])
    f = [1.0] if conv == "pair" else [1.0, 3.0]
    c = C.SinglePairConductanceConverter(g_max=20.0) if conv == "pair" else C.NPairConductanceConverter(f, g_max=20.0)
    m = StateIndependentNoiseModel(g_converter=c, prog_noise_scale=0.0, read_noise_scale=0.0, t_0=1.0)
    w = torch.cat([h.tensor("w", (1, 1), -1, 1), torch.ones(1, 1)], 1)
    p, nu = m.apply_programming_noise(w)
    xi = [t for k, t in h.draws()][1::2]
    h.true(len(nu) == 2 * len(f) == len(xi), "one coefficient per conductance")
    gs, par = c.convert_to_conductances(w)
    y = m.apply_drift_noise(p, nu, 3.0)
    gd = [g * 4.0 ** (-(0.1 + 0.05 * x).abs()) for g, x in zip(gs, xi)]
    h.eq(y, c.convert_back_to_weights(gd, par), "drifted weights")


class Own(BaseNoiseModel):
    """a noise model as a user writes it: an error per programmed device, coefficients that depend on the target"""
    def __init__(self, h, conv):
        super().__init__(conv)
        self.h, self.errors = h, []

    def apply_programming_noise_to_conductance(self, g_target):
        self.errors.append(self.h.tensor(f"e{len(self.errors)}", tuple(g_target.shape), -1, 1))
        return g_target + self.errors[-1]

    def generate_drift_coefficients(self, g_target):
        return 1.0 + g_target / 8

    def apply_drift_noise_to_conductance(self, g_prog, nu, t):
        return g_prog * nu * t


def run_own(h):
    """user-defined models: coefficients come from the targets, drift acts on what was programmed, pair by pair"""
    f = h.choice("f", [[1.0], [1.0, 3.0]])
    c = C.SinglePairConductanceConverter(g_max=4.0, g_min=1.0) if len(f) == 1 else C.NPairConductanceConverter(f, g_max=4.0, g_min=1.0)
    m = Own(h, c)
    w = torch.cat([h.tensor("w", (1, 1), -1, 1), torch.ones(1, 1)], 1)
    gs, p = c.convert_to_conductances(w)
    t = h.choice("t", [0.0, 2.0])
    if h.flag("at_once"):
        y = m.apply_noise(w, t)
        e = [g + d for g, d in zip(gs, m.errors)]
        if t > 0:
            e = [q * (1.0 + g / 8) * t for q, g in zip(e, gs)]
        h.eq(y, c.convert_back_to_weights(e, p), "noise applied at once")
    else:
        y, nu = m.apply_programming_noise(w)
        h.eq(y, c.convert_back_to_weights([g + d for g, d in zip(gs, m.errors)], p), "programmed weights")
        h.true(len(nu) == len(gs), "one coefficient per conductance")
        for a, g in zip(nu, gs):
            h.eq(a, 1.0 + g / 8, "coefficients of the targets")
        v = w * 0.5
        ks, q = c.convert_to_conductances(v)
        h.eq(m.apply_drift_noise(v, nu, t), c.convert_back_to_weights([k * a * t for k, a in zip(ks, nu)], q), "drifted weights")
    h.true(len(m.errors) == len(gs), "every device programmed once")
