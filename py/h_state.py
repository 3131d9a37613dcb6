"""Saving, loading and copying of analog layers."""
import copy
import torch
import fake
from aihwkit.nn import AnalogLinear, AnalogLinearMapped, AnalogConv2d
from aihwkit.optim import AnalogSGD
from aihwkit.simulator.configs import InferenceRPUConfig, TorchInferenceRPUConfig, SingleRPUConfig, FloatingPointRPUConfig
from aihwkit.simulator.configs.devices import ConstantStepDevice
from aihwkit.simulator.tiles.custom import CustomRPUConfig
from lib import perfect

KINDS = [InferenceRPUConfig, TorchInferenceRPUConfig, CustomRPUConfig,
         lambda: SingleRPUConfig(device=ConstantStepDevice()), FloatingPointRPUConfig]
OPTS = [{}, dict(weight_scaling_omega=0.5, weight_scaling_columnwise=True), dict(learn_out_scaling=True, out_scaling_columnwise=True)]


def make(h, k, opts, m=1, n=2, bias=True, cls=AnalogLinear):
    c = KINDS[k]()
    for a in ("forward", "backward"):
        if hasattr(c, a):
            getattr(c, a).is_perfect = True
    if hasattr(c, "drift_compensation"):
        c.drift_compensation = None
    for a, v in opts.items():
        setattr(c.mapping, a, v)
    return cls(m, n, bias=bias, rpu_config=c)


def fill(h, l, p="", m=1, n=2):
    w = h.tensor(p + "w", (n, m), 0.25, 2) * torch.tensor([[1.0, -1.0][(i + j) % 2] for i in range(n) for j in range(m)]).view(n, m)
    b = h.tensor(p + "b", (n,), -1, 1)
    l.set_weights(w, b)
    for t in l.analog_tiles():
        if t.rpu_config.mapping.learn_out_scaling:
            t.set_learned_out_scales(h.tensor(p + "o", (n,), 0.25, 2))
    w, b = l.get_weights()
    return w.clone(), b.clone()


def options(h, kinds=5):
    fake.use()
    k = h.choice("kind", list(range(kinds)))
    return k, h.choice("opt", OPTS)


def scales(l):
    s = [t.get_scales() for t in l.analog_tiles()]
    return [q.clone() for q in s if q is not None]


def same(h, l, w, b, x, what):
    v, c = l.get_weights()
    h.eq(v, w, what + ": weights")
    h.eq(c, b, what + ": bias")
    was = l.training
    l.eval()
    h.eq(l(x), x @ w.t() + b, what + ": output")
    l.train(was)


def train_step(h, l, opt, p, m=1, n=2):
    x, g = h.tensor(p + "x", (1, m), -1, 1), h.tensor(p + "g", (1, n), -1, 1)
    opt.zero_grad()
    l.train()
    l(x).backward(g)
    opt.step()
    return x, g


def copied(how, l):
    if how == "deepcopy":
        return copy.deepcopy(l)
    sd = l.state_dict()
    if how == "deepcopy_state":
        sd = copy.deepcopy(sd)
    return sd


def run_copy(h):
    """a copy equals its source and is independent of it in both directions"""
    k, o = options(h)
    l = make(h, k, o)
    w, b = fill(h, l)
    x = h.tensor("x", (1, 1), -1, 1)
    how = h.choice("how", ["deepcopy", "load", "deepcopy_state"])
    if how == "deepcopy":
        n = copy.deepcopy(l)
    else:
        n = make(h, k, o)
        fill(h, n, "n")
        n.load_state_dict(copied(how, l))
    same(h, n, w, b, x, "copy")
    same(h, l, w, b, x, "source")
    for s, t in zip(scales(l), scales(n)):
        h.eq(t, s, "scales of the copy")
    first, second = (n, l) if h.flag("copy_first") else (l, n)
    opt = AnalogSGD(first.parameters(), lr=0.25)
    opt.regroup_param_groups(first)
    x1, g1 = train_step(h, first, opt, "s")
    same(h, second, w, b, x, "the other after a step")
    if not o.get("learn_out_scaling"):
        v, c = first.get_weights()
        s = scales(first)
        u = w - 0.25 * (g1.t() @ x1) * 1.0
        h.eq(v, u, "weights after a step")
        h.eq(c, b - 0.25 * g1.flatten(), "bias after a step")
    t1, t2 = next(first.analog_tiles()), next(second.analog_tiles())
    h.true(t1.rpu_config is not t2.rpu_config and t1.rpu_config.mapping is not t2.rpu_config.mapping, "own configuration")
    h.true(t1.analog_ctx.analog_tile is t1 and t2.analog_ctx.analog_tile is t2, "own context")


def run_hidden(h):
    """the weights inside compound devices are part of the state"""
    fake.use()
    fake.FakeTile.compound = True
    try:
        l = make(h, 3, {})
        fill(h, l)
        t = next(l.analog_tiles())
        hid = h.tensor("hidden", (2, 2, 1), -1, 1)
        t.tile.set_hidden_parameters(hid)
        w = l.get_weights()[0].clone()
        how = h.choice("how", ["deepcopy", "load", "deepcopy_state"])
        if how == "deepcopy":
            n = copy.deepcopy(l)
        else:
            n = make(h, 3, {})
            n.load_state_dict(copied(how, l))
        h.eq(next(n.analog_tiles()).tile.get_hidden_parameters(), hid, "weights inside the copy")
        h.eq(n.get_weights()[0], w, "weights of the copy")
        h.eq(t.tile.get_hidden_parameters(), hid, "weights inside the source")
    finally:
        fake.FakeTile.compound = False


def run_optimizer(h):
    """an optimizer made before a state dict is loaded goes on training the loaded weights"""
    k, o = options(h)
    src = make(h, k, o)
    w, b = fill(h, src)
    l = make(h, k, o)
    fill(h, l, "l")
    opt = AnalogSGD(l.parameters(), lr=0.25)
    opt.regroup_param_groups(l)
    if h.flag("pending"):
        x, g = h.tensor("px", (1, 1), -1, 1), h.tensor("pg", (1, 2), -1, 1)
        l(x).backward(g)                                   # a pass whose update never comes
    sd = src.state_dict()
    l.load_state_dict(sd)
    for r in range(2):
        x, g = train_step(h, l, opt, f"s{r}")
        if o.get("learn_out_scaling"):
            break
        w = w - 0.25 * g.t() @ x
        b = b - 0.25 * g.flatten()
        v, c = l.get_weights()
        h.eq(v, w, "weights after a step")
        h.eq(c, b, "bias after a step")
    h.true(sum(p is next(l.analog_tiles()).analog_ctx for g in opt.param_groups for p in g["params"]) == 1, "context still known")
    same(h, src, *[q.clone() for q in src.get_weights()], torch.ones(1, 1), "source")


def run_snapshot(h):
    """a state dict is a snapshot: later training does not change it, and loading it back restores the weights"""
    k, o = options(h)
    l = make(h, k, o)
    w, b = fill(h, l)
    x = h.tensor("x", (1, 1), -1, 1)
    sd = copy.deepcopy(l.state_dict())
    opt = AnalogSGD(l.parameters(), lr=0.25)
    opt.regroup_param_groups(l)
    train_step(h, l, opt, "s")
    l.load_state_dict(sd)
    same(h, l, w, b, x, "restored")
    train_step(h, l, opt, "t")
    l.load_state_dict(sd)
    same(h, l, w, b, x, "restored again")


def run_arrays(h):
    """the state of layers made of several tiles goes to the same tiles"""
    fake.use()
    k = h.choice("kind", [0, 1, 4])
    o = dict(max_input_size=1, max_output_size=1)

    def mk():
        return make(h, k, o, 2, 2, True, AnalogLinearMapped)
    l, n = mk(), mk()
    w, b = fill(h, l, "", 2, 2)
    n.load_state_dict(l.state_dict())
    same(h, n, w, b, h.tensor("x", (1, 2), -1, 1), "copy")


def run_mismatch(h):
    """a state for other mapping settings or tile kinds is refused; configurations are taken over or kept as asked"""
    fake.use()
    what = h.choice("what", ["scaling", "kind", "keep", "take"])
    a, b = make(h, 0, {}), make(h, 0, {})
    if what == "scaling":
        b = make(h, 0, dict(learn_out_scaling=True, out_scaling_columnwise=True))
        h.raises(lambda: b.load_state_dict(a.state_dict(), load_rpu_config=False), "other learned scales refused", Exception)
    elif what == "kind":
        b = make(h, 3, {})
        h.raises(lambda: b.load_state_dict(a.state_dict()), "other tile kind refused", Exception)
    else:
        w, c = fill(h, a)
        next(a.analog_tiles()).rpu_config.forward.inp_res = 0.125
        b.load_state_dict(a.state_dict(), load_rpu_config=what == "take")
        h.true(next(b.analog_tiles()).rpu_config.forward.inp_res == (0.125 if what == "take" else 1 / 126), "configuration")
        same(h, b, w, c, torch.ones(1, 1), "copy")


def run_replace(h):
    """replacing the configuration keeps weights, scales and bias"""
    fake.use()
    k = h.choice("kind", [0, 1])
    o = h.choice("opt", OPTS)
    l = make(h, k, o)
    w, b = fill(h, l)
    new = make(h, k, o)
    cfg = next(new.analog_tiles()).rpu_config
    cfg.modifier.std_dev = 0.25
    how = h.choice("how", ["to", "replace"])
    for t in l.analog_tiles():
        t.to(cfg) if how == "to" else t.replace_with(cfg)
        h.true(t.rpu_config.modifier.std_dev == 0.25, "new configuration")
    same(h, l, w, b, h.tensor("x", (1, 1), -1, 1), "after the replacement")
    opt = AnalogSGD(l.parameters(), lr=0.25)
    opt.regroup_param_groups(l)
    x, g = train_step(h, l, opt, "s")
    if not o.get("learn_out_scaling"):
        same(h, l, w - 0.25 * g.t() @ x, b - 0.25 * g.flatten(), torch.ones(1, 1), "after a step")


def run_replace_all(h):
    """a configuration given for all tiles is copied for each of them"""
    fake.use()
    k = h.choice("kind", [0, 1])
    l = make(h, k, dict(max_input_size=1), 2, 1, True, AnalogLinearMapped)
    w, b = fill(h, l, "", 2, 1)
    c = copy.deepcopy(next(l.analog_tiles()).rpu_config)
    c.modifier.std_dev = 0.25
    if h.flag("twice"):
        l.replace_rpu_config(c)
    l.replace_rpu_config(c)
    c.modifier.std_dev = 0.5
    s, t = l.analog_tiles()
    s.rpu_config.forward.inp_res = 0.125
    h.true(s.rpu_config.modifier.std_dev == 0.25 and t.rpu_config.modifier.std_dev == 0.25, "not changed by its giver")
    h.true(t.rpu_config.forward.inp_res != 0.125 and c.forward.inp_res != 0.125, "not changed by another tile")
    same(h, l, w, b, h.tensor("x", (1, 2), -1, 1), "after the replacement")


def run_conv(h):
    """convolutions with indexed products survive copying and loading while their image size stays the same"""
    fake.use()
    k = h.choice("kind", [0, 3, 4])

    def mk():
        return make(h, k, {}, 1, 2, True, lambda m, n, bias, rpu_config: AnalogConv2d(m, n, (1, 2), bias=bias, rpu_config=rpu_config,
                                                                                      use_indexed=True))
    l = mk()
    w = h.tensor("w", (2, 2), 0.25, 2)
    b = h.tensor("b", (2,), -1, 1)
    l.set_weights(w.view(2, 1, 1, 2), b)
    x = h.tensor("x", (1, 1, 1, 3), -1, 1)
    e = (w @ torch.stack([x[0, 0, 0, :2], x[0, 0, 0, 1:]], 1) + b.view(2, 1)).view(1, 2, 1, 2)
    l.eval()
    h.eq(l(x), e, "output")
    how = h.choice("how", ["deepcopy", "fresh", "used", "self"])
    if how == "deepcopy":
        n = copy.deepcopy(l)
    else:
        n = l if how == "self" else mk()
        n.eval()
        if how == "used":
            n(torch.ones(1, 1, 1, 3))
        n.load_state_dict(copy.deepcopy(l.state_dict()))
    h.eq(n(x), e, "output of the copy")
    h.eq(l(x), e, "output of the source")
    opt = AnalogSGD(n.parameters(), lr=0.25)
    opt.regroup_param_groups(n)
    n.train()
    g = h.tensor("g", (1, 2, 1, 2), -1, 1)
    n(x).backward(g)
    opt.step()
    h.eq(n.get_weights()[0].reshape(2, 2), w - 0.25 * g.view(2, 2) @ torch.stack([x[0, 0, 0, :2], x[0, 0, 0, 1:]], 1).t(),
         "weights of the copy after a step")


def run_range(h):
    """learned input ranges go along with copies"""
    fake.use()
    k = h.choice("kind", [0, 1])

    def mk():
        c = perfect(KINDS[k])
        c.pre_post.input_range.enable = True
        c.pre_post.input_range.init_from_data = 0
        c.pre_post.input_range.init_value = 1.0
        return AnalogLinear(1, 1, bias=False, rpu_config=c)
    l = mk()
    l.set_weights(torch.tensor([[1.5]]))
    r = h.real("r", 0.25, 2)
    next(l.analog_tiles()).set_input_range(r)
    how = h.choice("how", ["deepcopy", "load"])
    if how == "deepcopy":
        n = copy.deepcopy(l)
    else:
        n = mk()
        n.load_state_dict(l.state_dict())
    x = h.tensor("x", (1, 1), -3, 3)
    for q, s in ((n, "copy"), (l, "source")):
        q.eval()
        h.eq(q(x), 1.5 * torch.maximum(torch.minimum(x, r * torch.ones(1, 1)), -r * torch.ones(1, 1)), "output of the " + s)
    next(n.analog_tiles()).set_input_range(1.0)
    h.eq(next(l.analog_tiles()).get_input_range() if hasattr(next(l.analog_tiles()), "get_input_range")
         else next(l.analog_tiles()).input_range, r * torch.ones(1), "range of the source is its own")


def run_drifted(h):
    """a copy of a drifted layer drifts on like its source"""
    from h_drift import Model
    from aihwkit.inference.compensation.drift import GlobalDriftCompensation
    k, o = options(h, 2)
    l = make(h, k, o)
    c = next(l.analog_tiles()).rpu_config
    c.drift_compensation = GlobalDriftCompensation()
    c.noise_model = Model(h)
    fill(h, l)
    l.eval()
    l.drift_analog_weights(10.0)
    n = copy.deepcopy(l)
    x = torch.ones(1, 1)
    h.eq(n(x), l(x), "output of the copy")
    n.drift_analog_weights(100.0)
    y = n(x).clone()
    l.drift_analog_weights(100.0)
    h.eq(y, l(x), "output after further drift")
    h.true(c.noise_model.n == 1, "programmed only once")
