"""Steps of the analog optimizers: which tile is updated, with which gradient and learning rate."""
import torch
import torch.nn.functional as F
import fake
from aihwkit.nn import AnalogConv2d, AnalogLinear, AnalogSequential
from aihwkit.optim import AnalogAdam, AnalogOptimizer, AnalogSGD
from aihwkit.simulator.parameters.enums import AnalogContextDataViewMode as View
from h_state import KINDS, OPTS, make

ALL = list(range(5))
SHAPES = [[(2,)], [(2,), (2,)], [(1, 2), (2, 2)], [(2, 1, 2), (1, 2, 2)], [(1, 2), (1, 2, 2)], [(2,), (1, 2), (2,)]]


def lin(h, kinds=ALL, opts=None, p="", m=2, n=1, bias=True):
    fake.use()
    k = h.choice("kind", kinds)
    l = make(h, k, opts or dict(weight_scaling_omega=0.0), m, n, bias)
    w, b = h.tensor(p + "w", (n, m)), h.tensor(p + "b", (n,), -1, 1)
    l.set_weights(w, b if bias else None)
    return l, w.clone(), b.clone()


def grads(x, g):
    x, g = x.reshape(-1, x.shape[-1]), g.reshape(-1, g.shape[-1])
    return g.t() @ x, g.sum(0)


def logical(h, l, w, b, what):
    v, c = l.get_weights()
    h.eq(v, w, what + ": weights")
    if b is not None:
        h.eq(c, b, what + ": bias")


def run_passes(h):
    """one step uses the gradients of all passes since the last step, whatever the shapes of their inputs"""
    digital = h.flag("digital_bias")
    l, w, b = lin(h, ALL if digital else [0, 3, 4], dict(weight_scaling_omega=0.0, digital_bias=digital))
    shapes = h.choice("shapes", SHAPES)
    opt = AnalogSGD(l.parameters(), lr=0.5)
    if h.flag("regroup"):
        opt.regroup_param_groups(l)
    opt.zero_grad()
    gw, gb = torch.zeros(1, 2), torch.zeros(1)
    joint = h.flag("joint")
    ys, gs = [], []
    for i, s in enumerate(shapes):
        x, g = h.tensor(f"x{i}", s), h.tensor(f"g{i}", s[:-1] + (1,))
        y = l(x)
        h.eq(y, F.linear(x, w, b), "output")
        if joint:
            ys.append(y)
            gs.append(g)
        else:
            y.backward(g)
        a, c = grads(x, g)
        gw, gb = gw + a, gb + c
    if joint:
        torch.autograd.backward(ys, gs)
    opt.step()
    w, b = w - 0.5 * gw, b - 0.5 * gb
    logical(h, l, w, b, "after the step")
    opt.zero_grad()
    opt.step()
    logical(h, l, w, b, "a step without passes changes nothing")


def run_discard(h):
    """zero_grad discards the gradients of the passes before it"""
    l, w, b = lin(h)
    which = h.choice("opt", ["sgd", "generic", "adam"])
    if which == "adam":
        opt = AnalogAdam(l.parameters(), lr=0.5)
    else:
        opt = AnalogSGD(l.parameters(), lr=0.5) if which == "sgd" else AnalogOptimizer(torch.optim.SGD, l.parameters(), lr=0.5)
    if h.flag("regroup"):
        opt.regroup_param_groups(l)
    x, g = h.tensor("x", (1, 2)), h.tensor("g", (1, 1))
    l(x).backward(g)
    opt.zero_grad(**h.choice("how", [{}, dict(set_to_none=True)]))
    opt.step()
    logical(h, l, w, b, "nothing to apply")
    if which == "adam":
        return
    x, g = h.tensor("x2", (2, 2)), h.tensor("g2", (2, 1))
    l(x).backward(g)
    opt.step()
    a, c = grads(x, g)
    logical(h, l, w - 0.5 * a, b - 0.5 * c, "only the pass after zero_grad")


def two(h, kinds=ALL):
    fake.use()
    k = h.choice("kind", kinds)
    ls, ws = [], []
    for i in range(2):
        l = make(h, k, dict(weight_scaling_omega=0.0), 1, 1)
        w, b = h.tensor(f"w{i}", (1, 1)), h.tensor(f"b{i}", (1,), -1, 1)
        l.set_weights(w, b)
        ls.append(l)
        ws.append((w.clone(), b.clone()))
    return ls, ws


def run_groups(h):
    """every group is stepped with its own learning rate, also after regrouping and after the rates are changed"""
    ls, ws = two(h)
    lrs = h.choice("lr", [(0.5, 0.25), (0.0, 0.5), (None, 0.125), (0.25, None)])
    groups = [dict(params=list(l.parameters()), **({} if r is None else dict(lr=r))) for l, r in zip(ls, lrs)]
    opt = AnalogSGD(groups, lr=1.0)
    lrs = [1.0 if r is None else r for r in lrs]
    for _ in range(h.choice("regroup", [0, 1, 2])):
        opt.regroup_param_groups()
    change = h.choice("change", ["no", "all", "scheduler"])
    sched = torch.optim.lr_scheduler.StepLR(opt, 1, 0.5) if change == "scheduler" else None
    if change == "all":
        opt.set_learning_rate(0.0625)
        lrs = [0.0625, 0.0625]
    n = sum(len(g["params"]) for g in opt.param_groups)
    h.true(n == sum(len(list(l.parameters())) for l in ls), "every parameter is in one group")
    for s in range(2 if sched else 1):
        opt.zero_grad()
        for i, l in enumerate(ls):
            x, g = h.tensor(f"x{s}{i}", (1, 1), -1, 1), h.tensor(f"g{s}{i}", (1, 1), -1, 1)
            l(x).backward(g)
            a, c = grads(x, g)
            ws[i] = (ws[i][0] - lrs[i] * a, ws[i][1] - lrs[i] * c)
        opt.step()
        for i, l in enumerate(ls):
            logical(h, l, *ws[i], f"layer {i}")
        if sched:
            sched.step()
            lrs = [r * 0.5 for r in lrs]


def run_order(h):
    """tiles are updated before, and told about, the end of each step exactly once - shared and unused ones, too"""
    fake.use()
    l = make(h, h.choice("kind", [0, 3, 4]), dict(weight_scaling_omega=0.0), 1, 1)
    lr = h.choice("lr", [0.5, 0.0])
    l.set_weights(h.tensor("w", (1, 1)), h.tensor("b", (1,)))
    opt = AnalogSGD(l.parameters(), lr=lr)
    if h.flag("regroup"):
        opt.regroup_param_groups()
    tile = list(l.analog_tiles())[0]
    calls = []
    upd, post = tile.update, tile.post_update_step
    tile.update = lambda *a, **k: (calls.append("update"), upd(*a, **k))[1]
    tile.post_update_step = lambda *a, **k: (calls.append("post"), post(*a, **k))[1]
    used = h.choice("used", [0, 1, 2])
    for i in range(used):
        l(h.tensor(f"x{i}", (1, 1))).backward(h.tensor(f"g{i}", (1, 1)))
    del calls[:]
    opt.step()
    shared = getattr(tile, "shared_weights", None) is not None
    n = 0 if shared or used == 0 or lr == 0.0 else 1
    h.true(calls == ["update"] * n + ["post"], "one update, then the end of the step")
    h.true(not tile.analog_ctx.has_gradient(), "trace used up")


def run_closure(h):
    """a closure is evaluated once, with gradients, before the update; its loss is returned"""
    l, w, b = lin(h)
    opt = AnalogSGD(l.parameters(), lr=0.25)
    if h.flag("regroup"):
        opt.regroup_param_groups()
    x, t = h.tensor("x", (1, 2), -1, 1), h.tensor("t", (1, 1), -1, 1)
    n = []

    def closure():
        opt.zero_grad()
        y = l(x)
        loss = ((y - t) ** 2).sum()
        loss.backward()
        n.append(1)
        return loss
    ret = opt.step(closure)
    e = F.linear(x, w, b) - t
    h.true(len(n) == 1, "evaluated once")
    h.eq(ret.detach(), (e ** 2).sum(), "loss returned")
    logical(h, l, w - 0.25 * 2 * e.t() @ x, b - 0.25 * 2 * e.sum(0), "after the step")


def run_digital(h):
    """digital parameters are stepped exactly as by the wrapped torch optimizer, in any grouping"""
    fake.use()
    k = h.choice("kind", [3, 4, 2])
    which = h.choice("opt", ["adam", "momentum", "decay", "generic"])
    a = make(h, k, dict(weight_scaling_omega=0.0, digital_bias=True), 1, 1)
    w, b = h.tensor("w", (1, 1)), h.tensor("b", (1,), -1, 1)
    a.set_weights(w, b)
    w = w.clone()
    net = AnalogSequential(a, torch.nn.Linear(1, 1))
    lin_ = net[1]
    v, c = h.tensor("v", (1, 1)), h.tensor("c", (1,), -1, 1)
    with torch.no_grad():
        lin_.weight.copy_(v)
        lin_.bias.copy_(c)
    ref = [torch.nn.Parameter(q.clone()) for q in (b, v, c)]
    opts = dict(adam=(AnalogAdam, torch.optim.Adam, dict(lr=0.5)),
                momentum=(AnalogSGD, torch.optim.SGD, dict(lr=0.5, momentum=0.5)),
                decay=(AnalogSGD, torch.optim.SGD, dict(lr=0.5, weight_decay=0.25)),
                generic=(lambda p, **o: AnalogOptimizer(torch.optim.SGD, p, **o), torch.optim.SGD, dict(lr=0.25, momentum=0.5, nesterov=True)))
    A, R, o = opts[which]
    opt, dig = A(net.parameters(), **o), R(ref, **o)
    if h.flag("regroup"):
        opt.regroup_param_groups(net)
    for s in range(1 if which == "adam" else 2):
        opt.zero_grad()
        dig.zero_grad()
        x, g = h.tensor(f"x{s}", (1, 1), -1, 1), h.tensor(f"g{s}", (1, 1), -1, 1)
        net(x).backward(g)
        y = F.linear(F.linear(x, w, ref[0]), ref[1], ref[2])
        y.backward(g)
        d = (g * ref[1]).detach()
        opt.step()
        dig.step()
        w = w - o["lr"] * d.t() @ x
        h.eq(a.get_weights()[0], w, "analog weights")
        for got, want, n in zip((list(a.analog_tiles())[0].bias, lin_.weight, lin_.bias), ref,
                                ("digital bias", "weight", "bias")):
            h.eq(got.detach(), want.detach(), n)


def run_frozen(h):
    """frozen analog layers pass the gradient on and stay"""
    ls, ws = two(h)
    net = AnalogSequential(*ls)
    i = h.choice("frozen", [0, 1])
    if h.flag("module"):
        ls[i].requires_grad_(False)
    else:
        for q in ls[i].parameters():
            q.requires_grad = False
    opt = AnalogSGD([q for q in net.parameters() if q.requires_grad], lr=0.5)
    opt.regroup_param_groups()
    x, g = h.tensor("x", (1, 1), -1, 1, grad=True), h.tensor("g", (1, 1), -1, 1)
    net(x).backward(g)
    (w0, b0), (w1, b1) = ws
    opt.step()
    h.eq(x.grad, g @ w1 @ w0, "input gradient")
    x = x.detach()
    y = F.linear(x, w0, b0)
    if i == 0:
        ws[1] = (w1 - 0.5 * g.t() @ y, b1 - 0.5 * g.sum(0))
    else:
        ws[0] = (w0 - 0.5 * (g @ w1).t() @ x, b0 - 0.5 * (g @ w1).sum(0))
    for j in range(2):
        logical(h, ls[j], *ws[j], "frozen" if j == i else "trained")


def run_images(h):
    """a convolution used for images of different sizes in one step"""
    fake.use()
    k = h.choice("kind", [4, 0, 1])
    use = h.flag("indexed") if k != 1 else False
    c = KINDS[k]()
    for q in ("forward", "backward"):
        if hasattr(c, q):
            getattr(c, q).is_perfect = True
    if hasattr(c, "drift_compensation"):
        c.drift_compensation = None
    c.mapping.weight_scaling_omega = 0.0
    l = AnalogConv2d(1, 1, (1, 2), bias=True, rpu_config=c, use_indexed=use)
    w, b = h.tensor("w", (1, 2), -1, 1), h.tensor("b", (1,), -1, 1)
    l.set_weights(w, b)
    w, b = w.clone(), b.clone()
    opt = AnalogSGD(l.parameters(), lr=0.5)
    if h.flag("regroup"):
        opt.regroup_param_groups()
    ys, gs, xs, ws = [], [], [], []
    kern, bias = w.clone().view(1, 1, 1, 2).requires_grad_(), b.clone().requires_grad_()
    for i, s in enumerate(h.choice("sizes", [[(1, 2), (1, 3)], [(2, 2), (1, 2), (2, 2)], [(1, 3), (1, 2)]])):
        x = h.tensor(f"x{i}", (1, 1) + s, -1, 1, grad=True)
        z = x.detach().clone().requires_grad_()
        y, r = l(x), F.conv2d(z, kern, bias)
        h.eq(y.detach(), r.detach(), "output")
        ys.append(y)
        ws.append(r)
        xs.append((x, z))
        gs.append(h.tensor(f"g{i}", tuple(y.shape), -1, 1))
    torch.autograd.backward(ys, gs)
    torch.autograd.backward(ws, gs)
    for x, z in xs:
        h.eq(x.grad, z.grad, "input gradient")
    opt.step()
    v, c = l.get_weights()
    h.eq(v.reshape(-1), (w.reshape(-1) - 0.5 * kern.grad.reshape(-1)).detach(), "weights after the step")
    h.eq(c, b - 0.5 * bias.grad, "bias after the step")


def run_view(h):
    """the parameter of a tile shows its logical weights, a buffer, or nothing, and never lets them be written"""
    opts = h.choice("opt", OPTS)
    l, w, b = lin(h, kinds=[0, 3, 4], opts=opts, n=2, bias=h.flag("bias"))
    t = list(l.analog_tiles())[0]
    ctx = t.analog_ctx
    logi = l.get_weights()[0].clone()
    mode = h.choice("mode", list(View))
    ctx.data_view_mode = h.choice("as", [mode, mode.value, mode.name])
    h.true(ctx.data_view_mode == mode, "mode")
    h.true(tuple(ctx.shape) == (2, 2) and tuple(ctx.size()) == (2, 2) and ctx.ndim == 2, "shape of the logical weights")
    if mode == View.PLACEHOLDER:
        h.raises(lambda: ctx.sum(), "no values", RuntimeError)
        h.raises(lambda: ctx.T, "no values", RuntimeError)
        h.raises(lambda: ctx.get_data(), "no values", RuntimeError)
        h.raises(lambda: ctx.add_(1.0), "no writes", RuntimeError)
    elif mode == View.DATA_VIEW:
        h.eq(ctx.get_data().as_subclass(torch.Tensor), logi, "logical weights")
        h.eq((ctx * 2.0).detach(), logi * 2, "computed with")
        h.eq(ctx.T.as_subclass(torch.Tensor).detach(), logi.t(), "transposed")
        h.raises(lambda: ctx.add_(1.0), "no writes", RuntimeError)
        h.raises(lambda: ctx.data.mul_(2.0), "no writes", RuntimeError)
    else:
        h.eq(ctx.get_data(), torch.zeros(2, 2), "empty buffer")
        u = h.tensor("u", (2, 2))
        with torch.no_grad():
            ctx.add_(u)
        h.eq(ctx.get_data(), u, "buffer keeps what is written")
    h.raises(lambda: setattr(ctx, "data", torch.zeros(2, 2)), "data cannot be replaced", RuntimeError)
    h.eq(l.get_weights()[0], logi, "weights kept")
    if mode == View.DATA_VIEW:
        new = h.tensor("n", (2, 2))
        l.set_weights(new, b if l.get_weights()[1] is not None else None)
        h.eq(ctx.get_data().as_subclass(torch.Tensor), new, "view follows the weights")
