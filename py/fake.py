"""Python stand-in for the compiled simulator tile: an ideal (floating point) crossbar with the documented interface.

The C++ tiles themselves are verified by engine A; here they only have to be *some* tile that does what its interface
documentation says, so that the Python code around them can be executed symbolically."""
import torch

CALLS = []


def _bias_col(x, bias, trans):
    if not bias:
        return x
    if trans:
        return torch.cat([x, torch.ones((1,) + tuple(x.shape[1:]))], 0)
    return torch.cat([x, torch.ones(tuple(x.shape[:-1]) + (1,))], -1)


class FakeTile:
    compound = False        # a device of two cells: the visible weight is their sum, setting it empties the first

    def __init__(self, x_size, d_size, data=None):
        self.w = torch.zeros(d_size, x_size)
        self.lr = 0.01
        self.indices = None
        self.hidden = torch.zeros(0)
        self.names = []
        self.extra = {}
        self.log = []
        self.delta = None
        self.x_size, self.d_size = x_size, d_size
        if self.compound:
            self.hidden, self.names = torch.zeros(2, d_size, x_size), ["hidden_weights_0", "hidden_weights_1"]

    # state
    def get_x_size(self): return self.x_size
    def get_d_size(self): return self.d_size
    def get_weights(self): return self.w.clone()
    def set_weights(self, w):
        assert tuple(w.shape) == (self.d_size, self.x_size), (w.shape, self.d_size, self.x_size)
        with torch.no_grad():
            self.w.copy_(w)
            if self.compound:
                self.hidden = torch.stack([torch.zeros_like(self.w), self.w.detach()])

    def set_shared_weights(self, w):
        with torch.no_grad():
            w.copy_(self.w)
        self.w = w

    def set_delta_weights(self, d): self.delta = d
    def reset_delta_weights(self): self.delta = None
    def set_weights_uniform_random(self, lo, hi):
        self.w.copy_(torch.rand(self.d_size, self.x_size) * (hi - lo) + lo)

    def get_learning_rate(self): return self.lr
    def set_learning_rate(self, lr): self.lr = lr
    def get_brief_info(self): return "fake"
    def get_hidden_parameters(self): return self.hidden.clone()
    def set_hidden_parameters(self, h):
        self.hidden = h.clone()
        if self.compound:
            with torch.no_grad():
                self.w.copy_(self.hidden.sum(0))

    def get_hidden_parameter_names(self): return list(self.names)
    def dump_extra(self): return dict(self.extra)
    def load_extra(self, e, strict=False): self.extra = dict(e)

    # products; a transposed operand is [size, *, batch]
    def forward(self, x, bias=False, x_trans=False, d_trans=False, is_test=False, non_blocking=False):
        self.log.append(("forward", is_test))
        x = _bias_col(x, bias, x_trans)
        xm = x.reshape(x.shape[0], -1).t() if x_trans else x.reshape(-1, x.shape[-1])
        assert xm.shape[1] == self.x_size
        y = xm @ self.w.t()
        rest = list(x.shape[1:]) if x_trans else list(x.shape[:-1])
        return y.t().reshape([self.d_size] + rest) if d_trans else y.reshape(rest + [self.d_size])

    def backward(self, d, bias=False, d_trans=False, x_trans=False, non_blocking=False):
        self.log.append(("backward",))
        dm = d.reshape(d.shape[0], -1).t() if d_trans else d.reshape(-1, d.shape[-1])
        assert dm.shape[1] == self.d_size
        x = dm @ (self.w[:, :-1] if bias else self.w)
        rest = list(d.shape[1:]) if d_trans else list(d.shape[:-1])
        n = self.x_size - int(bias)
        return x.t().reshape([n] + rest) if x_trans else x.reshape(rest + [n])

    def update(self, x, d, bias=False, x_trans=False, d_trans=False, non_blocking=False):
        self.log.append(("update",))
        x = _bias_col(x, bias, x_trans)
        xm = x.reshape(x.shape[0], -1).t() if x_trans else x.reshape(-1, x.shape[-1])
        dm = d.reshape(d.shape[0], -1).t() if d_trans else d.reshape(-1, d.shape[-1])
        self._step(dm.t() @ xm)

    def _step(self, g):
        if self.delta is not None:
            self.delta.copy_(g)             # the gradient is handed back instead of being applied
        else:
            self.w.copy_(self.w - self.lr * g)

    # indexed products: input column k takes element index-2 of the flat image, 0 for index 0 and 1 for index 1
    def set_matrix_indices(self, indices):
        assert indices.is_contiguous() and indices.dtype == torch.int32
        self.indices = indices

    def has_matrix_indices(self): return self.indices is not None

    def _gather(self, x, n_out):
        f = x.reshape(x.shape[0], -1)
        assert self.indices.numel() >= self.x_size * n_out
        i = self.indices[:self.x_size * n_out].long()
        f = torch.cat([torch.zeros(x.shape[0], 1), torch.ones(x.shape[0], 1), f], 1)
        assert int(i.max()) < f.shape[1] and int(i.min()) >= 0
        return f[:, i].reshape(x.shape[0], self.x_size, n_out), i, f

    def forward_indexed(self, x, d, is_test=False, non_blocking=False):
        self.log.append(("forward_indexed", is_test))
        n_out = d.numel() // (d.shape[0] * self.d_size)
        g, _, _ = self._gather(x, n_out)
        return torch.stack([(self.w @ g[b]).reshape(d.shape[1:]) for b in range(x.shape[0])])

    def backward_indexed(self, d, x, non_blocking=False):
        self.log.append(("backward_indexed",))
        n_out = d.numel() // (d.shape[0] * self.d_size)
        _, i, f = self._gather(x, n_out)
        out = []
        for b in range(d.shape[0]):
            v = (self.w.t() @ d[b].reshape(self.d_size, n_out)).reshape(-1)
            acc = torch.zeros(f.shape[1])
            acc = acc.index_add(0, i, v)
            out.append(acc[2:].reshape(x.shape[1:]))
        return torch.stack(out)

    def update_indexed(self, x, d, non_blocking=False):
        self.log.append(("update_indexed",))
        n_out = d.numel() // (d.shape[0] * self.d_size)
        g, _, _ = self._gather(x, n_out)
        s = torch.zeros(self.d_size, self.x_size)
        for b in range(d.shape[0]):
            s = s + d[b].reshape(self.d_size, n_out) @ g[b].t()
        self._step(s)

    # operations of the inference tile; they are recorded, the harness looks at the arguments
    def __getattr__(self, n):
        if n.startswith("__") or n not in ("modify_weights", "clip_weights", "decay_weights", "drift_weights", "diffuse_weights",
                                           "reset_columns", "remap_weights", "post_update_step", "get_hidden_update_index",
                                           "set_hidden_update_index", "set_verbosity_level"):
            raise AttributeError(n)

        def f(*a, **k):
            self.log.append((n, a, k))
        return f


def use():
    """makes all RPUCuda-based tile classes use the stand-in"""
    from aihwkit.simulator.tiles.analog import AnalogTile, AnalogTileWithoutPeriphery
    from aihwkit.simulator.tiles.floating_point import FloatingPointTile
    from aihwkit.simulator.tiles.inference import InferenceTile, InferenceTileWithPeriphery
    for c in (AnalogTile, AnalogTileWithoutPeriphery, FloatingPointTile, InferenceTile):
        c._create_simulator_tile = lambda self, x, d, cfg: FakeTile(x, d)
        if "_recreate_simulator_tile" in c.__dict__:
            del c._recreate_simulator_tile
