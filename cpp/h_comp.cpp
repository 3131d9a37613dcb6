// Compound devices: what the visible weight, a pulse, a transfer, a refresh and a copy do to the weights inside.
#include "fix_dev.h"
#include "rpu.h"
#include "rpu_buffered_transfer_device.h"
#include "rpu_chopped_transfer_device.h"
#include "rpu_mixedprec_device.h"
#include "rpu_onesided_device.h"
#include "rpu_pulsed.h"
#include "rpu_transfer_device.h"
#include "rpu_vector_device.h"

typedef std::vector<T> V;
__attribute__((noinline)) static V tensor(const char *n, int k, T lo = -2, T hi = 2) {
  V v(k);
  for (auto &x : v)
    x = sym_fr(n, lo, hi);
  return v;
}
__attribute__((noinline)) static V dup(const V &a) { return a; }
__attribute__((noinline)) static void same(const V &a, const V &b, const char *id, T tol = 1e-3f) {
  sym_assert(a.size() == b.size(), "sizes");
  for (size_t i = 0; i < a.size(); i++) {
    sym_observe(id, a[i]);
    sym_close(a[i], b[i], id, tol);
  }
}
typedef ConstantStepRPUDeviceMetaParameter<T> Cell;
static Cell cell(T dw, T lo, T hi) {
  Cell p;
  p.dw_min_dtod = p.w_min_dtod = p.w_max_dtod = p.up_down_dtod = p.dw_min_std = 0;
  p.reset_std = p.reset_dtod = p.reset = 0;
  p.dw_min = dw;
  p.w_min = lo;
  p.w_max = hi;
  return p;
}
static void perfect(IOMetaParameter<T> &p) {
  p.is_perfect = true;
  p.noise_management = NoiseManagementType::None;
  p.bound_management = BoundManagementType::None;
}
// exactly BL coincidences wherever the input and the gradient are not zero
static void pulses(PulsedUpdateMetaParameter<T> &up, int BL) {
  up.pulse_type = PulseType::DeterministicImplicit;
  up.desired_BL = BL;
  up.update_management = up.update_bl_management = false;
  up.fixed_BL = true;
}
struct Comp {
  int xs, ds, n;
  PulsedMetaParameter<T> mp;
  std::unique_ptr<RPUPulsed<T>> r;
  std::vector<std::string> names;
  std::vector<V> dp;
  std::vector<T *> ptrs;
  Comp(int x, int d) : xs(x), ds(d), n(x * d) {
    perfect(mp.f_io);
    perfect(mp.b_io);
  }
  template <class P> void make(P &p) {
    r.reset(new RPUPulsed<T>(xs, ds));
    r->populateParameter(&mp, &p);
    attach();
  }
  void attach() {
    names.clear();
    dp.clear();
    ptrs.clear();
    r->getDeviceParameterNames(names);
    for (size_t k = 0; k < names.size(); k++)
      dp.emplace_back(n, (T)0);
    for (auto &v : dp)
      ptrs.push_back(v.data());
  }
  __attribute__((noinline)) V get(const std::string &name) {
    r->getDeviceParameter(ptrs);
    for (size_t k = 0; k < names.size(); k++)
      if (names[k] == name)
        return dp[k];
    sym_assert(false, "parameter exists");
    return V(n);
  }
  __attribute__((noinline)) void set(const std::string &name, const V &v) {
    r->getDeviceParameter(ptrs);
    for (size_t k = 0; k < names.size(); k++)
      if (names[k] == name)
        for (int i = 0; i < n; i++)
          dp[k][i] = v[i];
    r->setDeviceParameter(ptrs);
  }
  V hidden(int k) { return get("hidden_weights_" + std::to_string(k)); }
  void hide(int k, const V &v) { set("hidden_weights_" + std::to_string(k), v); }
  V visible() {
    V a(n);
    r->getWeights(a.data());
    return a;
  }
  void update(const V &x, const V &d, int m = 1) {
    V xv = dup(x), dv = dup(d);
    r->update(xv.data(), dv.data(), false, m, false, false);
  }
};
static V signs(const char *name, int n, bool zeros) { // concrete signs, one of them the solver's choice
  V v(n);
  for (int i = 0; i < n; i++)
    v[i] = i % 2 ? (T)-1 : (T)1;
  int c = sym_choice(name, zeros ? 3 : 2);
  v[0] = c == 0 ? (T)1 : c == 1 ? (T)-1 : (T)0;
  return v;
}
// the law of one cell: BL steps against the sign of the product, each kept within the bounds
static T step(T w, T sgn, int BL, T dw, T lo, T hi) {
  for (int k = 0; k < BL && sgn != 0; k++)
    w = fclip(sgn > 0 ? w - dw : w + dw, lo, hi);
  return w;
}

// the solver's choice at the given places, fixed values of both signs elsewhere
__attribute__((noinline)) static V some(const char *name, int n, std::initializer_list<int> at, T lo = (T)-0.875, T hi = (T)0.875) {
  V v(n);
  for (int i = 0; i < n; i++)
    v[i] = lo + (hi - lo) * ((T)0.171875 + (T)0.1640625 * (T)(i * 3 % 5)); // no ties
  for (int i : at)
    v[i] = sym_fr(name, lo, hi);
  return v;
}

// --- vector cells
extern "C" void run_vector() {
  const int xs = 2, ds = 2, n = 4;
  int nd = 2 + sym_choice("third_device", 2), op = sym_choice("op", 5), policy = op == 0 || op == 4 ? sym_choice("policy", 3) : 0;
  bool weighted = sym_fork_b("gamma_vec");
  const T dw[3] = {(T)0.125, (T)0.25, (T)0.1875}, hi[3] = {1, (T)0.5, (T)0.75}, lo[3] = {(T)-0.5, -1, (T)-0.75};
  VectorRPUDeviceMetaParameter<T> vp;
  T gran = 0;
  for (int k = 0; k < nd; k++) {
    Cell c = cell(dw[k], lo[k], hi[k]);
    c.lifetime = (T)(2 << k);
    c.lifetime_dtod = 0;
    vp.appendVecPar(c);
    gran += dw[k] / (T)nd;
  }
  const T g[3] = {(T)0.5, (T)-1.5, 2};
  if (weighted)
    vp.gamma_vec.assign(g, g + nd);
  vp.update_policy = policy == 0 ? VectorDeviceUpdatePolicy::All
                                 : policy == 1 ? VectorDeviceUpdatePolicy::SingleFixed : VectorDeviceUpdatePolicy::SingleSequential;
  vp.first_update_idx = policy == 1 ? 1 : 0;
  Comp c(xs, ds);
  const int BL = 2;
  pulses(c.mp.up, BL);
  c.make(vp);
  c.r->setLearningRate(gran * BL);
  std::vector<V> w(nd);
  for (int k = 0; k < nd; k++) {
    w[k] = tensor("hidden", n, lo[k], hi[k]);
    c.hide(k, w[k]);
  }
  auto check = [&](const char *id) {
    V e(n, (T)0);
    for (int k = 0; k < nd; k++) {
      same(c.hidden(k), w[k], id);
      for (int i = 0; i < n; i++)
        e[i] += (weighted ? g[k] : (T)1 / (T)nd) * w[k][i];
    }
    same(c.visible(), e, "visible weight is the weighted sum");
  };
  check("hidden weights as set");
  if (op == 0) {
    for (int t = 0; t < 2; t++) {
      V x = t ? V{1, -1} : signs("x", xs, true), d = t ? V{1, 0} : signs("d", ds, false);
      c.update(x, d);
      for (int k = 0; k < nd; k++)
        if (policy == 0 || (policy == 1 && k == 1) || (policy == 2 && k == (t + 1) % nd))
          for (int i = 0; i < ds; i++)
            for (int j = 0; j < xs; j++)
              w[k][i * xs + j] = step(w[k][i * xs + j], d[i] * x[j], BL, dw[k], lo[k], hi[k]);
      check("pulses reach the selected devices");
    }
  } else if (op == 1) {
    c.r->decayWeights(false);
    for (int k = 0; k < nd; k++)
      for (auto &v : w[k])
        v = fclip(v * ((T)1 - (T)1 / (T)(2 << k)), lo[k], hi[k]);
    check("each device decays with its own rate");
  } else if (op == 2) {
    WeightClipParameter p;
    p.type = WeightClipType::FixedValue;
    p.fixed_value = (T)0.25;
    c.r->clipWeights(p);
    for (int k = 0; k < nd; k++)
      for (auto &v : w[k])
        v = fclip(v, (T)-0.25, (T)0.25);
    check("each device is clipped");
  } else if (op == 3) {
    int first = sym_choice("col", 2), cols = 1 + sym_choice("cols", 2);
    c.r->resetCols(first, cols, (T)1);
    for (int k = 0; k < nd; k++)
      for (int q = 0; q < cols; q++)
        for (int i = 0; i < ds; i++)
          w[k][i * xs + (first + q) % xs] = 0;
    check("reset columns of each device");
  } else {
    V v = tensor("w", n, -1, 1);
    c.r->setWeights(v.data());
    for (int k = 0; k < nd; k++)
      if (policy != 1 || k == 1)
        for (int i = 0; i < n; i++)
          w[k][i] = fclip(v[i], lo[k], hi[k]);
    check("weights given to the devices");
  }
}

// --- transfer cells
struct TransferRef { // which vectors are moved from where to where, and when
  int nd, xs, ds, reads, count = 0, slice[3] = {0, 0, 0};
  bool columns, reset = false;
  int every[3] = {0, 0, 0};
  T lr[3] = {0, 0, 0}, g[3] = {0, 0, 0};
  std::vector<V> w;
  void run() {
    count++;
    for (int k = 0; k + 1 < nd; k++)
      if (every[k] > 0 && count % every[k] == 0)
        for (int q = 0; q < reads; q++) {
          int n_in = columns ? xs : ds, n_out = columns ? ds : xs, at = slice[k];
          slice[k] = (at + 1) % n_in;
          for (int o = 0; o < n_out; o++) {
            int i = columns ? o * xs + at : at * xs + o;
            T v = w[k][i];
            if (reset)
              w[k][i] = 0;
            w[k + 1][i] += lr[k] * v;
          }
        }
  }
};
static void transfer(bool with_lr) {
  bool columns = sym_fork_b("columns"), reset = columns && !with_lr && sym_fork_b("reset");
  const int xs = 3, ds = 2, n = 6, BL = 1;
  int nd = with_lr ? 2 : 2 + sym_choice("third_device", 2), g = with_lr ? 0 : sym_choice("gamma", 3);
  TransferRef ref{nd, xs, ds, 1 + sym_choice("second_read", 2)};
  ref.columns = columns;
  ref.reset = reset;
  Cell fast = cell((T)0.125, -2, 2), slow = cell((T)0.25, -8, 8);
  TransferRPUDeviceMetaParameter<T> p;
  p.appendVecPar(fast);
  for (int k = 1; k < nd; k++)
    p.appendVecPar(slow);
  const T gv[3][3] = {{0, 0, 0}, {(T)0.5, (T)0.5, 0}, {(T)0.75, (T)-0.75, 0}}; // geometric, and given with a sum of zero
  if (g == 1)
    p.gamma = (T)0.5;
  for (int k = 0; k < nd; k++)
    ref.g[k] = g == 0 ? (T)(k == nd - 1) : g == 1 ? (T)(k == nd - 1 ? 1 : k == nd - 2 ? 0.5 : 0.25) : k == nd - 1 ? (T)1 : gv[2][k];
  if (g == 2)
    p.gamma_vec.assign(ref.g, ref.g + nd);
  p.transfer_columns = columns;
  p.n_reads_per_transfer = ref.reads;
  p.units_in_mbatch = with_lr && sym_fork_b("units_in_mbatch");
  int every = 1 + sym_choice("every", 2), m = with_lr ? 1 + sym_choice("batch", 2) : 1;
  p.transfer_every = (T)every;
  p.with_reset_prob = reset ? (T)1 : (T)0;
  p.transfer_lr = (T)0.5;
  p.scale_transfer_lr = with_lr && sym_fork_b("scale_transfer_lr");
  int flr = with_lr ? sym_choice("fast_lr", 3) : 0;
  p.fast_lr = flr ? (T)0.5 : (T)0;
  p.scale_fast_lr = flr == 2;
  perfect(p.transfer_io);
  p.transfer_up.pulse_type = PulseType::None;
  Comp c(xs, ds);
  pulses(c.mp.up, BL);
  // BL pulses of both step sizes together are worth the rate of the fast device, in units of the mean granularity
  T gran = ((T)0.125 + (T)0.25 * (T)(nd - 1)) / (T)nd, lr = flr == 1 ? (T)0.75 : flr == 2 ? gran / (T)0.5 : gran;
  if (flr == 1)
    p.fast_lr = gran;
  c.make(p);
  c.r->setLearningRate(lr);
  V w0 = tensor("w", n, -1, 1);
  c.r->setWeights(w0.data());
  ref.w.assign(nd, V(n, (T)0));
  for (int k = 0; k + 1 < nd; k++) { // setting the weights empties the leading devices
    ref.w[k] = c.hidden(k);
    same(ref.w[k], V(n, (T)0), "leading devices are empty");
  }
  ref.w[nd - 1] = w0;
  same(c.visible(), w0, "visible weights as set");
  T e = (T)(p.units_in_mbatch ? every * m : every);
  for (int k = 0; k < nd; k++) {
    ref.every[k] = k == nd - 1 ? 0 : (int)roundf(e);
    e *= (T)(columns ? xs : ds) / (T)ref.reads;
    ref.lr[k] = (T)0.5 * (p.scale_transfer_lr ? lr : (T)1);
  }
  for (int k = 0; k + 1 < nd; k++) {
    ref.w[k] = tensor("hidden", n, -1, 1);
    c.hide(k, ref.w[k]);
  }
  int steps = with_lr ? 2 : nd == 3 ? 4 : 3;
  for (int t = 0; t < steps; t++) {
    V x(xs * m), d(ds * m);
    for (int b = 0; b < m; b++) {
      for (int j = 0; j < xs; j++)
        x[b * xs + j] = (T)((j + b + t) % 3 - 1);
      for (int i = 0; i < ds; i++)
        d[b * ds + i] = (i + t) % 2 ? (T)-1 : (T)1;
    }
    c.update(x, d, m);
    for (int b = 0; b < m; b++) {
      for (int i = 0; i < ds; i++)
        for (int j = 0; j < xs; j++)
          ref.w[0][i * xs + j] = step(ref.w[0][i * xs + j], d[b * ds + i] * x[b * xs + j], BL, (T)0.125, -2, 2);
      ref.run();
    }
    V e(n, (T)0);
    for (int k = 0; k < nd; k++) {
      if (k < nd - 1 || g)
        same(c.hidden(k), ref.w[k], "weights of each device after pulses and transfers", 2e-3f);
      for (int i = 0; i < n; i++)
        e[i] += ref.g[k] * ref.w[k][i];
    }
    same(c.visible(), e, "visible weight is the weighted sum", 2e-3f);
  }
}
extern "C" void run_transfer() { transfer(false); }
extern "C" void run_transfer_lr() { transfer(true); }

// --- buffered transfer, with and without choppers
extern "C" void run_buffered() {
  bool columns = sym_fork_b("columns"), forget = sym_fork_b("forget_buffer"), hide = sym_fork_b("hidden");
  const int xs = 3, ds = 2, n = 6;
  Cell fast = cell((T)0.125, -2, 2), slow = cell((T)0.25, -8, 8);
  BufferedTransferRPUDeviceMetaParameter<T> p;
  p.appendVecPar(fast);
  p.appendVecPar(slow);
  if (!hide)
    p.gamma = (T)0.5;
  p.transfer_columns = columns;
  p.n_reads_per_transfer = hide ? 1 : 2;
  p.units_in_mbatch = false;
  p.transfer_every = 1;
  p.transfer_lr = (T)1.5;
  p.forget_buffer = forget;
  p.momentum = (T)0.25;
  p.thres_scale = (T)0.5;
  p.step = (T)0.75;
  perfect(p.transfer_io);
  p.transfer_up.pulse_type = PulseType::None;
  const int most = 2;
  p.transfer_up.desired_BL = most;
  Comp c(xs, ds);
  pulses(c.mp.up, 1);
  T lr = ((T)0.125 + (T)0.25) / (T)2;
  c.make(p);
  c.r->setLearningRate(lr);
  V w0 = some("w", n, {1}), a = some("fast", n, {0, 4}), h = some("buffer", n, {0, 1, 3, 5}, (T)-0.125, (T)0.125), s = w0;
  c.r->setWeights(w0.data());
  c.hide(0, a);
  c.set("buffered_FP_weight_0", h);
  T scale = p.transfer_lr * lr * (hide ? (T)1 : (T)0.5), thr = (T)0.5 * (T)0.25;
  int slice = 0;
  for (int t = 0; t < 2; t++) {
    V x = {1, 0, -1}, d = {(T)(t ? -1 : 1), 0};
    c.update(x, d);
    for (int i = 0; i < ds; i++)
      for (int j = 0; j < xs; j++)
        a[i * xs + j] = step(a[i * xs + j], d[i] * x[j], 1, (T)0.125, -2, 2);
    for (int q = 0; q < p.n_reads_per_transfer; q++) {
      for (int o = 0; o < (columns ? ds : xs); o++) {
        int i = columns ? o * xs + slice : slice * xs + o;
        T om = h[i] + a[i] * scale, k = fclip(truncf(om / thr), -most, most);
        h[i] = sym_ite(k != 0, forget ? om * p.momentum : om - ((T)1 - p.momentum) * k * thr, om);
        s[i] += (T)0.75 * (T)0.25 * k;
      }
      slice = (slice + 1) % (columns ? xs : ds);
    }
    same(c.hidden(0), a, "fast weights");
    same(c.get("buffered_FP_weight_0"), h, "buffer after the transfer");
    V e(n);
    for (int i = 0; i < n; i++)
      e[i] = s[i] + (hide ? (T)0 : (T)0.5 * a[i]);
    same(c.visible(), e, "whole steps reach the slow weights");
  }
}
extern "C" void run_chopped() {
  bool columns = sym_fork_b("columns"), forget = sym_fork_b("forget_buffer"), hide = sym_fork_b("hidden"), corr = !hide;
  const int xs = 3, ds = 2, n = 6;
  Cell fast = cell((T)0.125, -2, 2), slow = cell((T)0.25, -8, 8);
  ChoppedTransferRPUDeviceMetaParameter<T> p;
  p.appendVecPar(fast);
  p.appendVecPar(slow);
  if (!hide)
    p.gamma = (T)0.5;
  p.transfer_columns = columns;
  p.units_in_mbatch = false;
  p.transfer_every = 1;
  p.transfer_lr = (T)1.5;
  p.forget_buffer = forget;
  p.momentum = (T)0.25;
  p.step = (T)0.75;
  p.buffer_granularity = (T)0.5;
  p.auto_granularity = corr ? (T)2 : (T)0;
  p.correct_gradient_magnitudes = corr;
  p.no_buffer = !forget && sym_fork_b("no_buffer");
  p.in_chop_prob = (T)0.5; // regular: every second visit of a vector
  p.in_chop_random = false;
  p.out_chop_prob = sym_fork_b("out_chop") ? (T)1 : (T)0;
  perfect(p.transfer_io);
  p.transfer_up.pulse_type = PulseType::None;
  const int most = 2;
  p.transfer_up.desired_BL = most;
  Comp c(xs, ds);
  pulses(c.mp.up, 1);
  T lr = ((T)0.125 + (T)0.25) / (T)2;
  c.make(p);
  c.r->setLearningRate(lr);
  V w0 = some("w", n, {1}), a = some("fast", n, {0, 4}), h = some("buffer", n, {0, 1, 3, 5}), s = w0;
  c.r->setWeights(w0.data());
  c.hide(0, a);
  c.set("buffered_FP_weight_0", h);
  int n_in = columns ? xs : ds, n_out = columns ? ds : xs, slice = 0, rounds = 0;
  T bg = (T)0.5 * (T)0.125;
  if (corr)
    bg *= (T)2 / (T)n_in;
  T scale = p.transfer_lr * lr * (hide ? (T)1 : (T)0.5);
  scale = corr ? scale / lr / (bg * (T)2) : scale / bg;
  std::vector<int> ci(n_in, 1), co(n_out, 1);
  for (int t = 0; t < n_in * 2 + 1; t++) {
    V x = {1, 0, -1}, d = {(T)(t % 2 ? -1 : 1), 0};
    c.update(x, d);
    for (int i = 0; i < ds; i++)
      for (int j = 0; j < xs; j++) {
        int sg = columns ? ci[j] * co[i] : ci[i] * co[j];
        a[i * xs + j] = step(a[i * xs + j], d[i] * x[j] * (T)sg, 1, (T)0.125, -2, 2);
      }
    for (int o = 0; o < n_out; o++) {
      int i = columns ? o * xs + slice : slice * xs + o;
      T om = (p.no_buffer ? (T)0 : h[i]) + a[i] * scale * (T)(ci[slice] * co[o]), k = fclip(truncf(om), -most, most);
      h[i] = sym_ite(k != 0, forget ? om * p.momentum : om - ((T)1 - p.momentum) * k, om);
      s[i] += (T)0.75 * (T)0.25 * k;
    }
    if (rounds % 2 == 1)
      ci[slice] = -ci[slice];
    if (slice == n_in - 1) {
      if (p.out_chop_prob > 0)
        for (auto &v : co)
          v = -v;
      rounds++;
    }
    slice = (slice + 1) % n_in;
  }
  same(c.hidden(0), a, "fast weights, with the choppers' signs");
  same(c.get("buffered_FP_weight_0"), h, "buffer after the transfers", 4e-3f);
  V e(n);
  for (int i = 0; i < ds; i++)
    for (int j = 0; j < xs; j++)
      e[i * xs + j] = s[i * xs + j] + (hide ? (T)0 : (T)0.5 * a[i * xs + j] * (T)(columns ? ci[j] * co[i] : ci[i] * co[j]));
  same(c.visible(), e, "visible weight without the choppers' signs", 4e-3f);
}

// --- pairs of one-sided cells
extern "C" void run_onesided() {
  const int xs = 2, ds = 2, n = 4;
  OneSidedRPUDeviceMetaParameter<T> p;
  p.appendVecPar(cell((T)0.125, 0, 1));
  p.appendVecPar(cell((T)0.125, 0, 1));
  bool refresh = sym_fork_b("refresh");
  const int BL = refresh ? 1 : 2;
  p.refresh_every = refresh ? 1 : 0;
  p.units_in_mbatch = false;
  p.refresh_upper_thres = (T)0.75;
  p.refresh_lower_thres = (T)0.25;
  perfect(p.refresh_io);
  p.refresh_up.pulse_type = PulseType::None;
  Comp c(xs, ds);
  pulses(c.mp.up, BL);
  c.make(p);
  c.r->setLearningRate((T)0.125 * BL);
  if (sym_fork_b("set_weights")) {
    V w = tensor("w", n, -2, 2), m = c.hidden(0);
    c.r->setWeights(w.data());
    V gp = c.hidden(1), gm = c.hidden(0), ep(n), em(n), e(n);
    for (int i = 0; i < n; i++) {
      ep[i] = fclip(w[i], 0, 1);
      em[i] = fclip(-w[i], 0, 1);
      e[i] = ep[i] - em[i];
    }
    same(gp, ep, "positive weights on the plus device");
    same(gm, em, "negative weights on the minus device");
    same(c.visible(), e, "weight is the difference");
    return;
  }
  V gm = refresh ? some("g_minus", n, {0, 3}, 0, 1) : tensor("g_minus", n, 0, 1), gp = refresh ? some("g_plus", n, {0, 3}, 0, 1) : tensor("g_plus", n, 0, 1);
  c.hide(0, gm);
  c.hide(1, gp);
  for (int t = 0; t < 2 - (refresh ? 1 : 0); t++) {
    V x = t ? V{1, -1} : signs("x", xs, true), d = t ? V{1, 0} : refresh ? V{1, -1} : signs("d", ds, false);
    c.update(x, d);
    for (int i = 0; i < ds; i++)
      for (int j = 0; j < xs; j++) {
        T s = d[i] * x[j], &q = s > 0 ? gm[i * xs + j] : gp[i * xs + j]; // a decrease is an increase of the minus device
        if (s != 0)
          q = step(q, (T)-1, BL, (T)0.125, 0, 1);
      }
    if (refresh)
      for (int i = 0; i < n; i++) {
        T hi = fmx(gp[i], gm[i]), low = fmn(gp[i], gm[i]), df = gp[i] - gm[i];
        bool hit = hi > (T)0.75 && low > (T)0.25;
        gp[i] = hit ? fmx(df, 0) : gp[i];
        gm[i] = hit ? fmx(-df, 0) : gm[i];
      }
    V e(n);
    for (int i = 0; i < n; i++)
      e[i] = gp[i] - gm[i];
    same(c.hidden(1), gp, "plus device");
    same(c.hidden(0), gm, "minus device");
    same(c.visible(), e, "weight is the difference");
  }
}

// --- mixed precision: the gradient is kept outside until it is worth whole steps
extern "C" void run_mixedprec() {
  const int xs = 2, ds = 2, n = 4;
  int quant = sym_choice("quantised", 4), m = 1 + sym_choice("batch", 2), rows = sym_choice("rows", 3) - 1; // -1 all, 0 none, 1 one
  MixedPrecRPUDeviceMetaParameter<T> p;
  p.setDevicePar(cell((T)0.125, -8, 8));
  p.n_x_bins = quant & 1 ? 5 : 0;
  p.n_d_bins = quant & 2 ? 3 : 0;
  p.transfer_every = 1 + sym_choice("every", 2);
  p.n_rows_per_transfer = rows;
  p.granularity = quant & 1 ? (T)0.25 : (T)0;
  const T gran = p.granularity > 0 ? (T)0.25 : (T)0.125, lr = (T)0.5;
  Comp c(xs, ds);
  pulses(c.mp.up, 31);
  c.make(p);
  c.r->setLearningRate(lr);
  V w = some("w", n, {1}), chi = some("chi", n, {0}, (T)-0.25, (T)0.25);
  c.r->setWeights(w.data());
  c.set("hidden_weights_chi", chi);
  same(c.get("hidden_weights_chi"), chi, "gradient memory as set");
  int count = 0, row = 0;
  const int every = p.transfer_every * m;
  auto bins = [](T v, T top, int nb) { return nb ? roundf(v / (top / (T)(nb / 2))) * (top / (T)(nb / 2)) : v; };
  for (int t = 0; t < (m == 1 ? 3 : 2); t++) {
    V x(xs * m), d(ds * m);
    const T xv[4] = {(T)0.5, (T)-0.3125, (T)-0.125, (T)0.75}, dv[4] = {(T)-0.1875, (T)0.0625, (T)0.375, (T)-0.5};
    for (int i = 0; i < 2 * m; i++) {
      x[i] = xv[(i + t) % 4];
      d[i] = dv[(i + 3 * t) % 4];
    }
    c.update(x, d, m);
    for (int b = 0; b < m; b++) {
      T *xb = &x[b * xs], *db = &d[b * ds];
      T xm = fmaxf(fabsf(xb[0]), fabsf(xb[1])), dm = fmaxf(fabsf(db[0]), fabsf(db[1]));
      for (int i = 0; i < ds; i++)
        for (int j = 0; j < xs; j++)
          chi[i * xs + j] += lr * bins(db[i], dm, p.n_d_bins) * bins(xb[j], xm, p.n_x_bins);
      if (count > 0 && count % every == 0)
        for (int q = 0; q < (rows < 0 ? ds : rows); q++) {
          for (int j = 0; j < xs; j++) {
            T k = truncf(chi[row * xs + j] / gran);
            chi[row * xs + j] -= k * gran;
            w[row * xs + j] -= k * gran;
          }
          row = (row + 1) % ds;
        }
      count++;
    }
    same(c.get("hidden_weights_chi"), chi, "gradient memory after the update");
    same(c.visible(), w, "whole steps reach the weights");
  }
}

// --- what a device stores itself survives setting its parameters
template <class P> static void state_noise() {
  const int n = 2;
  P p;
  static_cast<PulsedRPUDeviceMetaParameter<T> &>(p) = cell((T)0.125, -1, 1);
  if constexpr (std::is_same<P, LinearStepRPUDeviceMetaParameter<T>>::value)
    p.ls_decrease_up_dtod = p.ls_decrease_down_dtod = 0;
  p.write_noise_std = 2;
  Comp c(2, 1);
  pulses(c.mp.up, 1);
  c.make(p);
  V w = tensor("w", n, -1, 1), s = tensor("stored", n, -2, 2), e(n);
  c.r->setWeights(w.data());
  same(c.get("persistent_weights"), w, "stored weights as given to the tile");
  c.set("persistent_weights", s);
  for (int i = 0; i < n; i++)
    e[i] = fclip(s[i], -1, 1);
  same(c.get("persistent_weights"), e, "stored weights as set");
}
extern "C" void run_state_noise() { state_noise<LinearStepRPUDeviceMetaParameter<T>>(); }
extern "C" void run_state_noise_exp() { state_noise<ExpStepRPUDeviceMetaParameter<T>>(); }
extern "C" void run_state_noise_softref() { state_noise<SoftBoundsReferenceRPUDeviceMetaParameter<T>>(); }

// --- a copy of a compound goes on as the original, and shares nothing with it
static void go(Comp &c, int n, int at, std::vector<V> *seen) {
  for (int t = 0; t < n; t++) {
    V x = {(T)((t + at) % 2 ? -1 : 1), 1}, d = {1, (T)(t % 2 ? 1 : -1)};
    c.update(x, d);
  }
  if (seen) {
    seen->push_back(c.visible());
    c.r->getDeviceParameter(c.ptrs);
    for (size_t k = 0; k < c.names.size(); k++)
      if (c.names[k].find("hidden") == 0 || c.names[k].find("buffered") == 0)
        seen->push_back(dup(c.dp[k]));
  }
}
template <class F> static void copies(F make) {
  int how = sym_choice("how", 5), before = sym_choice("before", 2);
  Comp a(2, 2), b(2, 2);
  make(a);
  V w = some("w", 4, {0}, -1, 1);
  a.r->setWeights(w.data());
  for (size_t k = 0; k < a.names.size(); k++) // any state of the weights inside (the last of a transfer device stays)
    if (a.names[k].find("hidden") == 0 && a.names[k] != "hidden_weights_1") {
      a.set(a.names[k], some("hidden", 4, {0, 3}, (T)0, (T)0.25));
    }
  go(a, before, 0, nullptr);
  if (how == 0)
    b.r.reset(new RPUPulsed<T>(*a.r));
  else if (how == 1) {
    make(b);
    *b.r = *a.r;
  } else if (how == 2) {
    RPUPulsed<T> q(*a.r);
    b.r.reset(new RPUPulsed<T>(std::move(q)));
  } else if (how == 3) {
    RPUPulsed<T> q(*a.r);
    make(b);
    *b.r = std::move(q);
  } else { // saved and loaded
    make(b);
    a.r->getDeviceParameter(a.ptrs);
    V v = a.visible();
    for (int q = 0; q < 2; q++) {
      for (size_t k = 0; k < a.names.size(); k++)
        b.dp[k] = dup(a.dp[k]);
      b.ptrs.clear();
      for (auto &u : b.dp)
        b.ptrs.push_back(u.data());
      b.r->setDeviceParameter(b.ptrs);
      if (q == 0) {
        b.r->setWeights(v.data());
        b.r->setLearningRate(a.r->getLearningRate());
        RPU::state_t st;
        a.r->dumpExtra(st, "tile");
        b.r->loadExtra(st, "tile", false);
      }
    }
  }
  b.attach();
  same(b.visible(), a.visible(), "same visible weights");
  if (how < 4) { // a copy is also saved as the original
    RPU::state_t p, q;
    a.r->dumpExtra(p, "tile");
    b.r->dumpExtra(q, "tile");
    sym_assert(p.size() == q.size(), "as many saved values");
    for (auto &e : p) {
      sym_assert(q.count(e.first) && q[e.first].size() == e.second.size(), "saved values of the same kind and number");
      for (size_t k = 0; k < e.second.size() && k < q[e.first].size(); k++)
        sym_close((T)q[e.first][k], (T)e.second[k], "saved values", 1e-3f);
    }
  }
  std::vector<V> sa, sb;
  go(b, 3, before, &sb);
  go(a, 3, before, &sa);
  sym_assert(sa.size() == sb.size() && sa.size() > 1, "as many results");
  for (size_t k = 0; k < sa.size(); k++)
    same(sb[k], sa[k], "a copy goes on as the original");
}
extern "C" void run_copy_vector() {
  bool seq = sym_fork_b("sequential");
  copies([&](Comp &c) {
    VectorRPUDeviceMetaParameter<T> p;
    p.appendVecPar(cell((T)0.125, -1, 1));
    p.appendVecPar(cell((T)0.125, -1, 1));
    p.gamma_vec = {(T)0.5, 2};
    p.update_policy = seq ? VectorDeviceUpdatePolicy::SingleSequential : VectorDeviceUpdatePolicy::All;
    pulses(c.mp.up, 1);
    c.make(p);
    c.r->setLearningRate((T)0.125);
  });
}
extern "C" void run_copy_onesided() {
  copies([&](Comp &c) {
    OneSidedRPUDeviceMetaParameter<T> p;
    p.appendVecPar(cell((T)0.125, 0, 1));
    p.appendVecPar(cell((T)0.125, 0, 1));
    p.refresh_every = 0;
    pulses(c.mp.up, 1);
    c.make(p);
    c.r->setLearningRate((T)0.125);
  });
}
template <class P> static void copy_transfer(bool gamma) {
  copies([&](Comp &c) {
    P p;
    p.appendVecPar(cell((T)0.125, -1, 1));
    p.appendVecPar(cell((T)0.125, -4, 4));
    p.gamma = gamma ? (T)0.5 : (T)0;
    p.units_in_mbatch = false;
    p.transfer_every = 2;
    p.transfer_lr = (T)0.5;
    p.scale_transfer_lr = false;
    if constexpr (std::is_base_of<ChoppedTransferRPUDeviceMetaParameter<T>, P>::value) {
      p.in_chop_prob = (T)0.5;
      p.in_chop_random = false;
    }
    perfect(p.transfer_io);
    p.transfer_up.pulse_type = PulseType::None;
    pulses(c.mp.up, 1);
    c.make(p);
    c.r->setLearningRate((T)0.125);
  });
}
extern "C" void run_copy_transfer() { copy_transfer<TransferRPUDeviceMetaParameter<T>>(true); }
extern "C" void run_copy_transfer_hidden() { copy_transfer<TransferRPUDeviceMetaParameter<T>>(false); }
extern "C" void run_copy_buffered() { copy_transfer<BufferedTransferRPUDeviceMetaParameter<T>>(true); }
extern "C" void run_copy_chopped() { copy_transfer<ChoppedTransferRPUDeviceMetaParameter<T>>(false); }
extern "C" void run_copy_mixedprec() {
  copies([&](Comp &c) {
    MixedPrecRPUDeviceMetaParameter<T> p;
    p.setDevicePar(cell((T)0.125, -4, 4));
    p.transfer_every = 2;
    p.n_rows_per_transfer = 1;
    pulses(c.mp.up, 15);
    c.make(p);
    c.r->setLearningRate((T)0.0625);
  });
}
