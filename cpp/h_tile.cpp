// Batched, transposed, biased and indexed products and updates of a tile equal those of its single vectors.
#include "fix_dev.h"
#include "rpu.h"
#include "rpu_pulsed.h"
#include "weight_modifier.h"

typedef std::vector<T> V;
__attribute__((noinline)) static V tensor(const char *n, int k, T lo = -2, T hi = 2) {
  V v(k);
  for (auto &x : v)
    x = sym_fr(n, lo, hi);
  return v;
}
__attribute__((noinline)) static V dup(const V &a) { return a; }
static void same(const V &a, const V &b, const char *id, T tol = 1e-3f) {
  for (size_t i = 0; i < a.size(); i++) {
    sym_observe(id, a[i]);
    sym_close(a[i], b[i], id, tol);
  }
}

struct Tile { // 0: floating point, 1: analog with perfect products, 2: analog with bounded inputs and outputs
  int kind, xs, ds;
  std::unique_ptr<RPUSimple<T>> rpu;
  PulsedMetaParameter<T> mp;
  SimpleRPUDeviceMetaParameter<T> dp;
  V w;
  T lr = (T)0.25;
  static void off(IOMetaParameter<T> &p) {
    p.inp_bound = (T)1;
    p.out_bound = (T)3;
    p.inp_res = p.out_res = (T)-1;
    p.inp_noise = p.out_noise = 0;
    p.noise_management = NoiseManagementType::None;
    p.bound_management = BoundManagementType::None;
  }
  Tile(int kind, int x, int d) : kind(kind), xs(x), ds(d), w(x * d) {
    for (int i = 0; i < x * d; i++) // fixed weights where inputs are clipped, see C03 for arbitrary ones
      w[i] = kind == 2 ? (T)(i % 2 ? -0.5 : 0.75) + (T)0.25 * (T)i : sym_fr("w", -2, 2);
    if (kind == 0) {
      SimpleMetaParameter<T> p;
      rpu.reset(new RPUSimple<T>(xs, ds));
      rpu->populateParameter(&p);
    } else {
      off(mp.f_io);
      off(mp.b_io);
      mp.f_io.is_perfect = mp.b_io.is_perfect = kind == 1;
      mp.up.pulse_type = PulseType::None;
      auto *r = new RPUPulsed<T>(xs, ds);
      r->populateParameter(&mp, &dp);
      rpu.reset(r);
    }
    rpu->setLearningRate(lr);
    rpu->setWeights(w.data());
  }
  T in(T v) { return kind == 2 ? fclip(v, -1, 1) : v; }
  T out(T v) { return kind == 2 ? fclip(v, -3, 3) : v; }
  V weights() {
    V a(xs * ds);
    rpu->getWeights(a.data());
    return a;
  }
};
static int at(bool trans, int b, int i, int n, int m) { return trans ? i * m + b : b * n + i; }

static void products(int kind) {
  int op = sym_choice("op", 3), m = 1 + sym_choice("batch", 2);
  bool bias = sym_fork_b("bias"), xt = sym_fork_b("x_trans"), dt = sym_fork_b("d_trans");
  Tile t(kind, 3, 2);
  const int nx = 3 - bias, nd = 2;
  V x = tensor("x", nx * m), d = tensor("d", nd * m), y(nd * m), z(nx * m), w = t.w;
  if (op == 0) {
    t.rpu->forward(x.data(), y.data(), bias, m, xt, dt, sym_fork_b("test"));
    for (int b = 0; b < m; b++)
      for (int i = 0; i < nd; i++) {
        T e = bias ? w[i * 3 + 2] : (T)0;
        for (int j = 0; j < nx; j++)
          e += w[i * 3 + j] * t.in(x[at(xt, b, j, nx, m)]);
        sym_observe("y", y[at(dt, b, i, nd, m)]);
        sym_close(y[at(dt, b, i, nd, m)], t.out(e), "forward product of each sample", 1e-3f);
      }
  } else if (op == 1) {
    t.rpu->backward(d.data(), z.data(), bias, m, dt, xt);
    for (int b = 0; b < m; b++)
      for (int j = 0; j < nx; j++) {
        T e = 0;
        for (int i = 0; i < nd; i++)
          e += w[i * 3 + j] * t.in(d[at(dt, b, i, nd, m)]);
        sym_observe("z", z[at(xt, b, j, nx, m)]);
        sym_close(z[at(xt, b, j, nx, m)], t.out(e), "transposed product of each sample", 1e-3f);
      }
  } else {
    V dw(6, (T)5);
    bool extern_dw = sym_fork_b("delta_weights");
    if (extern_dw)
      t.rpu->setDeltaWeights(dw.data());
    t.rpu->update(x.data(), d.data(), bias, m, xt, dt);
    V a = t.weights();
    for (int i = 0; i < nd; i++)
      for (int j = 0; j < 3; j++) {
        T g = 0;
        for (int b = 0; b < m; b++)
          g += d[at(dt, b, i, nd, m)] * (j < nx ? x[at(xt, b, j, nx, m)] : (T)1);
        sym_close(a[i * 3 + j], extern_dw ? w[i * 3 + j] : w[i * 3 + j] - t.lr * g, "sum of the outer products times the learning rate", 1e-3f);
        if (extern_dw)
          sym_close(dw[i * 3 + j], g, "gradient in the given matrix", 1e-3f);
      }
    t.rpu->setDeltaWeights(nullptr);
  }
}
extern "C" void run_products_fp() { products(0); }
extern "C" void run_products_perfect() { products(1); }
extern "C" void run_products_io() { products(2); }

// products of image patches given by an index matrix: 0 is a zero, 1 a one, k an element k - 2 of the image
static void indexed(int kind) {
  const int xs = 2, ds = 2, m = 2, size = 3; // two inputs, two outputs, patches at two places, images of three pixels
  int N = 1 + sym_choice("images", 2), op = sym_choice("op", 3);
  Tile t(kind, xs, ds);
  int idx[xs * m];
  for (int k = 0; k < xs * m; k++)
    idx[k] = sym_choice("index", k < 2 ? 5 : 3); // may point to the same pixel
  t.rpu->setMatrixIndices(idx);
  V x = tensor("x", size * N), d = tensor("d", ds * m * N), y(ds * m * N), z(size * N, (T)9), e(size * N, (T)0), w = t.w;
  auto patch = [&](int n, int j, int p) { return idx[j * m + p] < 2 ? (T)idx[j * m + p] : x[n * size + idx[j * m + p] - 2]; };
  if (op == 0) {
    t.rpu->forwardIndexed(x.data(), y.data(), size * N, m, N, true, sym_fork_b("test"));
    for (int n = 0; n < N; n++)
      for (int i = 0; i < ds; i++)
        for (int p = 0; p < m; p++) {
          T s = 0;
          for (int j = 0; j < xs; j++)
            s += w[i * xs + j] * t.in(patch(n, j, p));
          sym_observe("y", y[(n * ds + i) * m + p]);
          sym_close(y[(n * ds + i) * m + p], t.out(s), "product of each patch", 1e-3f);
        }
  } else if (op == 1) {
    t.rpu->backwardIndexed(d.data(), z.data(), size * N, m, N, true);
    for (int n = 0; n < N; n++)
      for (int p = 0; p < m; p++)
        for (int j = 0; j < xs; j++) {
          T s = 0;
          for (int i = 0; i < ds; i++)
            s += w[i * xs + j] * t.in(d[(n * ds + i) * m + p]);
          if (idx[j * m + p] >= 2)
            e[n * size + idx[j * m + p] - 2] += t.out(s);
        }
    same(z, e, "gradients added up at their pixels");
  } else {
    t.rpu->updateIndexed(x.data(), d.data(), size * N, m, N, true);
    V a = t.weights();
    for (int i = 0; i < ds; i++)
      for (int j = 0; j < xs; j++) {
        T g = 0;
        for (int n = 0; n < N; n++)
          for (int p = 0; p < m; p++)
            g += d[(n * ds + i) * m + p] * patch(n, j, p);
        sym_close(a[i * xs + j], w[i * xs + j] - t.lr * g, "outer products of all patches", 1e-3f);
      }
  }
}
extern "C" void run_indexed_fp() { indexed(0); }
extern "C" void run_indexed_perfect() { indexed(1); }
extern "C" void run_indexed_io() { indexed(2); }

// a batch is the sequence of its samples, also for a pulsed update with bounds; with external delta weights the weights stay
extern "C" void run_pulsed_batch() {
  bool bias = sym_fork_b("bias"), xt = sym_fork_b("x_trans"), dt = !xt, ext = sym_fork_b("delta_weights");
  const int xs = 2, ds = 1, m = 2, nx = 2 - bias;
  ConstantStepRPUDeviceMetaParameter<T> dp;
  dp.dw_min_dtod = dp.w_min_dtod = dp.w_max_dtod = dp.up_down_dtod = dp.dw_min_std = 0;
  dp.dw_min = (T)0.125;
  dp.w_max = (T)0.5;
  dp.w_min = (T)-0.25;
  PulsedMetaParameter<T> mp;
  Tile::off(mp.f_io);
  Tile::off(mp.b_io);
  mp.up.pulse_type = PulseType::DeterministicImplicit;
  mp.up.desired_BL = 3;
  mp.up.update_management = mp.up.update_bl_management = false;
  mp.up.fixed_BL = true;
  RPUPulsed<T> a(xs, ds), b(xs, ds);
  a.populateParameter(&mp, &dp);
  b.populateParameter(&mp, &dp);
  V w = tensor("w", xs * ds, -0.25, 0.5), x = tensor("x", nx * m, -1, 1), d(ds * m), dw(xs * ds, (T)5);
  bool neg = sym_fork_b("d_neg");
  for (int i = 0; i < m; i++)
    d[i] = (i == 0) == neg ? (T)-0.75 : (T)1;
  for (auto *r : {&a, &b}) {
    r->setLearningRate((T)0.25);
    r->setWeights(w.data());
  }
  if (ext)
    a.setDeltaWeights(dw.data());
  a.update(x.data(), d.data(), bias, m, xt, dt);
  for (int k = 0; k < m; k++) {
    V xv(nx), dv(ds);
    for (int j = 0; j < nx; j++)
      xv[j] = x[at(xt, k, j, nx, m)];
    for (int i = 0; i < ds; i++)
      dv[i] = d[at(dt, k, i, ds, m)];
    b.update(xv.data(), dv.data(), bias, 1, false, false);
  }
  V wa(xs * ds), wb(xs * ds);
  a.getWeights(wa.data());
  b.getWeights(wb.data());
  if (ext) {
    same(wa, w, "weights kept");
    for (int i = 0; i < xs * ds; i++)
      sym_close(dw[i] * (T)-0.25, wb[i] - w[i], "change over the negative learning rate", 1e-3f);
  } else
    same(wa, wb, "batch as the sequence of its samples");
}

// a copied tile goes on as the original would and shares nothing with it
template <class R> static void history(R &r, int n, V *seen, T t, V &x) {
  const int xs = 2;
  WeightClipParameter c;
  c.type = WeightClipType::FixedValue;
  c.fixed_value = (T)1.5;
  for (int k = 0; k < n; k++) {
    r.driftWeights(t);
    T y = 0;
    r.forward(x.data(), &y, false, 1, false, false, false);
    if (seen)
      seen->push_back(y);
    r.forward(x.data(), &y, false, 1, false, false, true);
    if (seen)
      seen->push_back(y);
    r.clipWeights(c);
    V d(1, (T)1);
    r.update(x.data(), d.data(), false, 1, false, false);
  }
  V w(xs);
  r.getWeights(w.data());
  if (seen)
    for (T v : w)
      seen->push_back(v);
}
template <class R, class F> static void copies(F populate, V &x, V &w) {
  R a(2, 1);
  populate(a);
  int how = sym_choice("how", 4);
  a.setLearningRate((T)0.375);
  a.setWeights(w.data());
  WeightModifierParameter<T> mod;
  mod.type = WeightModifierType::Discretize;
  mod.rel_to_actual_wmax = false;
  mod.res = (T)0.5;
  bool modified = sym_fork_b("modified");
  if (modified && sym_fork_b("also_in_tests"))
    mod.enable_during_test = true;
  if (modified)
    a.modifyFBWeights(mod);
  int pre = sym_choice("before", 2);
  history(a, pre, nullptr, (T)3, x);
  V sa, sb, sc;
  if (how == 0) {
    R b(a);
    history(b, 2, &sb, (T)2, x);
    history(a, 2, &sa, (T)2, x);
  } else if (how == 1) {
    R b(2, 1);
    b = a;
    history(b, 2, &sb, (T)2, x);
    history(a, 2, &sa, (T)2, x);
  } else if (how == 2) { // saved and loaded
    R b(2, 1);
    populate(b);
    b.setWeights(a.getWeightsPtr()[0]);
    RPU::state_t state;
    a.dumpExtra(state, "tile");
    b.loadExtra(state, "tile", true);
    history(b, 2, &sb, (T)2, x);
    history(a, 2, &sa, (T)2, x);
  } else {
    R c(a);
    R b(std::move(c));
    history(b, 2, &sb, (T)2, x);
    history(a, 2, &sa, (T)2, x);
  }
  sym_assert(sa.size() == sb.size(), "as many results");
  same(sb, sa, "a copy goes on as the original");
}
extern "C" void run_copy_fp() {
  V w = tensor("w", 2), x = tensor("x", 2);
  copies<RPUSimple<T>>(
      [](RPUSimple<T> &r) {
        SimpleMetaParameter<T> p;
        p.drift.nu = (T)0.5;
        r.populateParameter(&p);
      },
      x, w);
}
template <class Meta> static void copy_pulsed(PulseType pulse) {
  V w = tensor("w", 2, -1, 2), x(2);
  if (!std::is_same<Meta, ConstantStepRPUDeviceMetaParameter<T>>::value) // response depends on the weight
    for (auto &v : w)
      v = sym_fork_b("w_neg") ? (T)-0.25 : (T)0.5;
  for (auto &v : x)
    v = sym_fork_b("x_neg") ? (T)-1 : (T)1;
  copies<RPUPulsed<T>>(
      [&](RPUPulsed<T> &r) {
        Meta dp;
        dp.dw_min_dtod = dp.w_min_dtod = dp.w_max_dtod = dp.up_down_dtod = dp.dw_min_std = 0;
        if constexpr (std::is_same<Meta, LinearStepRPUDeviceMetaParameter<T>>::value)
          dp.ls_decrease_up_dtod = dp.ls_decrease_down_dtod = 0;
        dp.dw_min = (T)0.125;
        dp.w_max = (T)2;
        dp.w_min = (T)-1;
        dp.drift.nu = (T)0.5;
        PulsedMetaParameter<T> mp;
        Tile::off(mp.f_io);
        Tile::off(mp.b_io);
        mp.up.pulse_type = pulse;
        mp.up.desired_BL = 3;
        mp.up.update_management = mp.up.update_bl_management = false;
        mp.up.fixed_BL = true;
        r.populateParameter(&mp, &dp);
      },
      x, w);
}
extern "C" void run_copy_det() { copy_pulsed<ConstantStepRPUDeviceMetaParameter<T>>(PulseType::DeterministicImplicit); }
extern "C" void run_copy_mean() { copy_pulsed<ConstantStepRPUDeviceMetaParameter<T>>(PulseType::MeanCount); }
extern "C" void run_copy_linear() { copy_pulsed<LinearStepRPUDeviceMetaParameter<T>>(PulseType::DeterministicImplicit); }
extern "C" void run_copy_soft() { copy_pulsed<SoftBoundsReferenceRPUDeviceMetaParameter<T>>(PulseType::DeterministicImplicit); }
extern "C" void run_copy_exp() { copy_pulsed<ExpStepRPUDeviceMetaParameter<T>>(PulseType::DeterministicImplicit); }
extern "C" void run_copy_piece() { copy_pulsed<PiecewiseStepRPUDeviceMetaParameter<T>>(PulseType::DeterministicImplicit); }
