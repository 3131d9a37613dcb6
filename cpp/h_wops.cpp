// Weight modifiers, clipping, remapping, drift, decay, diffusion and reset equal their documented laws.
#include "fix_dev.h"
#include "rpu.h"
#include "weight_clipper.h"
#include "weight_drifter.h"
#include "weight_modifier.h"
#include "weight_remapper.h"

typedef std::vector<T> V;
__attribute__((noinline)) static V tensor(const char *n, int k, T lo = -2, T hi = 2) {
  V v(k);
  for (auto &x : v)
    x = sym_fr(n, lo, hi);
  return v;
}
__attribute__((noinline)) static V dup(const V &a) { return a; }
static void same(const V &a, const V &b, const char *id, T tol = 1e-4f) {
  for (size_t i = 0; i < a.size(); i++) {
    sym_observe(id, a[i]);
    sym_close(a[i], b[i], id, tol);
  }
}

/* ---------------------------------------------------------------- modifiers */
struct Mod {
  static const int xs = 2, ds = 2;
  WeightModifierParameter<T> p;
  V w = tensor("w", xs * ds), out = V(xs * ds, (T)7);
  T amax = 1;
  int g = 0, u = 0;
  void draw(WeightModifierType t) {
    p.type = t;
    p.copy_last_column = sym_fork_b("copy_last");
    p.rel_to_actual_wmax = sym_fork_b("rel");
    p.assumed_wmax = p.rel_to_actual_wmax ? (T)16 : sym_fr("assumed", 0.25, 2);
    p.enable_during_test = sym_fork_b("during_test");
  }
  bool kept(int i) { return p.copy_last_column && i % xs == xs - 1; }
  void go() {
    V w0 = w;
    WeightModifier<T> m(xs, ds);
    m.apply(out.data(), w.data(), p);
    same(w, w0, "weights not changed by the modifier");
    sym_assert(m.enableDuringTest() == p.enable_during_test, "use in evaluation as set");
    amax = p.assumed_wmax;
    if (p.rel_to_actual_wmax) {
      amax = 0;
      for (int i = 0; i < xs * ds; i++)
        if (!kept(i))
          amax = fmx(amax, fabsf(w[i]));
      amax = sym_ite(amax > (T)0, amax, (T)1);
    }
  }
  T gauss() { return verif_draws.g[g++]; }
  T uni() { return verif_draws.u[u++]; }
  void check(V &e, const char *id) {
    for (int i = 0; i < xs * ds; i++)
      if (kept(i))
        e[i] = w[i];
    same(out, e, id, 2e-3f);
  }
};

extern "C" void run_mod_add() {
  Mod m;
  m.draw(WeightModifierType::AddNormal);
  m.p.std_dev = sym_fork_b("off") ? (T)0 : sym_fr("std", 0.03125, 1);
  m.go();
  V e = m.w;
  if (m.p.std_dev > (T)0)
    for (auto &v : e)
      v += m.p.std_dev * m.amax * m.gauss();
  m.check(e, "additive noise");
}
extern "C" void run_mod_mult() {
  Mod m;
  m.draw(WeightModifierType::MultNormal);
  m.p.rel_to_actual_wmax = false;
  m.p.assumed_wmax = 1;
  m.p.std_dev = sym_fork_b("off") ? (T)0 : sym_fr("std", 0.03125, 1);
  m.go();
  V e = m.w;
  if (m.p.std_dev > (T)0)
    for (auto &v : e)
      v += v * m.p.std_dev * m.gauss();
  m.check(e, "multiplicative noise");
}
extern "C" void run_mod_poly() {
  Mod m;
  bool prog = sym_fork_b("prog");
  m.draw(prog ? WeightModifierType::ProgNoise : WeightModifierType::Poly);
  m.p.copy_last_column = true;
  m.p.std_dev = sym_fork_b("off") ? (T)0 : sym_fr("std", 0.25, 1);
  m.p.g_max = 4;
  m.p.coeffs = {(T)0.5, (T)0.25, (T)-0.125};
  m.go();
  V e = m.w;
  if (m.p.std_dev > (T)0)
    for (auto &v : e) {
      T a = fabsf(v) / m.amax;
      T s = (m.p.coeffs[0] + m.p.coeffs[1] * a + m.p.coeffs[2] * a * a) * m.p.std_dev * m.amax * m.gauss();
      if (prog) {
        s = s / (T)4;
        v = sym_ite(v < (T)0, -fabsf(v + s), fabsf(v + s));
      } else
        v += s;
    }
  m.check(e, "noise with the strength of the polynomial");
}
static T grid(Mod &m, T v, T step) { // nearest multiple, or one of the two neighbours for stochastic rounding
  return (T)roundf(v / step + (m.p.sto_round ? m.uni() - (T)0.5 : (T)0)) * step;
}
extern "C" void run_mod_disc() {
  Mod m;
  bool noisy = sym_fork_b("noisy");
  m.draw(noisy ? WeightModifierType::DiscretizeAddNormal : WeightModifierType::Discretize);
  m.p.copy_last_column = sym_fork_b("copy_last");
  m.p.sto_round = sym_fork_b("sto");
  m.p.res = sym_fork_b("off") ? (T)0 : (T)0.25;
  m.p.std_dev = sym_fork_b("std") ? (T)0.5 : (T)0;
  m.go();
  V e = m.w;
  bool round = m.p.res > (T)0;
  if (round || (noisy && m.p.std_dev > (T)0))
    for (auto &v : e) {
      if (round)
        v = grid(m, v / m.amax, m.p.res) * m.amax;
      if (noisy)
        v += m.p.std_dev * m.amax * m.gauss();
    }
  m.check(e, "discretised weights");
}
extern "C" void run_mod_disc_levels() { // documented: 1/res steps of equal size from -max to max
  Mod m;
  m.p.type = WeightModifierType::Discretize;
  m.p.rel_to_actual_wmax = false;
  m.p.assumed_wmax = 1;
  m.p.res = (T)0.25;
  m.go();
  for (int i = 0; i < 2; i++) {
    T q = m.out[i] / (T)0.5;
    sym_assert(q == (T)roundf(q), "four steps from the lowest to the highest weight for a resolution of a quarter");
  }
}
extern "C" void run_mod_dorefa() {
  Mod m;
  m.draw(WeightModifierType::DoReFa);
  m.p.rel_to_actual_wmax = false;
  m.p.assumed_wmax = sym_fork_b("assumed_two") ? (T)2 : (T)1;
  m.p.copy_last_column = true;
  m.p.sto_round = sym_fork_b("sto");
  m.p.res = sym_fork_b("off") ? (T)0 : (T)0.25;
  m.p.dorefa_clip = (T)0.5;
  m.go();
  V e = m.w;
  if (m.p.res > (T)0)
    for (auto &v : e) {
      T t = (T)tanh((float)v) * (T)fabsf((T)0.5 / (T)tanh((float)m.amax));
      v = grid(m, t, m.p.res);
    }
  m.check(e, "DoReFa levels");
}
extern "C" void run_mod_drop() {
  Mod m;
  int k = sym_choice("kind", 3);
  m.draw(k == 0 ? WeightModifierType::DropConnect : k == 1 ? WeightModifierType::Copy : WeightModifierType::AddNormal);
  m.p.rel_to_actual_wmax = false;
  m.p.std_dev = (T)0.5;
  m.p.pdrop = sym_fork_b("off") ? (T)0 : sym_fr("pdrop", 0.03125, 1);
  m.go();
  V e = m.w;
  for (auto &v : e)
    if (k == 2)
      v += (T)0.5 * m.amax * m.gauss();
  if (m.p.pdrop > (T)0)
    for (auto &v : e)
      v = sym_ite(m.uni() < m.p.pdrop, (T)0, v);
  m.check(e, "dropped connections are zero, the others stay");
}

/* ---------------------------------------------------------------- clipping */
extern "C" void run_clip() {
  const int xs = 2, ds = 2;
  V w = tensor("w", xs * ds), e = w;
  WeightClipParameter p;
  int k = sym_choice("kind", 4);
  p.type = k == 0 ? WeightClipType::FixedValue : k == 1 ? WeightClipType::AverageChannelMax : k == 2 ? WeightClipType::LayerGaussian
                                                                                                     : WeightClipType::None;
  T f = sym_fr("value", -1, 2);
  p.fixed_value = f;
  p.sigma = 2;
  WeightClipper<T> c(xs, ds);
  int rounds = k == 1 && sym_fork_b("twice") ? 2 : 1; // once more with the same clipper
  for (int r = 0; r < rounds; r++) {
    c.apply(w.data(), p);
    T v = f;
    if (k == 1)
      v = (fmx(fabsf(e[0]), fabsf(e[1])) + fmx(fabsf(e[2]), fabsf(e[3]))) / (T)2;
    if (k == 2) {
      T mean = (e[0] + e[1] + e[2] + e[3]) / (T)4, q = 0;
      for (T a : e)
        q += (a - mean) * (a - mean) / (T)3;
      v = (T)2 * (T)sqrtf(q);
    }
    if (k == 1 || k == 2)
      v = sym_ite(f > (T)0, fmn(f, v), v);
    for (auto &a : e)
      a = k == 3 ? a : sym_ite(v > (T)0, fclip(a, -v, v), a);
  }
  same(w, e, "clipped at the documented value");
}

/* ---------------------------------------------------------------- remapping */
static void remap(WeightRemapType t, bool range) {
  const int xs = 2, ds = 2;
  V w = tensor("w", xs * ds), w0 = w, s = tensor("scale", ds, 0.25, 2), s0 = dup(s);
  WeightRemapParameter p;
  p.type = t;
  p.remapped_wmax = range || sym_fork_b("wmax_one") ? 1.0 : 0.5;
  T lim = 2, ref = 0;
  if (range) {
    p.max_scale_range = lim;
    ref = sym_fork_b("ref") ? (T)0.5 : (T)0;
    p.max_scale_ref = ref;
  }
  WeightRemapper<T> r(xs, ds);
  if (sym_fork_b("used")) { // the remapper has seen other weights before
    V o(4, (T)2), q(2, (T)1);
    r.apply(o.data(), (T)0.1, p, q.data(), nullptr);
  }
  r.apply(w.data(), (T)0.1, p, s.data(), nullptr);
  for (int i = 0; i < xs * ds; i++)
    sym_close(w[i] * s[i / xs], w0[i] * s0[i / xs], "logical weights kept", 1e-3f);
  T all = 0, m[2] = {0, 0};
  for (int i = 0; i < xs * ds; i++)
    m[i / xs] = fmx(m[i / xs], fabsf(w0[i]));
  all = fmx(m[0], m[1]);
  T smin = fmn(s0[0], s0[1]);
  if (ref > (T)0)
    smin = fmx(smin, ref);
  for (int d = 0; d < ds; d++) {
    sym_observe("scale", s[d]);
    T mx = t == WeightRemapType::LayerwiseSymmetric ? all : m[d];
    T want = sym_ite(mx > (T)0, s0[d] * mx / (T)p.remapped_wmax, s0[d]);
    if (range)
      want = fmn(want, smin * lim);
    sym_close(s[d], want, "scale of the largest weight, within the range of scales", 1e-3f);
  }
}
extern "C" void run_remap_layer() { remap(WeightRemapType::LayerwiseSymmetric, false); }
extern "C" void run_remap_channel() { remap(WeightRemapType::ChannelwiseSymmetric, false); }
extern "C" void run_remap_range() { remap(WeightRemapType::ChannelwiseSymmetric, true); }

/* ---------------------------------------------------------------- drift */
struct Drift {
  DriftParameter<T> p;
  RealWorldRNG<T> rw{1};
  RNG<T> rng{1};
  T w0, t = 0, now = 0, nu;
  int g = 0;
  bool simple = true;
  T expect(T w) { // drifted value of an unchanged weight
    T n = nu;
    if (p.nu_std > (T)0)
      n = n + p.nu_std * n * verif_draws.g[g++];
    if (p.nu_k != (T)0)
      n = n - p.nu_k * ((T)logf((w - p.w_offset) / p.wg_ratio + p.g_offset) - p.logG0);
    T dt = fmx(now - t, (T)1);
    T f = (T)powf(dt, -n);
    // the conductance (w - w_offset)/wg_ratio + g_offset decays by f
    return ((w0 - p.w_offset) / p.wg_ratio + p.g_offset) * f * p.wg_ratio - p.g_offset * p.wg_ratio + p.w_offset;
  }
};
static void drift(int kind) {
  Drift d;
  d.p.nu = (T)0.25;
  d.p.t0 = (T)2;
  bool simple = kind == 0;
  if (kind == 2)
    d.p.nu_dtod = (T)0.5;
  if (kind == 3)
    d.p.nu_std = (T)0.5;
  if (kind == 4) {
    d.p.nu_k = (T)0.125;
    d.p.logG0 = (T)-0.5;
    d.p.g_offset = (T)4;
  }
  if (kind == 5) {
    d.p.wg_ratio = (T)0.5;
    d.p.g_offset = (T)2;
    d.p.w_offset = (T)0.25;
  }
  bool noise = kind == 6;
  if (noise)
    d.p.w_read_std = (T)0.25;
  auto wd = simple ? std::make_unique<WeightDrifter<T>>(1, d.p) : std::make_unique<WeightDrifter<T>>(1, d.p, &d.rw);
  d.nu = d.p.nu;
  if (!simple)
    d.nu = d.p.nu + d.p.nu_dtod * d.p.nu * verif_draws.g[d.g++];
  T w = sym_fr("w", -1, 1);
  d.w0 = w;
  for (int r = 0; r < 3; r++) {
    bool written = r > 0 && sym_fork_b("written");
    if (written) {
      T v = sym_fr("w_new", -1, 1);
      sym_assume(fabsf(v - w) > (T)0.01);
      w = v;
    }
    T dt = sym_fr("dt", 0, 8), before = w;
    d.now += dt / d.p.t0;
    wd->apply(&w, dt, d.rng);
    T e = before;
    if (written) {
      d.w0 = before;
      d.t = d.now;
    } else
      e = d.expect(before);
    if (noise)
      e += (T)0.25 * verif_draws.g[d.g++];
    sym_observe("drifted", w);
    sym_close(w, e, written ? "a written weight starts to drift anew" : "power law since the weight was written", 1e-3f);
  }
}
extern "C" void run_drift_simple() { drift(0); }
extern "C" void run_drift_plain() { drift(1); }
extern "C" void run_drift_dtod() { drift(2); }
extern "C" void run_drift_std() { drift(3); }
extern "C" void run_drift_k() { drift(4); }
extern "C" void run_drift_offset() { drift(5); }
extern "C" void run_drift_noise() { drift(6); }

/* ---------------------------------------------------------------- decay, diffusion and reset of devices */
template <class K> static void device_ops(bool persistent) {
  Fix<typename K::Meta> f(2, 2);
  f.nodtod();
  int op = sym_choice("op", 6);
  if (persistent)
    f.par.write_noise_std = (T)0.5;
  if (op == 5)
    f.par.drift.nu = (T)0.25, f.par.drift.g_offset = (T)2;
  f.par.reset_std = op == 3 && sym_fork_b("no_reset_noise") ? (T)0 : (T)0.25;
  f.create();
  f.randomize(f.n);
  f.apply();
  if (persistent)
    sym_assume(f.dev->getPar().dw_min > (T)0.001);
  f.setW(-1, 1);
  V w0(f.state(), f.state() + f.n), e = w0;
  int g0 = verif_draws.n, g = g0, u = verif_draws.nu;
  bool keep = op < 2 && sym_fork_b("bias_no_decay");
  T alpha = 1;
  int start = 0, n = 0;
  if (op == 0)
    f.dev->decayWeights(f.w.data(), keep);
  else if (op == 1)
    f.dev->decayWeights(f.w.data(), alpha = sym_fr("alpha", 0, 2), keep);
  else if (op == 2)
    f.dev->diffuseWeights(f.w.data(), f.rng);
  else if (op == 4)
    f.dev->clipWeights(f.w.data(), alpha = sym_fork_b("bounds_only") ? (T)-1 : sym_fr("clip", 0, 1));
  else if (op == 5) {
    f.dev->driftWeights(f.w.data(), (T)1, f.rng); // a first call only remembers the weights
    g = verif_draws.n;
    V v(f.state(), f.state() + f.n);
    for (int k = 0; k < f.n; k++)
      sym_close(v[k], fclip(w0[k], f.P("min_bound", k), f.P("max_bound", k)), "drift stays within the bounds", 1e-3f);
    T now = 1;
    for (int r = 0; r < 2; r++) { // a bound stops the visible weight, not the drift itself
      g = verif_draws.n;
      alpha = sym_fr("dt", 0, 8);
      f.dev->driftWeights(f.w.data(), alpha, f.rng);
      now += alpha;
      for (int k = 0; k < f.n; k++) {
        T s = (T)powf(fmx(now, (T)1), -(T)0.25);
        e[k] = fclip(v[k] * s + (T)2 * (s - (T)1), f.P("min_bound", k), f.P("max_bound", k));
        if (r == 0)
          sym_close(f.state()[k], e[k], "drift within the bounds", 1e-3f);
      }
    }
  } else {
    start = sym_choice("start", 2);
    n = sym_choice("ncols", 4) - 1;
    f.dev->resetCols(f.w.data(), start, n, sym_fork_b("certain") ? (T)1 : (T)0.5, f.rw);
  }
  bool certain = verif_draws.nu == u;
  for (int k = 0; k < f.n; k++) {
    if (op < 2) {
      T s = (T)1 + alpha * (f.P("decay_scales", k) - (T)1), b = f.P("reset_bias", k);
      if (!(keep && k % 2 == 1))
        e[k] = fclip(b + (w0[k] - b) * s, f.P("min_bound", k), f.P("max_bound", k));
    } else if (op == 2)
      e[k] = fclip(w0[k] + f.P("diffusion_rates", k) * verif_draws.g[g++], f.P("min_bound", k), f.P("max_bound", k));
    else if (op == 4)
      e[k] = fclip(alpha < (T)0 ? w0[k] : fclip(w0[k], -alpha, alpha), f.P("min_bound", k), f.P("max_bound", k));
  }
  if (op == 3)
    for (int j = 0; j < 2; j++) {
      bool hit = n < 0 || n == 2 || (n == 1 && j == start); // wraps around
      for (int i = 0; hit && i < 2; i++) {
        int k = i * 2 + j;
        bool yes = certain;
        T v = f.P("reset_bias", k);
        if (!certain) {
          yes = verif_draws.u[u++] < (T)0.5;
          if (!yes)
            continue;
        }
        if (f.par.reset_std > (T)0)
          v += f.par.reset_std * verif_draws.g[g++];
        e[k] = fclip(v, f.P("min_bound", k), f.P("max_bound", k));
      }
    }
  const char *id = op < 2 ? "decay towards the reset value" : op == 2 ? "diffusion" : op == 3 ? "reset of the chosen columns" : op == 4 ? "clipping" : "drift within the bounds";
  for (int k = 0; k < f.n; k++) {
    sym_observe(id, f.state()[k]);
    sym_close(f.state()[k], e[k], id, 1e-3f);
    if (persistent)
      sym_close(f.buf[k], e[k] + (T)0.5 * f.dev->getPar().dw_min * verif_draws.g[g++], "visible weight is the stored one with write noise", 1e-3f);
  }
}

extern "C" void run_device_ops() { device_ops<KConst>(false); }
extern "C" void run_device_ops_noise() { device_ops<KLinear>(true); }

/* ---------------------------------------------------------------- modified weights within a tile */
extern "C" void run_tile_modified() {
  RPUSimple<T> rpu(2, 1);
  V w = tensor("w", 2), x = tensor("x", 2), d = tensor("d", 1);
  rpu.setWeights(w.data());
  WeightModifierParameter<T> p;
  p.type = WeightModifierType::AddNormal;
  p.rel_to_actual_wmax = false;
  p.std_dev = (T)0.5;
  p.enable_during_test = sym_fork_b("during_test");
  rpu.setLearningRate((T)0.25);
  V m = dup(w), now = dup(w);
  for (int r = 0; r < 2; r++) {
    rpu.modifyFBWeights(p);
    for (int i = 0; i < 2; i++)
      m[i] = now[i] + (T)0.5 * verif_draws.g[2 * r + i];
    T y = 0, z[2] = {0, 0};
    rpu.forward(x.data(), &y, false, 1, false, false, false);
    sym_close(y, m[0] * x[0] + m[1] * x[1], "training forward with the modified weights", 1e-3f);
    rpu.forward(x.data(), &y, false, 1, false, false, true);
    V &q = p.enable_during_test ? m : now;
    sym_close(y, q[0] * x[0] + q[1] * x[1], "evaluation with the modified weights only if asked", 1e-3f);
    rpu.backward(d.data(), z, false, 1, false, false);
    for (int i = 0; i < 2; i++)
      sym_close(z[i], m[i] * d[0], "backward with the modified weights", 1e-3f);
    rpu.update(x.data(), d.data(), false, 1, false, false);
    V a(2);
    rpu.getWeights(a.data());
    for (int i = 0; i < 2; i++) {
      now[i] -= (T)0.25 * d[0] * x[i];
      sym_close(a[i], now[i], "update acts on the unmodified weights", 1e-3f);
    }
  }
}

/* ---------------------------------------------------------------- decay, diffusion, clipping and drift of an ideal tile */
extern "C" void run_tile_ops() {
  const int xs = 2, ds = 2;
  SimpleMetaParameter<T> p;
  int op = sym_choice("op", 5);
  p.lifetime = op == 0 ? (sym_fork_b("no_decay") ? sym_fr("short", 0.25, 1) : sym_fr("lifetime", 1.25, 16)) : (T)1;
  p.diffusion = op == 1 ? (sym_fork_b("no_diffusion") ? (T)0 : sym_fr("diffusion", 0.125, 1)) : (T)0;
  p.drift.nu = (T)0.25;
  p.drift.t0 = (T)2;
  RPUSimple<T> rpu(xs, ds);
  rpu.populateParameter(&p);
  V w = tensor("w", xs * ds), e = dup(w);
  rpu.setWeights(w.data());
  bool keep = op == 0 && sym_fork_b("bias_no_decay");
  if (op == 0) {
    T alpha = 1;
    if (sym_fork_b("alpha"))
      rpu.decayWeights(alpha = sym_fr("alpha", 0, 1), keep);
    else
      rpu.decayWeights(keep);
    for (int i = 0; i < xs * ds; i++)
      if (p.lifetime > (T)1 && !(keep && i % xs == xs - 1))
        e[i] = w[i] * ((T)1 - alpha / p.lifetime);
  } else if (op == 1) {
    int g = verif_draws.n;
    rpu.diffuseWeights();
    if (p.diffusion > (T)0)
      for (auto &v : e)
        v += p.diffusion * verif_draws.g[g++];
  } else if (op == 2) {
    T c = sym_fr("clip", -1, 2);
    rpu.clipWeights(c);
    for (auto &v : e)
      v = sym_ite(c >= (T)0, fclip(v, -c, c), v);
  } else if (op == 3) {
    T now = 0;
    for (int r = 0; r < 2; r++) {
      T dt = sym_fr("dt", 0, 8);
      rpu.driftWeights(dt);
      now += dt / (T)2;
      for (int i = 0; i < xs * ds; i++)
        e[i] = w[i] * (T)powf(fmx(now, (T)1), -(T)0.25);
    }
  } else { // random initialisation
    T lo = sym_fr("lo", -2, 1), hi = sym_fr("hi", 1, 2);
    rpu.setWeightsUniformRandom(lo, hi);
    rpu.getWeights(e.data());
    for (T v : e)
      sym_assert(v >= lo && v <= hi, "random weights within their range");
  }
  V a(xs * ds);
  rpu.getWeights(a.data());
  same(a, e, op == 0 ? "decay by one over the lifetime" : op == 1 ? "diffusion" : op == 2 ? "clipping" : "drift", 1e-3f);
}
