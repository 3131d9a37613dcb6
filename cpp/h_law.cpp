// One pulse on one crosspoint follows the device's documented update law; nothing else moves.
#include "fix_dev.h"

// documented steps, as a function of the crosspoint's parameters (p), its weight w, direction and draw g
template <typename K> struct Law;
template <> struct Law<KConst> {
  static T step(Fix<KConst::Meta> &f, int i, T w, bool up, T g) {
    T n = (T)1 + f.par.dw_min_std * g;
    return w + (up ? f.P("dwmin_up", i) * n : -(f.P("dwmin_down", i) * n));
  }
};
template <typename K> static T linear_step(Fix<typename K::Meta> &f, int i, T w, bool up, T g, bool mult) {
  T n = f.par.dw_min_std * g;
  T sl = up ? f.P("slope_up", i) : f.P("slope_down", i), sc = up ? f.P("dwmin_up", i) : f.P("dwmin_down", i);
  T d = mult ? (sl * w + sc) * ((T)1 + n) : sl * w + sc * ((T)1 + n);
  return up ? w + d : w - d;
}
template <> struct Law<KLinear> {
  static T step(Fix<KLinear::Meta> &f, int i, T w, bool up, T g) {
    return linear_step<KLinear>(f, i, w, up, g, f.par.ls_mult_noise);
  }
};
template <> struct Law<KSoft> {
  static T step(Fix<KSoft::Meta> &f, int i, T w, bool up, T g) {
    return linear_step<KSoft>(f, i, w, up, g, f.par.ls_mult_noise);
  }
};
template <> struct Law<KSoftRef> { // acts on w + reference (see onepulse)
  static T step(Fix<KSoftRef::Meta> &f, int i, T w, bool up, T g) {
    T n = f.par.dw_min_std * g;
    T b = up ? f.P("max_bound", i) : f.P("min_bound", i);
    T a;
    if (up)
      a = f.P("max_bound", i) > 0 ? w / b : (T)0;
    else
      a = f.P("min_bound", i) < 0 ? w / b : (T)0;
    T sc = up ? f.P("dwmin_up", i) : f.P("dwmin_down", i);
    T d = f.par.mult_noise ? sc * ((T)1 - a) * ((T)1 + n) : sc * ((T)1 - a + n);
    return up ? w + d : w - d;
  }
};
template <> struct Law<KExp> {
  static T step(Fix<KExp::Meta> &f, int i, T w, bool up, T g) {
    auto &p = f.par;
    T range = f.P("max_bound", i) - f.P("min_bound", i);
    if (range <= 0)
      return w;
    T z = (T)2 * w / range * p.es_a + p.es_b;
    T y = up ? fmx((T)1 - p.es_A_up * (T)expf(p.es_gamma_up * z), 0)
             : fmx((T)1 - p.es_A_down * (T)expf(p.es_gamma_down * (-z)), 0);
    T d = y * (up ? f.P("dwmin_up", i) : f.P("dwmin_down", i));
    if (p.dw_min_std_add != 0 || p.dw_min_std_slope != 0) {
      T dw = up ? d : -d;
      T s = p.dw_min_std * (fabsf(dw) + p.dw_min_std_add + p.dw_min_std_slope * fabsf(w));
      return w + dw + s * g;
    }
    d = d * ((T)1 + p.dw_min_std * g);
    return up ? w + d : w - d;
  }
};
template <typename K> static T pow_step(Fix<typename K::Meta> &f, int i, T w, bool up, T g) {
  T mx = f.P("max_bound", i), mn = f.P("min_bound", i), range = mx - mn;
  if (range == 0)
    return w;
  T n = (T)1 + f.par.dw_min_std * g;
  return up ? w + f.P("dwmin_up", i) * (T)powf((mx - w) / range, f.P("gamma_up", i)) * n
            : w - f.P("dwmin_down", i) * (T)powf((w - mn) / range, f.P("gamma_down", i)) * n;
}
template <> struct Law<KPow> {
  static T step(Fix<KPow::Meta> &f, int i, T w, bool up, T g) { return pow_step<KPow>(f, i, w, up, g); }
};
template <> struct Law<KPowRef> {
  static T step(Fix<KPowRef::Meta> &f, int i, T w, bool up, T g) { return pow_step<KPowRef>(f, i, w, up, g); }
};
template <> struct Law<KPiece> {
  static T step(Fix<KPiece::Meta> &f, int i, T w, bool up, T g) {
    auto &v = up ? f.par.piecewise_up_vec : f.par.piecewise_down_vec;
    T mx = f.P("max_bound", i), mn = f.P("min_bound", i);
    T y = v[0];
    int ns = (int)v.size() - 1;
    if (mx > mn && ns > 0) { // linear interpolation between the ns+1 equally spaced nodes
      T s = (w - mn) / (mx - mn) * (T)ns;
      y = v[ns];
      for (int k = ns - 1; k >= 0; k--)
        y = sym_ite(s < (T)(k + 1), v[k] + (s - (T)k) * (v[k + 1] - v[k]), y);
    }
    T d = y * (up ? f.P("dwmin_up", i) : f.P("dwmin_down", i)) * ((T)1 + f.par.dw_min_std * g);
    return up ? w + d : w - d;
  }
};

// dense: through the dense coincidence interface instead of the sparse one
template <typename K> static void onepulse(int v, bool wnoise, T std) {
  Fix<typename K::Meta> f(2, 2);
  K::cfg(f.par, v);
  f.nodtod();
  f.par.dw_min_std = std;
  if (wnoise)
    f.par.write_noise_std = (T)0.5;
  f.create();
  bool up = sym_fork_b("up"), dense = sym_fork_b("dense");
  int at = sym_choice("at", 2) ? 3 : 0; // crosspoint (0,0) or (1,1)
  // the pulsed crosspoint has arbitrary parameters, the others the nominal ones
  f.randomize(at + 1, false);
  if (std::is_same<K, KExp>::value && (v & 1)) { // keeps the noise law linear for the solver
    f.P("dwmin_up", at) = (T)0.25;
    f.P("dwmin_down", at) = (T)0.375;
  }
  f.apply();
  if (wnoise)
    sym_assume(f.dev->getPar().dw_min > (T)0.001);
  f.setW(-2, 2);
  T before[4], seen[4];
  for (int i = 0; i < 4; i++) {
    before[i] = f.state()[i];
    seen[i] = f.buf[i];
  }
  T mx = f.P("max_bound", at), mn = f.P("min_bound", at), r = f.ref(at);
  if (f.has("reference"))
    sym_assume(sym_and(before[at] + r <= mx, before[at] + r >= mn));
  int n0 = verif_draws.n;
  if (dense) {
    int c[4] = {0, 0, 0, 0};
    c[at] = up ? -1 : 1;
    f.dev->doDenseUpdate(f.w.data(), c, &f.rng);
  } else {
    // a positive gradient (product of the signs) lowers the weight; both sign combinations
    bool dneg = sym_fork_b("dneg");
    int x[1] = {(at % 2 + 1) * ((up != dneg) ? -1 : 1)};
    f.dev->doSparseUpdate(f.w.data(), at / 2, x, 1, dneg ? -1 : 1, &f.rng);
  }
  T g = verif_draws.n > n0 && n0 < 500 && std > 0 ? verif_draws.g[n0] : (T)0;
  T w = Law<K>::step(f, at, before[at] + r, up, g);
  w = fclip(w, mn, mx) - r;
  sym_observe("w", f.state()[at]);
  sym_close(f.state()[at], w, "pulse follows the device's law", 1e-3f);
  for (int i = 0; i < 4; i++)
    if (i != at) {
      sym_assert(f.state()[i] == before[i], "other crosspoints keep their weight");
      sym_assert(f.buf[i] == seen[i], "other crosspoints keep their read-out weight");
    }
  if (wnoise) { // what is read is the true weight plus one draw of write noise
    T gw = verif_draws.n > n0 ? verif_draws.g[verif_draws.n - 1] : (T)0;
    if (mx > mn)
      sym_close(f.buf[at], w + (T)0.5 * f.dev->getPar().dw_min * gw, "write noise law", 1e-3f);
  }
}
#define L(NAME, K, V, WN)                                                                          \
  extern "C" void run_law_##NAME() { onepulse<K>(V, WN, (T)0.5); }                                 \
  extern "C" void run_law_##NAME##_det() { onepulse<K>(V, WN, (T)0.0); }
L(const, KConst, 0, false)
L(linear_add, KLinear, 0, false)
L(linear_mult, KLinear, 1, false)
L(linear_wn, KLinear, 1, true)
L(soft, KSoft, 1, false)
L(softref_add, KSoftRef, 0, false)
L(softref_mult, KSoftRef, 1, false)
L(softref_wn, KSoftRef, 1, true)
L(exp, KExp, 0, false)
L(exp_complex, KExp, 1, false)
L(exp_wn, KExp, 0, true)
L(pow, KPow, 0, false)
L(pow_wn, KPow, 0, true)
L(powref, KPowRef, 0, false)
L(piece, KPiece, 0, false)
L(piece_wn, KPiece, 0, true)

// A pulse list applied through the sparse interface = the same pulse counts through the dense one
template <typename K> static void equiv(int v) {
  Fix<typename K::Meta> f(2, 2);
  K::cfg(f.par, v);
  f.nodtod();
  f.par.dw_min_std = 0;
  f.create();
  int row = sym_choice("row", 2);
  int s0 = sym_fork_b("neg0") ? -1 : 1, s1 = sym_fork_b("neg1") ? -1 : 1;
  int reps = 1 + (v & 2 ? 0 : sym_choice("reps", 2));
  f.randomize(4, true, (T)0.125);
  f.apply();
  f.setW(-2, 2);
  if (f.has("reference"))
    for (int i = 0; i < 4; i++)
      sym_assume(sym_and(f.buf[i] + f.ref(i) <= f.P("max_bound", i), f.buf[i] + f.ref(i) >= f.P("min_bound", i)));
  T w0[4], ws[4];
  for (int i = 0; i < 4; i++)
    w0[i] = f.buf[i];
  int x[2] = {s0 * 1, s1 * 2};
  for (int k = 0; k < reps; k++)
    f.dev->doSparseUpdate(f.w.data(), row, x, 2, 1, &f.rng);
  for (int i = 0; i < 4; i++)
    ws[i] = f.buf[i];
  for (int i = 0; i < 4; i++)
    f.buf[i] = w0[i];
  int c[4] = {0, 0, 0, 0};
  c[row * 2] = s0 * reps;
  c[row * 2 + 1] = s1 * reps;
  f.dev->doDenseUpdate(f.w.data(), c, &f.rng);
  for (int i = 0; i < 4; i++) {
    sym_observe("w", f.buf[i]);
    sym_close(f.buf[i], ws[i], "dense and sparse pulses agree", 1e-3f);
  }
}
#define E(NAME, K, V)                                                                              \
  extern "C" void run_eq_##NAME() { equiv<K>(V); }
E(const, KConst, 0)
E(linear_add, KLinear, 0)
E(linear_mult, KLinear, 1)
E(soft, KSoft, 1)
E(softref_add, KSoftRef, 0)
E(softref_mult, KSoftRef, 1)
E(exp, KExp, 2)
E(exp_complex, KExp, 3)
E(pow, KPow, 2)
E(powref, KPowRef, 2)
E(exp_2, KExp, 0)
E(pow_2, KPow, 0)
E(powref_2, KPowRef, 0)
E(piece, KPiece, 2)

// Soft bounds: the slopes the device draws make the mean step vanish at the bound
extern "C" void run_law_soft_slopes() {
  Fix<KSoft::Meta> f(1, 1);
  f.par.ls_mean_bound_reference = false;
  f.par.ls_mult_noise = sym_fork_b("mult");
  f.par.dw_min_std = 0;
  f.create();
  T mx = f.P("max_bound", 0), mn = f.P("min_bound", 0);
  sym_assume(mx > (T)0.01);
  sym_assume(mn < (T)-0.01);
  bool up = sym_fork_b("up");
  f.buf[0] = up ? mx : mn;
  f.dev->onSetWeights(f.w.data());
  int x[1] = {up ? -1 : 1};
  f.dev->doSparseUpdate(f.w.data(), 0, x, 1, 1, &f.rng);
  sym_close(f.buf[0], up ? mx : mn, "no step beyond the soft bound", 1e-4f);
  T w0 = 0;
  f.buf[0] = w0;
  f.dev->onSetWeights(f.w.data());
  f.dev->doSparseUpdate(f.w.data(), 0, x, 1, 1, &f.rng);
  sym_close(f.buf[0], fclip(up ? f.P("dwmin_up", 0) : -f.P("dwmin_down", 0), mn, mx), "full step at zero", 1e-4f);
}
