// A pulsed update delivers, per crosspoint, the pulses its bit trains prescribe, in the direction -lr*d*x.
#include "fix_dev.h"
#include "rpu_weight_updater.h"
static inline T ab(T v) { return fabsf(v); }

// the probabilities: how update and bit-length management set pulse length and scales
extern "C" void run_upd_mgmt() {
  PulsedUpdateMetaParameter<T> up;
  up.update_bl_management = sym_fork_b("ublm");
  up.update_management = sym_fork_b("um");
  up.fixed_BL = sym_fork_b("fixed_BL");
  int mx = sym_choice("max_BL", 2) ? 5 : 2;
  up.desired_BL = mx;
  up.um_grad_scale = sym_fork_b("um_scale") ? (T)0.5 : (T)1;
  up.initialize();
  bool um = up.update_management, ubl = up.update_bl_management;
  T lr = sym_fork_b("small_lr") ? sym_fr("lr", 0, (T)0.0625) : (T)0.25;
  T g = (T)0.0625;
  T x = sym_fr("x_max", 0, 4), d = sym_fr("d_max", 0, 4);
  int BL = -1;
  T A = -1, B = -1;
  if (um || ubl)
    up.performUpdateManagement(BL, A, B, mx, x, d, lr, g);
  else
    up.calculateBlAB(BL, A, B, lr, g);
  sym_observe("BL", (T)BL);
  sym_observe("A", A);
  if (lr == 0 || (um && (x == 0 || d == 0))) {
    sym_assert(BL == 0, "no pulses for a zero learning rate or input");
    return;
  }
  T k = lr * x * (d * up.um_grad_scale) / g; // pulses needed for the largest element
  if (ubl) {
    sym_assert(BL >= 1 && BL <= mx, "managed length between one and the maximum");
    sym_assert((T)BL >= k || BL == mx, "managed length suffices unless it is the maximum");
    sym_assert((T)(BL - 1) < k, "managed length is the smallest that suffices");
  } else if (up.fixed_BL)
    sym_assert(BL == mx, "fixed length");
  if (!ubl && !up.fixed_BL && lr > g * (T)mx) {
    sym_assert((T)BL * g >= lr && (T)(BL - 1) * g < lr, "a long learning rate lengthens the train");
    if (!um)
      sym_assert(A == 1 && B == 1, "lengthened train has unit scales");
    return;
  }
  sym_assert(A > 0 && B > 0, "positive scales");
  if (!(um && k > (T)mx)) {
    sym_close(A * B * (T)BL * g, lr, "mean update per unit input and gradient is the learning rate", 1e-3f);
    if (um) {
      sym_close(B * x, A * (d * up.um_grad_scale), "update management balances the probabilities", 1e-3f);
      if (ubl)
        sym_assert(B * x <= (T)1.0001f, "managed probabilities do not clip");
    }
  } else if (BL == mx && um)
    sym_close(B * x, 1, "input probability is not clipped when the train is too short", 1e-3f);
}

struct Upd {
  Fix<KConst::Meta> f;
  PulsedUpdateMetaParameter<T> up;
  int xs, ds;
  T lr;
  std::vector<T> x, d;
  int xi = 1, di = 1;
  static T val(const char *n, bool conc) { // zero, negative or positive; conc: one of three magnitudes
    bool z = sym_fork_b("zero");
    if (z)
      return 0;
    bool neg = sym_fork_b("neg");
    if (conc) {
      T v = sym_choice("mag", 2) ? (T)0.75 : (T)3;
      return neg ? -v : v;
    }
    return neg ? sym_fr(n, -4, (T)-0.125) : sym_fr(n, (T)0.125, 4);
  }
  Upd(int xs, int ds, int lin = 0) : f(xs, ds), xs(xs), ds(ds) {
    up.update_management = up.update_bl_management = false;
    lr = sym_fork_b("negative_lr") ? (T)-0.125 : (T)0.125;
    f.nodtod();
    f.par.dw_min_std = 0;
    f.par.dw_min = (T)0.25;
    f.create();
    for (int i = 0; i < xs * ds; i++) {
      f.P("max_bound", i) = (T)1.5;
      f.P("min_bound", i) = (T)-1.25;
      f.P("dwmin_up", i) = sym_fr("dw_up", (T)0.125, (T)0.375);
      f.P("dwmin_down", i) = (T)0.5 - f.P("dwmin_up", i); // mean step, hence granularity, stays dw_min
    }
    f.apply();
    f.setW(-1, 1);
    for (int j = 0; j < xs; j++)
      x.push_back(val("x", lin & 2));
    for (int i = 0; i < ds; i++)
      d.push_back(val("d", lin & 1));
  }
  std::vector<T> strided(const std::vector<T> &v, int inc) {
    std::vector<T> r((v.size() - 1) * inc + 1, (T)3.5);
    for (size_t i = 0; i < v.size(); i++)
      r[i * inc] = v[i];
    return r;
  }
  void scales(int &BL, T &A, T &B) {
    T alr = lr < 0 ? -lr : lr;
    if (up.update_management) {
      T xm = 0, dm = 0;
      for (T v : x)
        xm = fmx(xm, ab(v));
      for (T v : d)
        dm = fmx(dm, ab(v));
      up.performUpdateManagement(BL, A, B, up.desired_BL, xm, dm, alr, f.par.dw_min);
    } else
      up.calculateBlAB(BL, A, B, alr, f.par.dw_min);
  }
  static T quant(T v, T res, bool sto, int &at) {
    if (res <= 0)
      return v;
    T r = v / res;
    if (sto)
      r = r + (verif_draws.u[at++] - (T)0.5);
    return (T)RPU_ROUNDFUNF(r) * res;
  }
  static T res_of(T r) { return r <= 0 ? (T)0 : r > 1 ? (T)1 / r : r; } // a number of steps or a width
  void run() {
    T res = res_of(up.res), xres = res_of(up.x_res_implicit), dres = res_of(up.d_res_implicit);
    auto rng = std::make_shared<RNG<T>>(1);
    PulsedRPUWeightUpdater<T> u(xs, ds, rng);
    u.setUpPar(up);
    up.update_management |= up.update_bl_management;
    std::vector<T> w0(f.buf.begin(), f.buf.end());
    auto X = strided(x, xi), D = strided(d, di);
    int at = verif_draws.nu;
    u.updateVectorWithDevice(f.w.data(), X.data(), xi, D.data(), di, lr, 1, f.dev);
    int BL = 0;
    T A = 0, B = 0;
    scales(BL, A, B);
    std::vector<T> hit(xs * ds * 8, 0); // pulse k at crosspoint e
    std::vector<T> px, pd;
    if (up.pulse_type == PulseType::Stochastic || up.pulse_type == PulseType::StochasticCompressed) {
      std::vector<T> bx(xs * 8, 0), bd(ds * 8, 0);
      if (BL > 0) {
        auto bits = [&](const std::vector<T> &v, T P, std::vector<T> &b) {
          for (size_t j = 0; j < v.size(); j++) {
            T p = quant(ab(v[j]) * P, res, up.sto_round, at);
            if (p == 0)
              continue;
            for (int k = 0; k < BL; k++)
              b[j * 8 + k] = sym_ite(p > verif_draws.u[at++], 1, 0);
          }
        };
        bits(x, B, bx);
        bits(d, A, bd);
      }
      sym_assert(at == verif_draws.nu, "one draw per pulse slot of every non-zero line");
      for (int i = 0; i < ds; i++)
        for (int j = 0; j < xs; j++)
          for (int k = 0; k < BL; k++)
            hit[(i * xs + j) * 8 + k] = bx[j * 8 + k] * bd[i * 8 + k];
    } else {
      bool imp = up.pulse_type == PulseType::DeterministicImplicit;
      for (T v : x)
        px.push_back(fclip(quant(ab(v) * B, imp ? xres : res, up.sto_round, at), 0, 1));
      for (T v : d)
        pd.push_back(fclip(quant(ab(v) * A, imp ? dres : res, up.sto_round, at), 0, 1));
      for (int i = 0; i < ds; i++)
        for (int j = 0; j < xs; j++) {
          T c = imp ? pd[i] * (T)BL * px[j]
                    : (BL ? (T)RPU_ROUNDFUNF((T)BL * pd[i]) / (T)BL * (T)RPU_ROUNDFUNF((T)BL * px[j]) : (T)0);
          int q = (int)RPU_ROUNDFUNF(c);
          for (int k = 1; k <= BL; k++)
            hit[(i * xs + j) * 8 + k - 1] = sym_ite(q >= k, 1, 0);
        }
    }
    for (int i = 0; i < ds; i++)
      for (int j = 0; j < xs; j++) {
        int e = i * xs + j;
        bool down = ((x[j] < 0) == (d[i] < 0)) == (lr > 0); // gradient descent: against lr*d*x
        T w = w0[e];
        for (int k = 0; k < BL; k++)
          w = sym_ite(hit[e * 8 + k] > (T)0.5,
                      fclip(down ? w - f.P("dwmin_down", e) : w + f.P("dwmin_up", e), f.P("min_bound", e), f.P("max_bound", e)), w);
        sym_observe("w", f.buf[e]);
        sym_close(f.buf[e], w, "weight moved by the coincidences of its bit trains", 1e-3f);
        if (x[j] == 0 || d[i] == 0)
          sym_assert(f.buf[e] == w0[e], "a zero input or gradient moves nothing");
      }
  }
};
static void upd(PulseType t, int xs, int ds, int BL, bool um, bool ublm, T res = 0, bool sto = false, T xres = 0, T dres = 0) {
  bool dense = t == PulseType::MeanCount || t == PulseType::DeterministicImplicit;
  Upd u(xs, ds, um ? 3 : dense ? (xs > ds ? 1 : ds > xs ? 2 : 1 + sym_choice("lin", 2)) : 0);
  u.up.pulse_type = t;
  u.up.desired_BL = BL;
  u.up.update_management = um;
  u.up.update_bl_management = ublm;
  u.up.res = res;
  u.up.sto_round = sto;
  u.up.x_res_implicit = xres;
  u.up.d_res_implicit = dres;
  u.xi = 2;
  u.di = 3;
  u.run();
}
extern "C" void run_upd_sto() { upd(PulseType::Stochastic, 2, 1, 1, false, false); }
extern "C" void run_upd_sto_d() { upd(PulseType::Stochastic, 1, 2, 1, false, false); }
extern "C" void run_upd_sto_bl() { upd(PulseType::Stochastic, 1, 1, 2, false, false); }
extern "C" void run_upd_cmp() { upd(PulseType::StochasticCompressed, 2, 1, 1, false, false); }
extern "C" void run_upd_cmp_d() { upd(PulseType::StochasticCompressed, 1, 2, 1, false, false); }
extern "C" void run_upd_cmp_bl() { upd(PulseType::StochasticCompressed, 1, 1, 2, false, false); }
extern "C" void run_upd_cmp_um() { upd(PulseType::StochasticCompressed, 1, 1, 2, true, true); }
extern "C" void run_upd_sto_um() { upd(PulseType::Stochastic, 1, 1, 2, true, false); }
extern "C" void run_upd_cmp_res() { upd(PulseType::StochasticCompressed, 1, 1, 2, false, false, sym_fork_b("states") ? (T)4 : (T)0.25); }
extern "C" void run_upd_sto_res() { upd(PulseType::Stochastic, 1, 1, 2, false, false, (T)4, true); }
extern "C" void run_upd_mean() { upd(PulseType::MeanCount, 2, 1, 2, false, false); }
extern "C" void run_upd_mean_d() { upd(PulseType::MeanCount, 1, 2, 2, false, false); }
extern "C" void run_upd_mean_um() { upd(PulseType::MeanCount, 2, 1, 3, true, true); }
extern "C" void run_upd_mean_res() { upd(PulseType::MeanCount, 1, 1, 2, false, false, (T)4); }
extern "C" void run_upd_det() { upd(PulseType::DeterministicImplicit, 2, 1, 2, false, false); }
extern "C" void run_upd_det_d() { upd(PulseType::DeterministicImplicit, 1, 2, 2, false, false); }
extern "C" void run_upd_det_um() { upd(PulseType::DeterministicImplicit, 1, 2, 3, true, true); }
extern "C" void run_upd_det_res() { upd(PulseType::DeterministicImplicit, 1, 1, 2, false, false, 0, false, (T)4, (T)8); }
// without pulses: the exact outer product, clipped only when the device is asked for
extern "C" void run_upd_none() {
  Upd u(2, 2);
  bool dev = sym_fork_b("with_device");
  u.up.pulse_type = dev ? PulseType::NoneWithDevice : PulseType::None;
  auto rng = std::make_shared<RNG<T>>(1);
  PulsedRPUWeightUpdater<T> up(2, 2, rng);
  up.setUpPar(u.up);
  std::vector<T> w0(u.f.buf.begin(), u.f.buf.end());
  auto X = u.strided(u.x, 2), D = u.strided(u.d, 3);
  up.updateVectorWithDevice(u.f.w.data(), X.data(), 2, D.data(), 3, u.lr, 1, u.f.dev);
  for (int i = 0; i < 2; i++)
    for (int j = 0; j < 2; j++) {
      T w = w0[i * 2 + j] - u.lr * u.d[i] * u.x[j];
      if (dev)
        w = fclip(w, u.f.P("min_bound", i * 2 + j), u.f.P("max_bound", i * 2 + j));
      sym_close(u.f.buf[i * 2 + j], w, "update without pulses is the exact outer product", 1e-3f);
    }
}
extern "C" void run_upd_lr0() { // zero learning rate
  Upd u(1, 1);
  PulseType ts[] = {PulseType::None, PulseType::NoneWithDevice, PulseType::Stochastic, PulseType::StochasticCompressed,
                    PulseType::MeanCount, PulseType::DeterministicImplicit};
  u.up.pulse_type = ts[sym_choice("type", 6)];
  u.up.update_management = u.up.update_bl_management = sym_fork_b("um");
  auto rng = std::make_shared<RNG<T>>(1);
  PulsedRPUWeightUpdater<T> up(1, 1, rng);
  up.setUpPar(u.up);
  T w0 = u.f.buf[0];
  up.updateVectorWithDevice(u.f.w.data(), u.x.data(), 1, u.d.data(), 1, 0, 1, u.f.dev);
  sym_assert(u.f.buf[0] == w0, "zero learning rate changes nothing");
}
