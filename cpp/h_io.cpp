// The analog matrix-vector product (forward and backward) equals its documented pipeline.
#include "rng.h"
#include "rpu_forward_backward_pass.h"
#include "rpu_pulsed_meta_parameter.h"
#include "sym.h"
#include <cmath>
#include <limits>
#include <memory>
#include <vector>
using namespace RPU;
typedef float T;
static inline T mn_(T a, T b) { return sym_ite(a < b, a, b); }
static inline T mx_(T a, T b) { return sym_ite(a < b, b, a); }
static inline T abs_(T a) { return fabsf(a); }

struct Opt {
  bool transposed = false;
  int in_inc = 1, out_inc = 1;
  bool test = false;
};
struct Setup {
  IOMetaParameter<T> io, other;
  int xs = 2, ds = 2;
  bool split = false; // fork on the signs of the inputs
  std::vector<T> w;
  std::vector<T *> rows;
  Setup(int x = 2, int d = 2) : xs(x), ds(d), w(x * d), rows(d) {
    for (int i = 0; i < d; i++)
      rows[i] = w.data() + i * x;
    for (auto &v : w)
      v = sym_fr("w", -2, 2);
    // everything off; each run switches on what it is about
    for (auto *p : {&io, &other}) {
      p->inp_bound = (T)1;
      p->out_bound = (T)0;
      p->inp_res = (T)-1;
      p->out_res = (T)-1;
      p->inp_noise = 0;
      p->out_noise = 0;
      p->noise_management = NoiseManagementType::None;
      p->bound_management = BoundManagementType::None;
    }
  }
};

// independent statement of the documented pipeline (draws are consumed from `at` on)
struct Ref {
  const IOMetaParameter<T> &p; // as given by the user: resolutions relative to the range
  T inp_res, out_res;          // absolute bin widths
  std::vector<T> nl, voff, noise;
  T nlf = 1;
  int at = 0, uat = 0;
  T gauss() { return verif_draws.g[at++]; }
  T quant(T v, T res, bool sto) {
    if (res <= (T)0)
      return v;
    T r = v / res;
    if (sto)
      r = r + (verif_draws.u[uat++] - (T)0.5);
    return (T)RPU_ROUNDFUNF(r) * res;
  }
  std::vector<T> dac(const std::vector<T> &x, T scale) {
    std::vector<T> r;
    for (T v : x) {
      v = quant(v * scale, inp_res, p.inp_sto_round);
      if (p.inp_bound > (T)0)
        v = mx_(mn_(v, p.inp_bound), -p.inp_bound);
      if (p.inp_noise > (T)0)
        v += p.inp_noise * gauss();
      v = sym_ite(v < (T)0, v * ((T)1 - p.inp_asymmetry), v);
      r.push_back(v);
    }
    return r;
  }
  std::vector<T> mac(const std::vector<std::vector<T>> &W, const std::vector<T> &x) {
    int n = (int)x.size(), m = (int)W.size();
    std::vector<T> y(m, 0);
    for (int i = 0; i < m; i++)
      for (int j = 0; j < n; j++)
        y[i] += W[i][j] * x[j];
    if (p.ir_drop > (T)0)
      for (int i = 0; i < m; i++) {
        T cur = 0, z = 0;
        for (int j = 0; j < n; j++) {
          cur += abs_(W[i][j]) * abs_(x[j]);
          T q = (T)1 - (T)j / (T)n;
          z += W[i][j] * (x[j] * ((T)1 - q * q));
        }
        T a = (T)n / p.ir_drop_Gw_div_gmax * cur;
        T c = a * (a * ((T)0.05 * a - (T)0.2) + (T)0.5);
        y[i] -= c * (p.ir_drop * z);
      }
    if (voff.size()) {
      T rs = p.r_series > (T)0 ? p.r_series : (T)0;
      T sx = 0;
      for (T v : x)
        sx += v;
      for (int i = 0; i < m; i++) {
        T yr = -p.v_offset_w_min * sx; // negative reference current
        T yp = y[i] + yr;
        T lp = (T)1 + mn_(rs * abs_(yp), p.r_series_max_total), ln = (T)1 + mn_(rs * abs_(yr), p.r_series_max_total);
        if (rs > (T)0)
          y[i] = p.v_offset_w_min == (T)0 ? ((T)1 - voff[i]) * y[i] / lp
                                          : ((T)1 - voff[i]) * yp / lp - ((T)1 + voff[i]) * yr / ln;
        else
          y[i] = ((T)1 - voff[i]) * yp - ((T)1 + voff[i]) * yr;
      }
    }
    if (p.w_noise_type == OutputWeightNoiseType::AdditiveConstant && p.w_noise > (T)0) {
      T s = 0;
      for (T v : x)
        s += v * v;
      for (int i = 0; i < m; i++)
        y[i] += p.w_noise * sqrtf(s) * gauss();
    }
    if (p.w_noise_type == OutputWeightNoiseType::PCMRead && p.w_noise > (T)0)
      for (int i = 0; i < m; i++) {
        T s = 0;
        for (int j = 0; j < n; j++)
          s += abs_(W[i][j]) * (x[j] * x[j]);
        y[i] += p.w_noise * sqrtf(s) * gauss();
      }
    return y;
  }
  bool adc(std::vector<T> &y) { // returns whether an output was limited in a way bound management reacts to
    bool hit = false;
    for (size_t i = 0; i < y.size(); i++) {
      T v = y[i];
      if (nl.size())
        v = nlf * v / ((T)1 + abs_(nl[i] * v));
      v = sym_ite(v < (T)0, v * ((T)1 - p.out_asymmetry), v);
      if (p.out_noise > (T)0)
        v += (noise.size() ? noise[i] : p.out_noise) * gauss();
      else
        at++;
      v = quant(v, out_res, p.out_sto_round);
      if (p.out_bound > (T)0) {
        hit = sym_or(hit, v > p.out_bound);
        if (p.bm_test_negative_bound)
          hit = sym_or(hit, v < -p.out_bound);
        v = mx_(mn_(v, p.out_bound), -p.out_bound);
      }
      y[i] = v;
    }
    return hit;
  }
};

static T res_of(T r, T bound) { // user convention: negative/0 off, > 1 a number of states, else relative bin width
  if (r <= (T)0)
    return 0;
  return (r > (T)1 ? (T)1 / r : r) * ((T)2 * bound);
}

// one product through the public API, compared with the reference
static void product(Setup &s, Opt o, T nm_expected /* <0: compute by type */, int rounds = 1, bool check_nm = false) {
  IOMetaParameter<T> user = s.io;
  auto rng = std::make_shared<RNG<T>>(1);
  ForwardBackwardPassIOManaged<T> fb(s.xs, s.ds, rng);
  int at0 = verif_draws.n;
  if (o.transposed)
    fb.populateFBParameter(s.other, s.io);
  else
    fb.populateFBParameter(s.io, s.other);
  int n = o.transposed ? s.ds : s.xs, m = o.transposed ? s.xs : s.ds;
  std::vector<T> in((n - 1) * o.in_inc + 1, (T)77), out((m - 1) * o.out_inc + 1, (T)99), x;
  for (int j = 0; j < n; j++) {
    if (s.split)
      in[j * o.in_inc] = sym_fork_b("neg") ? sym_fr("x", -4, (T)-0.0625) : sym_fr("x", 0, 4);
    else
      in[j * o.in_inc] = sym_fr("x", -4, 4);
    x.push_back(in[j * o.in_inc]);
  }
  std::vector<std::vector<T>> W(m, std::vector<T>(n));
  for (int i = 0; i < m; i++)
    for (int j = 0; j < n; j++)
      W[i][j] = o.transposed ? s.w[j * s.xs + i] : s.w[i * s.xs + j];
  T alpha = (T)1.5;
  Ref r{user, res_of(user.inp_res, user.inp_bound), res_of(user.out_res, user.out_bound)};
  r.at = at0;
  // per-line parameters, drawn once
  if (user.hasVoltageOffsets()) {
    if (user.v_offset_vec.size())
      r.voff = user.v_offset_vec;
    else
      for (int i = 0; i < m; i++)
        r.voff.push_back(mx_(user.v_offset_std * r.gauss(), 0));
  }
  if (user.hasNLCalibration()) {
    T ob = user.out_bound > (T)0 ? user.out_bound : (T)1;
    if (user.out_nonlinearity_vec.size())
      r.nl = user.out_nonlinearity_vec;
    else
      for (int i = 0; i < m; i++)
        r.nl.push_back(abs_(user.out_nonlinearity / ob * ((T)1 + user.out_nonlinearity_std * r.gauss())));
    if (user.slope_calibration > (T)0) {
      T sum = 0;
      if (user.hasOutNonlinearity())
        for (T v : r.nl)
          sum += abs_(v);
      T f = (T)1 + (sum / (T)m + user.r_series) * user.slope_calibration * ob;
      r.nlf = f * f;
    }
  }
  std::vector<std::vector<T>> WN = W;
  if (user.w_read_asymmetry_dtod > (T)0)
    for (int k = 0; k < n * m; k++) {
      T f = (T)1 + user.w_read_asymmetry_dtod * r.gauss();
      if (o.transposed)
        WN[k % s.xs][k / s.xs] *= f;
      else
        WN[k / s.xs][k % s.xs] *= f;
    }
  if (user.out_noise_std > (T)0)
    for (int i = 0; i < m; i++)
      r.noise.push_back(abs_(user.out_noise * ((T)1 + user.out_noise_std * r.gauss())));
  sym_assert(r.at == verif_draws.n, "device-to-device parameters drawn as documented");
  r.at = verif_draws.n;
  r.uat = verif_draws.nu;
  if (o.transposed)
    fb.backwardVector(s.rows.data(), in.data(), o.in_inc, out.data(), o.out_inc, alpha);
  else
    fb.forwardVector(s.rows.data(), in.data(), o.in_inc, out.data(), o.out_inc, alpha, o.test);

  // noise management factor
  T amax = 0, vmax = x[0], ps = 0, ns = 0;
  for (T v : x) {
    amax = mx_(amax, abs_(v));
    vmax = mx_(vmax, v);
    ps += sym_ite(v > (T)0, v, 0);
    ns += sym_ite(v < (T)0, v, 0);
  }
  T th = user.nm_thres > (T)0 ? mn_(amax, user.nm_thres) : amax;
  auto npsum = [&]() {
    T q = sym_ite(ps > -ns, ps, -ns) * user.nm_assumed_wmax / (user.out_bound > (T)0 ? user.out_bound : (T)1);
    if (r.inp_res > (T)0)
      q = mn_(th / r.inp_res * user.max_bm_res, q);
    return mx_(th, q);
  };
  T nm = 1;
  switch (user.noise_management) {
  case NoiseManagementType::None:
    nm = 1;
    break;
  case NoiseManagementType::AbsMax:
    nm = th;
    break;
  case NoiseManagementType::Max:
    nm = user.nm_thres > (T)0 ? mn_(vmax, user.nm_thres) : vmax;
    sym_assume(nm > (T)0);
    break;
  case NoiseManagementType::Constant:
    nm = user.nm_thres > (T)0 ? user.nm_thres : (T)1;
    break;
  case NoiseManagementType::AverageAbsMax:
  case NoiseManagementType::AverageAbsMaxSingleValue:
    nm = amax; // first call
    break;
  case NoiseManagementType::AbsMaxNPSum:
    nm = npsum();
    break;
  }
  for (int i = 1; i < (int)out.size(); i++)
    if (i % o.out_inc)
      sym_assert(out[i] == (T)99, "nothing written between strided outputs");
  bool zero = user.noise_management != NoiseManagementType::None && nm <= (T)0;
  std::vector<T> y(m, 0);
  T fin = user.out_scale * alpha;
  if (zero) {
    if (user.inp_noise > (T)0)
      return;
  } else {
    bool bm = user.bound_management != BoundManagementType::None && !o.transposed;
    T red = 1;
    for (int k = 0; k < rounds; k++) {
      T scale = 1;
      if (user.noise_management != NoiseManagementType::None)
        scale /= nm;
      if (bm)
        scale /= red;
      std::vector<T> xd = r.dac(x, scale);
      bool hit = false;
      if (user.mv_type == AnalogMVType::OnePass) {
        y = r.mac(W, xd);
        hit = r.adc(y);
      } else {
        std::vector<T> xp, xn;
        for (T v : xd) {
          xp.push_back(mx_(v, 0));
          xn.push_back(mn_(v, 0));
        }
        std::vector<T> yn = r.mac(WN, xn);
        bool digital = user.mv_type == AnalogMVType::PosNegSeparateDigitalSum;
        if (digital)
          hit = r.adc(yn);
        y = r.mac(W, xp);
        if (digital)
          hit = sym_or(r.adc(y), hit);
        for (int i = 0; i < m; i++)
          y[i] += yn[i];
        if (!digital)
          hit = r.adc(y);
      }
      fin = user.out_scale * alpha / scale;
      if (!bm || !hit || red > (T)user.max_bm_factor ||
          (r.inp_res > (T)0 && red > user.max_bm_res / r.inp_res))
        break;
      if (k == 0 && user.bound_management == BoundManagementType::IterativeWorstCase &&
          user.noise_management != NoiseManagementType::AbsMaxNPSum) {
        nm = npsum();
        user.noise_management = NoiseManagementType::AbsMaxNPSum;
        red = 1;
      } else
        red *= (T)2;
    }
  }
  for (int i = 0; i < m; i++) {
    sym_observe("y", out[i * o.out_inc]);
    sym_close(out[i * o.out_inc], fin * y[i], "product equals its documented pipeline", 2e-3f);
  }
}
static Opt dir() {
  Opt o;
  o.transposed = sym_fork_b("backward");
  o.in_inc = 2;
  o.out_inc = 3;
  return o;
}

extern "C" void run_io_ideal() {
  Setup s(2, 3);
  Opt o = dir();
  o.in_inc = 1 + sym_choice("in_inc", 2);
  o.out_inc = 1 + sym_choice("out_inc", 2);
  s.io.is_perfect = sym_fork_b("flag");
  s.io.mv_type = s.io.is_perfect ? AnalogMVType::OnePass : AnalogMVType::Ideal;
  s.io.inp_bound = s.io.out_bound = 0; // what the flag is documented to switch off stays set
  s.io.out_noise = 0;
  s.io.out_scale = sym_fr("out_scale", (T)0.25, 4);
  product(s, o, 1);
}
extern "C" void run_io_ideal_ignores() { // a perfect product ignores every other setting
  Setup s(2, 2);
  Opt o = dir();
  s.io.is_perfect = true;
  s.io.inp_bound = (T)0.5;
  s.io.out_bound = (T)0.5;
  s.io.inp_res = s.io.out_res = (T)0.1;
  s.io.inp_noise = s.io.out_noise = (T)0.5;
  s.io.noise_management = NoiseManagementType::AbsMax;
  s.io.bound_management = BoundManagementType::Iterative;
  s.io.w_noise = 1;
  s.io.w_noise_type = OutputWeightNoiseType::AdditiveConstant;
  auto rng = std::make_shared<RNG<T>>(1);
  ForwardBackwardPassIOManaged<T> fb(2, 2, rng);
  if (o.transposed)
    fb.populateFBParameter(s.other, s.io);
  else
    fb.populateFBParameter(s.io, s.other);
  T x[2] = {sym_fr("x", -4, 4), sym_fr("x", -4, 4)}, y[2];
  int n0 = verif_draws.n;
  if (o.transposed)
    fb.backwardVector(s.rows.data(), x, 1, y, 1, 1);
  else
    fb.forwardVector(s.rows.data(), x, 1, y, 1, 1, false);
  sym_assert(n0 == verif_draws.n, "no noise in a perfect product");
  for (int i = 0; i < 2; i++)
    sym_close(y[i], o.transposed ? s.w[i] * x[0] + s.w[2 + i] * x[1] : s.w[2 * i] * x[0] + s.w[2 * i + 1] * x[1],
              "perfect product", 1e-3f);
}
extern "C" void run_io_clip() { // bounds and asymmetries, no converters
  Setup s(2, 2);
  Opt o = dir();
  o.in_inc = o.out_inc = 1 + sym_choice("inc", 2);
  s.io.inp_bound = sym_fork_b("no_inp_bound") ? (T)0 : sym_fr("inp_bound", (T)0.25, 2);
  s.io.out_bound = sym_fork_b("no_out_bound") ? (T)0 : sym_fr("out_bound", (T)0.25, 2);
  if (sym_fork_b("asym")) {
    s.io.inp_asymmetry = sym_fr("inp_asym", -1, 1);
    s.io.out_asymmetry = sym_fr("out_asym", 0, 1);
  }
  s.io.out_scale = sym_fr("out_scale", (T)0.25, 4);
  product(s, o, 1);
}
extern "C" void run_io_noise() {
  Setup s(2, 2);
  Opt o = dir();
  s.io.inp_bound = sym_fr("inp_bound", (T)0.25, 2);
  s.io.out_bound = sym_fr("out_bound", (T)0.25, 2);
  switch (sym_choice("kind", 4)) {
  case 0:
    s.io.inp_noise = sym_fr("inp_noise", (T)0.0625, 1);
    break;
  case 1:
    s.io.out_noise = sym_fr("out_noise", (T)0.0625, 1);
    break;
  case 2:
    s.io.out_noise = sym_fr("out_noise", (T)0.0625, 1);
    s.io.out_noise_std = sym_fr("out_noise_std", (T)0.0625, 1);
    break;
  case 3:
    s.io.inp_noise = sym_fr("inp_noise", (T)0.0625, 1);
    s.io.out_noise = sym_fr("out_noise", (T)0.0625, 1);
    break;
  }
  product(s, o, 1);
}
extern "C" void run_io_wnoise() {
  Setup s(2, 2);
  Opt o = dir();
  s.io.inp_bound = sym_fr("inp_bound", (T)0.25, 2);
  s.io.w_noise = sym_fr("w_noise", (T)0.0625, 1);
  s.io.w_noise_type = sym_fork_b("pcm") ? OutputWeightNoiseType::PCMRead : OutputWeightNoiseType::AdditiveConstant;
  product(s, o, 1);
}
static void quantised(bool sto, bool states) {
  Setup s(sto ? 1 : 2, 1);
  Opt o = dir();
  bool inp = sym_fork_b("dac");
  T res = states ? (T)32 : (T)0.0625;
  if (inp) {
    s.io.inp_bound = (T)2;
    s.io.inp_res = res;
    s.io.inp_sto_round = sto;
  } else {
    s.io.inp_bound = (T)0;
    s.io.inp_res = (T)0;
    s.io.out_bound = (T)2;
    s.io.out_res = res;
    s.io.out_sto_round = sto;
  }
  product(s, o, 1);
}
extern "C" void run_io_quant() { quantised(false, sym_fork_b("states")); }
extern "C" void run_io_quant_sto() { quantised(true, sym_fork_b("states")); }
static void noisemgmt(NoiseManagementType t) {
  Opt o = dir();
  bool one = t == NoiseManagementType::AbsMaxNPSum;
  Setup s(one && o.transposed ? 1 : 2, one && !o.transposed ? 1 : 2);
  s.io.noise_management = t;
  s.split = one;
  s.io.nm_thres = sym_fork_b("thres") ? sym_fr("nm_thres", (T)0.25, 2) : (T)0;
  s.io.out_bound = sym_fork_b("bound") ? (T)1.5 : (T)0;
  s.io.out_scale = (T)2;
  if (t == NoiseManagementType::AbsMaxNPSum) {
    s.io.nm_assumed_wmax = (T)0.75;
    s.io.out_bound = (T)1.5;
  }
  product(s, o, -1);
}
extern "C" void run_io_nm_absmax() { noisemgmt(NoiseManagementType::AbsMax); }
extern "C" void run_io_nm_max() { noisemgmt(NoiseManagementType::Max); }
extern "C" void run_io_nm_const() { noisemgmt(NoiseManagementType::Constant); }
extern "C" void run_io_nm_avg() { noisemgmt(NoiseManagementType::AverageAbsMax); }
extern "C" void run_io_nm_npsum() { noisemgmt(NoiseManagementType::AbsMaxNPSum); }
extern "C" void run_io_nm_quant() {
  Setup s(1, 1);
  Opt o = dir();
  s.io.noise_management = sym_fork_b("npsum") ? NoiseManagementType::AbsMaxNPSum : NoiseManagementType::AbsMax;
  s.io.inp_res = (T)0.125;
  s.io.out_bound = (T)2;
  product(s, o, -1);
}
static void boundmgmt(BoundManagementType t, NoiseManagementType n, bool res) {
  bool worst = t == BoundManagementType::IterativeWorstCase;
  Setup s(res || worst ? 1 : 2, t == BoundManagementType::IterativeWorstCase ? 1 : 2);
  Opt o;
  s.io.bound_management = t;
  s.io.noise_management = n;
  s.io.bm_test_negative_bound = !sym_fork_b("ignore_negative");
  s.io.out_bound = (T)1;
  s.io.inp_bound = (T)1;
  s.io.max_bm_factor = res ? 1000 : 2;
  if (res) {
    s.io.inp_res = (T)0.0625; // with max_bm_res below: at most 2 rounds
    s.io.max_bm_res = (T)0.25;
  }
  product(s, o, -1, 5);
}
extern "C" void run_io_bm_iter() { boundmgmt(BoundManagementType::Iterative, NoiseManagementType::None, false); }
extern "C" void run_io_bm_iter_nm() { boundmgmt(BoundManagementType::Iterative, NoiseManagementType::AbsMax, false); }
extern "C" void run_io_bm_worst() {
  boundmgmt(BoundManagementType::IterativeWorstCase, NoiseManagementType::AbsMax, false);
}
extern "C" void run_io_bm_res() { boundmgmt(BoundManagementType::Iterative, NoiseManagementType::None, true); }
extern "C" void run_io_bm_bwd() { // bound management does not apply to the backward pass
  Setup s(2, 2);
  Opt o;
  o.transposed = true;
  s.io.bound_management = BoundManagementType::Iterative;
  s.io.out_bound = (T)1;
  product(s, o, -1);
}
static void posneg(AnalogMVType t) {
  Setup s(2, 1);
  Opt o = dir();
  s.io.mv_type = t;
  s.io.out_bound = (T)1;
  s.io.inp_asymmetry = sym_fork_b("asym") ? (T)0.25 : (T)0;
  s.io.out_asymmetry = s.io.inp_asymmetry;
  product(s, o, 1);
}
extern "C" void run_io_posneg() { posneg(AnalogMVType::PosNegSeparate); }
extern "C" void run_io_posneg_sum() { posneg(AnalogMVType::PosNegSeparateDigitalSum); }
extern "C" void run_io_posneg_bm() {
  bool limit = sym_fork_b("limit"); // the first round is the last
  Setup s(limit ? 2 : 1, limit ? 1 : 2);
  Opt o;
  s.io.mv_type = sym_fork_b("digital") ? AnalogMVType::PosNegSeparateDigitalSum : AnalogMVType::PosNegSeparate;
  s.io.bound_management = BoundManagementType::Iterative;
  s.io.max_bm_factor = limit ? 0 : 1;
  s.io.out_bound = (T)1;
  s.io.bm_test_negative_bound = !sym_fork_b("ignore_negative");
  product(s, o, 1, 4);
}
extern "C" void run_io_voffset() {
  Setup s(2, 2);
  Opt o = dir();
  switch (sym_choice("kind", 3)) {
  case 0:
    s.io.v_offset_std = sym_fr("v_std", (T)0.0625, 1);
    break;
  case 1:
    s.io.v_offset_vec.resize(2);
    for (T &v : s.io.v_offset_vec)
      v = sym_fr("v0", 0, 1);
    break;
  case 2:
    s.io.v_offset_std = (T)0.5;
    s.io.v_offset_w_min = sym_fr("v_wmin", -2, (T)-0.25);
    break;
  }
  product(s, o, 1);
}
extern "C" void run_io_rseries() {
  Setup s(1, 1);
  Opt o = dir();
  s.io.r_series = sym_fr("r_series", (T)0.0625, 1);
  if (sym_fork_b("limit"))
    s.io.r_series_max_total = (T)0.5;
  if (sym_fork_b("slope"))
    s.io.slope_calibration = 0;
  if (sym_fork_b("wmin"))
    s.io.v_offset_w_min = (T)-1;
  s.io.v_offset_vec.assign(1, sym_fr("v0", 0, 1));
  product(s, o, 1);
}
extern "C" void run_io_nonlin() {
  Setup s(1, 2);
  Opt o = dir();
  switch (sym_choice("kind", 3)) {
  case 0:
    s.io.out_nonlinearity = sym_fr("nl", (T)0.0625, 1);
    break;
  case 1:
    s.io.out_nonlinearity = sym_fr("nl", (T)0.0625, 1);
    s.io.out_nonlinearity_std = (T)0.5;
    break;
  case 2:
    s.io.out_nonlinearity_vec.assign(o.transposed ? 1 : 2, sym_fr("nl0", 0, 1));
    break;
  }
  s.io.slope_calibration = sym_fork_b("slope") ? (T)0.5 : (T)0;
  s.io.out_bound = sym_fork_b("bound") ? (T)2 : (T)0;
  product(s, o, 1);
}
extern "C" void run_io_irdrop() {
  Setup s(2, 2);
  Opt o = dir();
  s.io.ir_drop = sym_fr("ir", (T)0.25, 2);
  s.io.ir_drop_Gw_div_gmax = (T)16;
  product(s, o, 1);
}
// running average of the input maxima, shared by consecutive calls
extern "C" void run_io_avg_seq() {
  Setup s(1, 1);
  bool back = sym_fork_b("backward");
  bool copied = sym_fork_b("copied");
  s.io.noise_management = NoiseManagementType::AverageAbsMax;
  s.io.nm_decay = (T)0.25;
  s.io.nm_thres = 0;
  s.other = s.io; // both directions average, each its own inputs
  s.other.nm_decay = (T)0.5;
  auto rng = std::make_shared<RNG<T>>(1);
  ForwardBackwardPassIOManaged<T> fb0(1, 1, rng);
  if (back)
    fb0.populateFBParameter(s.other, s.io);
  else
    fb0.populateFBParameter(s.io, s.other);
  T x[3], y[3];
  ForwardBackwardPassIOManaged<T> fb1(1, 1, rng);
  ForwardBackwardPassIOManaged<T> *fb = &fb0;
  for (int k = 0; k < 3; k++) {
    x[k] = sym_fr("x", -4, 4);
    sym_assume(fabsf(x[k]) >= (T)0.125);
    if (back)
      fb->backwardVector(s.rows.data(), x + k, 1, y + k, 1, 1);
    else
      fb->forwardVector(s.rows.data(), x + k, 1, y + k, 1, 1, false);
    T e = sym_fr("e", (T)0.125, 4), q;
    if (back)
      fb->forwardVector(s.rows.data(), &e, 1, &q, 1, 1, false);
    else
      fb->backwardVector(s.rows.data(), &e, 1, &q, 1, 1);
    if (k == 0 && copied) { // a copy continues where the original was
      fb1 = fb0;
      fb = &fb1;
    }
  }
  T a = fabsf(x[0]);
  for (int k = 1; k < 3; k++) {
    a = a * (T)0.75 + (T)0.25 * fabsf(x[k]);
    T v = x[k] / a;
    v = mx_(mn_(v, 1), -1);
    sym_close(y[k], s.w[0] * v * a, "average noise management follows the running mean", 2e-3f);
  }
}

extern "C" void run_io_wasym() { // read asymmetry of the negative pass
  Opt o = dir();
  Setup s(o.transposed ? 1 : 2, o.transposed ? 2 : 1);
  s.io.mv_type = AnalogMVType::PosNegSeparate;
  s.io.w_read_asymmetry_dtod = (T)0.25;
  s.io.out_bound = (T)1;
  product(s, o, 1);
}
