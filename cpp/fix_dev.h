// A crossbar device with arbitrary (symbolic) per-crosspoint parameters, reached through the public API.
#pragma once
#include "rng.h"
#include "rpu_constantstep_device.h"
#include "rpu_expstep_device.h"
#include "rpu_linearstep_device.h"
#include "rpu_piecewisestep_device.h"
#include "rpu_powstep_device.h"
#include "rpu_powstep_reference_device.h"
#include "rpu_softbounds_reference_device.h"
#include "sym.h"
#include <cmath>
#include <cstring>
#include <memory>
#include <string>
#include <vector>
using namespace RPU;
typedef float T;

static inline T fmn(T a, T b) { return sym_ite(a < b, a, b); }
static inline T fmx(T a, T b) { return sym_ite(a < b, b, a); }
static inline T fclip(T w, T lo, T hi) { return fmx(fmn(w, hi), lo); }

struct Param { // one crosspoint's parameters
  T mx, mn, up, down, decay, diff, rbias, s_up, s_down, g_up, g_down, ref;
};

template <typename Meta> struct Fix {
  Meta par;
  PulsedRPUDevice<T> *dev = nullptr;
  RealWorldRNG<T> rw{1};
  RNG<T> rng{1};
  int xs, ds, n;
  std::vector<T> buf;
  std::vector<T *> w;
  std::vector<std::string> names;
  std::vector<std::vector<T>> dp;
  std::vector<T *> ptrs;
  Fix(int x, int d) : xs(x), ds(d), n(x * d) {}
  // device-to-device spreads off: creation is deterministic, the parameters are set afterwards
  void nodtod() {
    par.dw_min_dtod = 0;
    par.w_min_dtod = 0;
    par.w_max_dtod = 0;
    par.up_down_dtod = 0;
    par.lifetime_dtod = 0;
    par.diffusion_dtod = 0;
    par.reset_dtod = 0;
  }
  void create() {
    par.initialize();
    dev = static_cast<PulsedRPUDevice<T> *>(par.createDevice(xs, ds, &rw));
    buf.assign(n, 0);
    w.resize(ds);
    for (int i = 0; i < ds; i++)
      w[i] = buf.data() + i * xs;
    dev->getDPNames(names);
    for (size_t k = 0; k < names.size(); k++)
      dp.emplace_back(n, (T)0);
    for (auto &v : dp)
      ptrs.push_back(v.data());
    dev->getDeviceParameter(w.data(), ptrs);
  }
  T &P(const char *name, int i) {
    for (size_t k = 0; k < names.size(); k++)
      if (names[k] == name)
        return dp[k][i];
    static T dummy;
    dummy = 0;
    return dummy;
  }
  bool has(const char *name) {
    for (auto &s : names)
      if (s == name)
        return true;
    return false;
  }
  // arbitrary parameters for the crosspoints [0,m)
  void randomize(int m, bool consistent = true, T gap = 0) {
    for (int i = 0; i < m; i++) {
      P("max_bound", i) = sym_fr("max_bound", consistent ? gap : -2, 2);
      P("min_bound", i) = sym_fr("min_bound", -2, consistent ? -gap : 2);
      if (!consistent)
        sym_assume(P("min_bound", i) <= P("max_bound", i));
      P("dwmin_up", i) = sym_fr("dwmin_up", -0.5, 0.5);
      P("dwmin_down", i) = sym_fr("dwmin_down", -0.5, 0.5);
      P("decay_scales", i) = sym_fr("decay_scale", -1, 2);
      P("diffusion_rates", i) = sym_fr("diffusion", 0, 1);
      P("reset_bias", i) = sym_fr("reset_bias", -3, 3);
      for (const char *s : {"slope_up", "slope_down"})
        if (has(s))
          P(s, i) = sym_fr(s, -1, 1);
      for (const char *s : {"gamma_up", "gamma_down"})
        if (has(s))
          P(s, i) = sym_fr(s, 0.25, 4);
      if (has("reference"))
        P("reference", i) = sym_fr("reference", -1, 1);
    }
  }
  void apply() { dev->setDeviceParameter(w.data(), ptrs); }
  void setW(T lo = -3, T hi = 3) {
    for (int i = 0; i < n; i++)
      buf[i] = sym_fr("w", lo, hi);
    dev->onSetWeights(w.data());
  }
  T *state() { // where the device keeps the true weight
    return dev->getPar().usesPersistentWeight() ? dev->getPersistentWeights()[0] : buf.data();
  }
  T ref(int i) { return has("reference") ? P("reference", i) : (T)0; }
};

struct KConst {
  typedef ConstantStepRPUDeviceMetaParameter<T> Meta;
  static void cfg(Meta &p, int v) { (void)p; (void)v; }
};
struct KLinear {
  typedef LinearStepRPUDeviceMetaParameter<T> Meta;
  static void cfg(Meta &p, int v) { p.ls_mult_noise = v & 1; }
};
struct KSoft {
  typedef SoftBoundsRPUDeviceMetaParameter<T> Meta;
  static void cfg(Meta &p, int v) { p.ls_mult_noise = v & 1; }
};
struct KSoftRef {
  typedef SoftBoundsReferenceRPUDeviceMetaParameter<T> Meta;
  static void cfg(Meta &p, int v) { p.mult_noise = v & 1; }
};
struct KExp {
  typedef ExpStepRPUDeviceMetaParameter<T> Meta;
  static void cfg(Meta &p, int v) {
    if (v & 1) {
      p.dw_min_std_add = (T)0.25;
      p.dw_min_std_slope = (T)0.5;
    }
  }
};
struct KPow {
  typedef PowStepRPUDeviceMetaParameter<T> Meta;
  static void cfg(Meta &p, int v) {
    (void)v;
    p.ps_gamma_dtod = 0;
  }
};
struct KPowRef {
  typedef PowStepReferenceRPUDeviceMetaParameter<T> Meta;
  static void cfg(Meta &p, int v) {
    (void)v;
    p.ps_gamma_dtod = 0;
  }
};
struct KPiece {
  typedef PiecewiseStepRPUDeviceMetaParameter<T> Meta;
  static void cfg(Meta &p, int v) {
    (void)v;
    p.piecewise_up_vec = {(T)1.0, (T)0.5, (T)0.75, (T)0.25};
    p.piecewise_down_vec = {(T)0.5, (T)1.25, (T)0.25, (T)1.0};
  }
};
