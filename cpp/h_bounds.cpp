// After every device operation each weight lies within its own crosspoint's bounds.
#include "fix_dev.h"

template <typename K> static void check(Fix<typename K::Meta> &f, bool with_ref, const char *id) {
  for (int i = 0; i < f.n; i++) {
    T v = f.state()[i] + (with_ref ? f.ref(i) : (T)0);
    sym_assert(v <= f.P("max_bound", i), id);
    sym_assert(v >= f.P("min_bound", i), id);
  }
}

template <typename K> static void bounds(int v, bool wnoise, bool set_only) {
  Fix<typename K::Meta> f(2, 2);
  K::cfg(f.par, v);
  f.nodtod();
  f.par.dw_min_std = (T)0.5;
  int op = sym_choice("op", 12);
  bool isreset = op == 7 || op == 8 || op == 10;
  f.par.reset_std = isreset && sym_fork_b("no_reset_noise") ? (T)0 : (T)0.25;
  if (op <= 1 && sym_fork_b("no_cycle_noise"))
    f.par.dw_min_std = (T)0;
  if (wnoise)
    f.par.write_noise_std = (T)0.5;
  f.create();
  f.randomize(f.n, false);

  f.apply();
  f.setW();
  bool isref = f.has("reference");
  if (op == 0)
    check<K>(f, false, "bounds after setting weights");
  RNG<T> &rng = f.rng;
  switch (op) {
  case 0: {
    if (isref)
      for (int i = 0; i < f.n; i++) { // start from a state the pulses themselves keep
        sym_assume(sym_and(f.state()[i] + f.ref(i) <= f.P("max_bound", i), f.state()[i] + f.ref(i) >= f.P("min_bound", i)));
      }
    int x[2] = {sym_fork_b("x0neg") ? -1 : 1, sym_fork_b("x1neg") ? -2 : 2};
    f.dev->doSparseUpdate(f.w.data(), 1, x, 2, sym_fork_b("dneg") ? -1 : 1, &rng);
    check<K>(f, isref, "bounds after a pulse (sparse)");
    return;
  }
  case 1: {
    if (isref)
      for (int i = 0; i < f.n; i++) {
        sym_assume(sym_and(f.state()[i] + f.ref(i) <= f.P("max_bound", i), f.state()[i] + f.ref(i) >= f.P("min_bound", i)));
      }
    int c[4] = {1, -1, 0, v & 4 ? -1 : -2};
    f.dev->doDenseUpdate(f.w.data(), c, &rng);
    check<K>(f, isref, "bounds after pulses (dense)");
    return;
  }
  case 2:
    f.dev->decayWeights(f.w.data(), sym_fork_b("bias_no_decay"));
    check<K>(f, false, "bounds after decay");
    return;
  case 3:
    f.dev->decayWeights(f.w.data(), sym_fr("alpha", -2, 2), sym_fork_b("bias_no_decay"));
    check<K>(f, false, "bounds after scaled decay");
    return;
  case 4:
    f.dev->diffuseWeights(f.w.data(), rng);
    check<K>(f, false, "bounds after diffusion");
    return;
  case 5:
    f.dev->clipWeights(f.w.data(), (T)-1.0);
    check<K>(f, false, "bounds after clip");
    return;
  case 6: {
    T c = sym_fr("clip", 0, 3);
    f.dev->clipWeights(f.w.data(), c);
    check<K>(f, false, "bounds after clip to a value");
    for (int i = 0; i < f.n; i++) {
      T w = f.state()[i];
      sym_assert(sym_or(w <= c, w <= f.P("min_bound", i)), "clip value respected above, as far as the bounds allow");
      sym_assert(sym_or(w >= -c, w >= f.P("max_bound", i)), "clip value respected below, as far as the bounds allow");
    }
    return;
  }
  case 7:
    f.dev->resetCols(f.w.data(), sym_choice("start", 2), sym_choice("ncols", 3), (T)1.0, f.rw);
    check<K>(f, false, "bounds after reset");
    return;
  case 8:
    f.dev->resetCols(f.w.data(), sym_choice("start", 2), 2, sym_fr("prob", 0, 1), f.rw);
    check<K>(f, false, "bounds after random reset");
    return;
  case 10: // (only used, and only supported, without write noise)
    if (wnoise)
      return;
    f.dev->resetAtIndices(f.w.data(), {3, 0}, f.rw);
    check<K>(f, false, "bounds after reset of single crosspoints");
    return;
  case 11: // parameters replaced
    f.randomize(f.n, false);
    f.apply();
    check<K>(f, false, "bounds after replacing the device parameters");
    return;
  case 9: // setting out-of-range weights again
    f.setW(-1000, 1000);
    check<K>(f, false, "bounds after setting weights again");
    return;
  }
}

// the parameters the device draws for itself: the documented ordering of the bounds
template <typename K> static void populated(bool consistency, bool adjust) {
  Fix<typename K::Meta> f(2, 1);
  K::cfg(f.par, 0);
  f.par.enforce_consistency = consistency;
  f.par.adjust_bounds_with_up_down = adjust;
  f.par.adjust_bounds_with_up_down_dev = (T)0.0;
  f.par.perfect_bias = false;
  f.par.lifetime = (T)0;
  f.par.corrupt_devices_prob = sym_fork_b("corrupt") ? (T)1.1 : (T)0;
  f.create();
  for (int i = 0; i < f.n; i++) {
    sym_assert(f.dev->getMinBound()[0][i] <= f.dev->getMaxBound()[0][i], "lower bound not above upper bound");
    if (consistency && !adjust && f.par.corrupt_devices_prob == (T)0) {
      sym_assert(f.dev->getScaleUp()[0][i] >= 0, "consistent up step");
      sym_assert(f.dev->getScaleDown()[0][i] >= 0, "consistent down step");
      sym_assert(f.dev->getMaxBound()[0][i] >= 0, "consistent upper bound");
      sym_assert(f.dev->getMinBound()[0][i] <= 0, "consistent lower bound");
    }
    if (f.par.corrupt_devices_prob > (T)0) {
      sym_assert(f.dev->getMinBound()[0][i] == f.dev->getMaxBound()[0][i], "stuck device has one state");
      sym_assert(f.dev->getScaleUp()[0][i] == 0, "stuck device does not move up");
      sym_assert(f.dev->getScaleDown()[0][i] == 0, "stuck device does not move down");
    }
  }
}

#define B(NAME, K, V, WN)                                                                          \
  extern "C" void run_##NAME() { bounds<K>(V, WN, false); }
B(bnd_const, KConst, 0, false)
B(bnd_linear_add, KLinear, 0, false)
B(bnd_linear_mult, KLinear, 1, false)
B(bnd_linear_wn, KLinear, 1, true)
B(bnd_soft, KSoft, 1, false)
B(bnd_softref_add, KSoftRef, 0, false)
B(bnd_softref_mult, KSoftRef, 1, false)
B(bnd_softref_wn, KSoftRef, 1, true)
B(bnd_exp, KExp, 0, false)
B(bnd_exp_complex, KExp, 5, false)
B(bnd_exp_wn, KExp, 0, true)
B(bnd_pow, KPow, 0, false)
B(bnd_pow_wn, KPow, 0, true)
B(bnd_powref, KPowRef, 0, false)
B(bnd_piece, KPiece, 4, false)
B(bnd_piece_wn, KPiece, 4, true)
#define PO(NAME, K)                                                                                \
  extern "C" void run_##NAME() { populated<K>(false, false); }                                     \
  extern "C" void run_##NAME##_cons() { populated<K>(true, false); }                               \
  extern "C" void run_##NAME##_adj() { populated<K>(false, true); }
PO(pop_const, KConst)
PO(pop_linear, KLinear)
PO(pop_exp, KExp)
PO(pop_piece, KPiece)
