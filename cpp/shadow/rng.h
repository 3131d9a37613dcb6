// Environment stub for random numbers: every draw is an arbitrary value of its documented range.
#pragma once
#include "math_util.h"
#include <chrono>
#include <cstdlib>
#include <functional>
#include <iostream>
#include <memory>
#include <random>
#include <time.h>
#define RANDFUN rand
#define RPU_MAX_RAND_RANGE RAND_MAX
typedef int randomint_t;
#define FIXED_LIST_SIZE 32768
#define FIXED_LIST_SIZE_MSK 0x7FFF
extern "C" {
float sym_gauss();
float sym_uniform();
float sym_uniform_rw();
int sym_rand();
}
// log of the Gaussian draws of the current path, for harnesses that state a law in terms of the draw
struct VerifDraws {
  int n = 0, nu = 0;
  float g[512], u[512];
};
inline VerifDraws verif_draws;
inline float verif_gauss() {
  float v = sym_gauss();
  if (verif_draws.n < 512)
    verif_draws.g[verif_draws.n] = v;
  verif_draws.n++;
  return v;
}
inline float verif_uniform(float v) {
  if (verif_draws.nu < 512)
    verif_draws.u[verif_draws.nu] = v;
  verif_draws.nu++;
  return v;
}
namespace RPU {
template <typename T> class RealWorldRNG {
public:
  explicit RealWorldRNG(unsigned int seed) : seed_(seed) {}
  RealWorldRNG() : RealWorldRNG(0) {}
  void setSeed(unsigned int seed) { seed_ = seed; }
  T sampleGauss() { return (T)verif_gauss(); }
  T sampleUniform() { return (T)verif_uniform(sym_uniform_rw()); }

private:
  unsigned int seed_ = 0;
};
template <typename T> class RNG {
public:
  explicit RNG(unsigned int seed) : seed_(seed) {}
  RNG() : RNG<T>(0) {}
  friend void swap(RNG<T> &a, RNG<T> &b) noexcept { std::swap(a.seed_, b.seed_); }
  void generateNewList() {}
  void generateNewList(int) {}
  void randomizeSeed() {}
  void setSeed(unsigned int seed) { seed_ = seed; }
  randomint_t sample() { return sym_rand(); }
  T sampleUniform() { return (T)verif_uniform(sym_uniform()); }
  T sampleUniform(float min_max) { return (T)((verif_uniform(sym_uniform()) - 0.5f) * 2.0f * min_max); }
  T sampleUniform(float min_value, float max_value) {
    return (T)((verif_uniform(sym_uniform()) * (max_value - min_value)) + min_value);
  }
  T sampleGauss() { return (T)verif_gauss(); }

private:
  unsigned int seed_ = 0;
};
} // namespace RPU
