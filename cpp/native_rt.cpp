// Native replay of a counterexample: sym_* read the values from SYM_INPUT ("name#k value" lines).
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <string>
#include <dlfcn.h>
#include <exception>
static std::map<std::string, double> g_vals;
static std::map<std::string, int> g_cnt;
static int g_failed = 0;
static double val(const char *name, double dflt) {
  std::string k = std::string(name) + "#" + std::to_string(g_cnt[name]++);
  auto it = g_vals.find(k);
  return it == g_vals.end() ? dflt : it->second;
}
extern "C" {
float sym_f(const char *n) { return (float)val(n, 0.0); }
float sym_fr(const char *n, float lo, float hi) {
  float v = (float)val(n, lo <= 0 && 0 <= hi ? 0.0 : lo);
  if (v < lo) v = lo;
  if (v > hi) v = hi;
  return v;
}
int sym_i(const char *n, int lo, int) { return (int)val(n, lo); }
int sym_bv(const char *n, int lo, int) { return (int)val(n, lo); }
int sym_choice(const char *n, int) { return (int)val(n, 0); }
bool sym_b(const char *n) { return val(n, 0) != 0; }
bool sym_fork_b(const char *n) { return val(n, 0) != 0; }
void sym_assume(bool c) {
  if (!c) { printf("ASSUME-FALSE\n"); fflush(stdout); _Exit(g_failed ? 1 : 0); }
}
void sym_assert(bool c, const char *id) {
  if (!c) { printf("FAILED %s\n", id); g_failed = 1; } else printf("OK %s\n", id);
}
void sym_close(float a, float b, const char *id, float tol) {
  double m = 1.0;
  if (std::fabs(a) > m) m = std::fabs(a);
  if (std::fabs(b) > m) m = std::fabs(b);
  bool ok = a == b || (std::isnan(a) && std::isnan(b)) || std::fabs((double)a - (double)b) <= tol * m;
  if (!ok) { printf("FAILED %s (%.9g vs %.9g)\n", id, a, b); g_failed = 1; }
  else printf("OK %s (%.9g vs %.9g)\n", id, a, b);
}
void sym_observe(const char *n, float v) { printf("OBS %s %.9g\n", n, v); }
void sym_reach(const char *n) { printf("REACH %s\n", n); }
float sym_gauss() { return (float)val("gauss", 0.0); }
float sym_uniform() { return (float)val("uniform", 0.0); }
float sym_uniform_rw() {
  float v = (float)val("uniform", 0.0);
  return v >= 1.0f ? std::nextafterf(1.0f, 0.0f) : v;
}
int sym_rand() { return (int)val("rand", 0); }
float sym_ite(bool c, float a, float b) { return c ? a : b; }
bool sym_and(bool a, bool b) { return a && b; }
bool sym_or(bool a, bool b) { return a || b; }
}
static void on_terminate() {
  printf("FAILED uncaught C++ exception\n");
  fflush(stdout);
  _Exit(1);
}
int main(int argc, char **argv) {
  std::set_terminate(on_terminate);
  if (argc > 2) {
    FILE *f = fopen(argv[2], "r");
    char name[512];
    double v;
    while (f && fscanf(f, "%500s %lf", name, &v) == 2)
      g_vals[name] = v;
    if (f) fclose(f);
  }
  std::string s = argv[1];
  void *h = dlopen(nullptr, RTLD_NOW);
  if (auto f = (void (*)())dlsym(h, ("setup_" + s).c_str())) f();
  auto g = (void (*)())dlsym(h, ("run_" + s).c_str());
  if (!g) { printf("NO-HARNESS\n"); return 3; }
  g();
  fflush(stdout);
  return g_failed;
}
