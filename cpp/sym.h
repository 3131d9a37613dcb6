// Harness API. Under the symbolic executor these are intercepted; in the native replay build
// native_rt.cpp implements them by reading the counterexample's values.
#pragma once
extern "C" {
float sym_f(const char *name);                        // any real in [-1e6,1e6] (any float in fp mode)
float sym_fr(const char *name, float lo, float hi);   // any value in [lo,hi]
int sym_i(const char *name, int lo, int hi);          // any int in [lo,hi]
int sym_bv(const char *name, int lo, int hi);         // as sym_i, encoded as a bit-vector
int sym_choice(const char *name, int n);              // forked: concrete 0..n-1 on each path
bool sym_b(const char *name);
bool sym_fork_b(const char *name);
void sym_assume(bool c);
void sym_assert(bool c, const char *id);
void sym_close(float a, float b, const char *id, float tol); // equal over the reals; tol for the replay
void sym_observe(const char *name, float v);
void sym_reach(const char *id);
float sym_gauss();
float sym_uniform();
float sym_uniform_rw();
int sym_rand();
float sym_ite(bool c, float a, float b);
bool sym_and(bool a, bool b);
bool sym_or(bool a, bool b);
}
