// Intrinsics of the verification harnesses.  Under the symbolic executor they
// create symbolic values and obligations; natively (replay of a
// counterexample) they read the recorded values and check with a tolerance.
#ifndef VS_H
#define VS_H
#include <cstddef>
#include <cstdint>

extern "C"
{
  double vs_real (const char *name);              // arbitrary finite real
  double vs_real_in (const char *name, double lo, double hi);
  uint64_t vs_word (const char *name, int bits);  // arbitrary word
  int64_t vs_int (const char *name, int64_t lo, int64_t hi);
  int64_t vs_concrete (int64_t v);                // enumerate the values
  int64_t vs_param (int i);                       // parameter of the job
  int vs_symbolic ();
  void vs_assume (bool c);
  bool vs_decide (bool c);                        // split the path
  void vs_stop ();
  void vs_assert (bool c, const char *label);
  void vs_assert_eq (double a, double b, const char *label);
  void vs_assert_word (uint64_t a, uint64_t b, const char *label);
  void vs_reach (const char *label);
  double vs_obj (const char *name, int n, const double *x);
  void vs_set_schedule (int k);
  double vs_uf (const char *name, int n, const double *x);
  int vs_tok_write (double v, int precision, int flags, int width);
  double vs_tok_value (int i);
  int vs_tok_prec (int i);
  int vs_tok_flags (int i);
  int vs_tok_width (int i);
  double vs_text_double (const char *s, int n);
}

// an arbitrary real within an open interval
static inline double
vs_between (const char *name, double lo, double hi)
{
  const double v = vs_real_in (name, lo, hi);
  vs_assume (lo < v);
  vs_assume (v < hi);
  return v;
}

static inline double
vs_positive (const char *name)
{
  const double v = vs_real_in (name, 0.0, 1e300);
  vs_assume (v > 0.0);
  return v;
}

static inline int64_t
vs_choose (const char *name, int64_t lo, int64_t hi)
{
  return vs_concrete (vs_int (name, lo, hi));
}

static inline double
vs_uf1 (const char *name, double x)
{
  return vs_uf (name, 1, &x);
}

static inline double
vs_uf2 (const char *name, double x, double y)
{
  double a[2] = { x, y };
  return vs_uf (name, 2, a);
}

#define HARNESS(name) extern "C" void name ()
#endif
