//# C22
//! tsan
// Concurrent evaluation: no two evaluations are in conflict, and the result
// is the same whenever they are executed.
#include "model_parts.h"
#include "core/optimize.h"
#include "core/equations.h"

static vector<double> zs;
static size_t zi = 0;

struct Deviate
{
  double
  operator() () const
  {
    vs_assume (zi < zs.size ()); // no more rejected
    return zs[zi++];
  }
};

struct Eigen
{
  int n;
  void
  operator() (const double A[], double Z[], double w[]) const
  {
    static const char *const EIG[] = { "w0", "w1", "w2" };
    static const char *const VEC[] = { "v0", "v1", "v2", "v3", "v4", "v5", "v6", "v7", "v8" };
    double u[6];
    int m = 0;
    for (int j = 0; j < n; ++j)
      for (int i = 0; i <= j; ++i)
        u[m++] = A[i + n * j];
    for (int j = 0; j < n; ++j)
      w[j] = vs_obj (EIG[j], m, u);
#ifndef VS_SYMBOLIC
    for (int j = 0; j < n; ++j)
      w[j] = fabs (w[j]) + 0.1;
    sort (w, w + n);
#endif
    vs_assume (w[0] > 0.0);
    for (int j = 1; j < n; ++j)
      vs_assume (w[j - 1] <= w[j]);
    for (int k = 0; k < n * n; ++k)
      Z[k] = vs_obj (VEC[k], m, u);
  }
};

// an arbitrary function
struct F
{
  double
  operator() (const double x[], natural n) const
  {
    return vs_obj ("f", n, x);
  }
};

struct Box
{
  vector<double> a, b;
  bool
  is_violated (const double x[], natural n) const
  {
    for (natural i = 0; i < n && i < a.size (); ++i)
      if (x[i] < a[i] || x[i] > b[i])
        return true;
    return false;
  }
  double
  cost (const double x[], natural n) const
  {
    return vs_obj ("cost", n, x);
  }
};

struct Unbounded
{
  bool is_violated (const double[], natural) const { return false; }
  double cost (const double[], natural) const { return 0.0; }
};

struct Tracer
{
  natural modulus;
  mutable vector<double> *all;
  bool
  is_tracing (natural g) const
  {
    return modulus > 0 && g % modulus == 0;
  }
  void
  trace (natural g, double y, double lo, double hi) const
  {
    all->push_back (y);
    all->push_back (lo);
    all->push_back (hi);
  }
};

struct State
{
  natural g;
  double s, y;
  vector<double> x, d, B, C, ps, pc, traced;
  bool optimized, underflow;
};

static State
arbitrary_state (int n)
{
  State t;
  t.g = 0;
  t.y = 0.0;
  t.s = vs_positive ("s");
  for (int i = 0; i < n; ++i)
    {
      t.x.push_back (vs_real ("x"));
      t.d.push_back (vs_positive ("d"));
      t.ps.push_back (vs_real ("ps"));
      t.pc.push_back (vs_real ("pc"));
    }
  for (int k = 0; k < n * n; ++k)
    {
      t.B.push_back (vs_real ("B"));
      t.C.push_back (vs_real ("C"));
    }
  t.optimized = t.underflow = false;
  return t;
}

static const double W[] = { 0.6875, 0.25, 0.0625 };

template <class Objective, class Constraint>
static void
run (State &t, const Objective &f, const Constraint &constraint, int parents, int population, int generations, int adapt,
     natural modulus, int schedule)
{
  const int n = int (t.x.size ());
  const Tracer tracer = { modulus, &t.traced };
  const Eigen eigen = { n };
  const double rate = adapt ? 0.25 : 0.0;
  vs_set_schedule (schedule);
  zi = 0;
  especia::optimize (f, constraint, natural (n), natural (parents), natural (population), W, 2.0, 0.5, 0.5, rate, rate,
                     1, 1e-6, natural (generations), t.g, &t.x[0], t.s, &t.d[0], &t.B[0], &t.C[0], &t.ps[0], &t.pc[0],
                     t.y, t.optimized, t.underflow, Deviate (), eigen, less<double> (), tracer);
}

static void
same (const vector<double> &a, const vector<double> &b, const char *label)
{
  vs_assert_word (a.size (), b.size (), label);
  for (size_t i = 0; i < a.size () && i < b.size (); ++i)
    vs_assert_eq (a[i], b[i], label);
}

static void
same_state (const State &a, const State &b)
{
  vs_assert (a.optimized == b.optimized, "optimised whatever the schedule");
  vs_assert (a.underflow == b.underflow, "underflow whatever the schedule");
  vs_assert_word (a.g, b.g, "same generation whatever the schedule");
  vs_assert_eq (a.y, b.y, "same fitness whatever the schedule");
  vs_assert_eq (a.s, b.s, "same step size whatever the schedule");
  same (a.x, b.x, "same values whatever the schedule");
  same (a.C, b.C, "same covariance whatever the schedule");
  same (a.ps, b.ps, "same path whatever the schedule");
  same (a.traced, b.traced, "same trace whatever the schedule");
}

// Candidates: dimension, parents, population, generations, adaptation, trace,
// box.
//@ c22_candidates prop=C22 params=1,1,2,1,0,1,0;1,2,4,1,0,0,0;2,1,3,1,1,1,0;1,1,2,2,1,0,0;2,1,2,1,0,0,1 tparams=1..2,1..2,3..4,1,0..1,1,0;1,1,2,3,1,1,0;1,1,6,1,0,0,0 races=1 sel=fork num=20 time=200
HARNESS (c22_candidates)
{
  const int n = vs_param (0);
  const State t = arbitrary_state (n);
  Box box;
  if (vs_param (6))
    {
      for (int i = 0; i < n; ++i)
        {
          box.a.push_back (vs_real ("lower"));
          box.b.push_back (vs_real ("upper"));
        }
    }
  zs.clear ();
  for (int k = 0; k < vs_param (2) * vs_param (3) * n; ++k)
    zs.push_back (vs_real ("z"));
  State r[3];
  for (int k = 0; k < 3; ++k)
    {
      r[k] = t;
      run (r[k], F (), box, vs_param (1), vs_param (2), vs_param (3), vs_param (4), vs_param (5), k);
      if (k > 0)
        same_state (r[0], r[k]);
    }
  vs_reach ("end");
}

// Probes of the uncertainties: dimension, limit of the number of probes.
//@ c22_probes prop=C22 params=1,3;2,2 tparams=1,6;2,3;3,2 races=1 sel=fork num=20 time=200
HARNESS (c22_probes)
{
  const int n = vs_param (0);
  const State t = arbitrary_state (n);
  for (int i = 0; i < n; ++i)
    vs_assume (t.C[i + i * n] > 0.0);
  const F f = F ();
  const Box box = Box ();
  // the number of probes is limited
  const double zx = f (&t.x[0], n) + box.cost (&t.x[0], n);
  for (int j = 0; j < n; ++j)
    {
      bool small = false, large = false;
      double c = t.s;
      for (int k = 0; !small || !large; ++k)
        {
          vs_assume (k < vs_param (1));
          vector<double> p (n), q (n);
          for (int i = 0; i < n; ++i)
            {
              p[i] = t.x[i] + c * t.B[i + j * n] * t.d[j];
              q[i] = t.x[i] - c * t.B[i + j * n] * t.d[j];
            }
          const double zp = f (&p[0], n) + box.cost (&p[0], n), zq = f (&q[0], n) + box.cost (&q[0], n);
          if (vs_decide (fabs (0.5 * (zp + zq) - zx) < 0.5))
            {
              small = true;
              c *= 1.618;
            }
          else
            {
              large = true;
              c *= 0.618;
            }
        }
    }
  vector<double> z[3];
  for (int k = 0; k < 3; ++k)
    {
      z[k].assign (n, 0.0);
      vs_set_schedule (k);
      especia::postopti (f, box, natural (n), &t.x[0], &t.d[0], &t.B[0], &t.C[0], t.s, &z[k][0]);
      if (k > 0)
        same (z[0], z[k], "same uncertainties whatever the schedule");
    }
  vs_reach ("end");
}

// an arbitrary function that cannot be evaluated where an arbitrary
// indicator is positive
struct Failing
{
  double
  operator() (const double x[], natural n) const
  {
    if (vs_decide (vs_obj ("fails", n, x) > 0.0))
      throw runtime_error ("cannot be evaluated");
    return vs_obj ("f", n, x);
  }
};

// Failing evaluations: dimension, parents, population, schedule.
//@ c22_failing prop=C22 params=1,1,2,0..2;2,1,3,0..1 tparams=2,2,4,0..2;1,1,6,0..2 races=1 sel=fork num=20 time=200
HARNESS (c22_failing)
{
  const int n = vs_param (0), population = vs_param (2);
  State t = arbitrary_state (n);
  zs.clear ();
  for (int k = 0; k < population * n; ++k)
    zs.push_back (vs_real ("z"));
  // the candidates
  bool fails = false;
  for (int k = 0, m = 0; k < population; ++k)
    {
      vector<double> u (n, 0.0), x (n);
      for (int j = 0; j < n; ++j, ++m)
        for (int i = 0; i < n; ++i)
          u[i] += zs[m] * (t.B[i + n * j] * t.d[j]);
      for (int i = 0; i < n; ++i)
        x[i] = t.x[i] + u[i] * t.s;
      if (vs_decide (vs_obj ("fails", n, &x[0]) > 0.0))
        fails = true;
    }
  bool failed = false;
  try
    {
      run (t, Failing (), Unbounded (), vs_param (1), population, 1, 0, 0, vs_param (3));
    }
  catch (runtime_error &e)
    {
      failed = true;
      vs_assert (string (e.what ()) == "cannot be evaluated", "error of the evaluation");
    }
  if (fails)
    vs_assert (failed, "a failing evaluation of a candidate is reported");
  // the recombined candidate is evaluated by the calling thread
  vs_reach ("end");
}

// Failing probes: dimension, schedule.
//@ c22_failing_probes prop=C22 params=1,0..2;2,0 tparams=2,0..2;3,0..2 races=1 sel=fork num=20 time=200
HARNESS (c22_failing_probes)
{
  const int n = vs_param (0);
  const State t = arbitrary_state (n);
  vector<double> p (n), q (n), z (n);
  for (int i = 0; i < n; ++i)
    {
      p[i] = t.x[i] + t.s * t.B[i] * t.d[0];
      q[i] = t.x[i] - t.s * t.B[i] * t.d[0];
    }
  // one of the first two probes fails
  const bool a = vs_decide (vs_obj ("fails", n, &p[0]) > 0.0), b = vs_decide (vs_obj ("fails", n, &q[0]) > 0.0);
  vs_assume (a || b);
  vs_set_schedule (vs_param (1));
  bool failed = false;
  try
    {
      especia::postopti (Failing (), Unbounded (), natural (n), &t.x[0], &t.d[0], &t.B[0], &t.C[0], t.s, &z[0]);
    }
  catch (runtime_error &e)
    {
      failed = true;
      vs_assert (string (e.what ()) == "cannot be evaluated", "error of the evaluation");
    }
  vs_assert (failed, "a failing probe is reported");
  vs_reach ("end");
}

// The cost function of a model as objective.
static vector<Sec>
small_model (int ns, int nl, int P, int terms)
{
  vector<Sec> m;
  for (int i = 0; i < ns; ++i)
    {
      Sec s = section (i, 3, terms);
      for (size_t q = 0; q < s.u.size (); ++q)
        s.u[q] = 1.0; // the continuum can be determined
      s.res = number (10.0, 0);
      for (int j = 0; j < nl; ++j)
        {
          Profile l;
          l.id = string ("L") + integer (i) + integer (j);
          // rest wavelength, oscillator strength, redshift, velocity, width, column
          static const double V[] = { 1000.0, 0.5, 0.0, 10.0, 20.0, 13.0, 1.0, 0.0 };
          for (int q = 0; q < P; ++q)
            l.p.push_back (number (V[q], 0));
          l.p[0].v += 10.0 * i;
          s.lines.push_back (l);
        }
      m.push_back (s);
    }
  // free: velocity of the first line, column of the last
  m[0].lines[0].p[3] = arbitrary (1);
  m[ns - 1].lines[nl - 1].p[5] = arbitrary (1);
  return m;
}

template <class Function>
static void
evaluate_model (int P)
{
  const int ns = vs_param (0), nl = vs_param (1), population = vs_param (2);
  const vector<Sec> m = small_model (ns, nl, P, vs_param (3));
  files (m);
  istringstream is (definition (m));
  ostringstream os;
  Silent s;
  const especia::Model<Function> model = especia::Model<Function>::parse (is, os);
  const int n = int (model.get_parameter_count ());
  vs_assert_word (n, 2, "number of parameters");
  State t;
  t.g = 0;
  t.s = 1.0;
  t.y = 0.0;
  for (int i = 0; i < n; ++i)
    {
      t.x.push_back (vs_real ("x"));
      t.d.push_back (1.0);
      t.ps.push_back (0.0);
      t.pc.push_back (0.0);
    }
  t.B.assign (n * n, 0.0);
  t.C.assign (n * n, 1.0);
  for (int i = 0; i < n; ++i)
    t.B[i + n * i] = 1.0;
  t.optimized = t.underflow = false;
  State r[3];
  bool failed[3];
  zs.clear ();
  for (int k = 0; k < population * n; ++k)
    zs.push_back (vs_real ("z"));
  for (int k = 0; k < 3; ++k)
    {
      r[k] = t;
      failed[k] = false;
      try
        {
          run (r[k], model, Unbounded (), 1, population, 1, 0, 0, k);
        }
      catch (runtime_error &)
        {
          failed[k] = true; // the continuum cannot be determined
        }
      if (k > 0)
        vs_assert (failed[0] == failed[k], "same error whatever the schedule");
      if (k > 0 && !failed[0] && !failed[k])
        {
          vs_assert (r[0].underflow == r[k].underflow, "same outcome whatever the schedule");
          same (r[0].x, r[k].x, "same values whatever the schedule");
        }
    }
  vs_reach ("end");
}

// Sections, lines, population, continuum terms.
//@ c22_model prop=C22 params=1,1,2,0;2,1,2,0;1,1,2,1 tparams=2,1,2,1;1,2,2,2;2,2,2,1;1,1,3,0 races=1 num=20 time=200
HARNESS (c22_model)
{
  evaluate_model<Line<6> > (6);
}

// Two evaluations of the profiles of an application, with different
// parameter values, in two threads: profile type, schedule.
template <class Function>
static void
evaluate_profile ()
{
  const int P = int (Function::parameter_count ());
  // rest wavelength, strength, redshift, velocity, width, column, ...
  static const double V[] = { 1000.0, 0.5, 0.0, 10.0, 20.0, 13.0, 1.0, 0.0 };
  double q[2][8], x[2], y[2], z[2];
  for (int k = 0; k < 2; ++k)
    {
      for (int i = 0; i < P; ++i)
        q[k][i] = V[i];
      q[k][1] = vs_positive ("f"); // oscillator strength
      q[k][4] += 10.0 * k;
      if (P > 7)
        q[k][7] = vs_real ("alpha");
      x[k] = vs_real ("x");
      z[k] = especia::Superposition<Function> (1, q[k]) (x[k]);
    }
  vs_set_schedule (vs_param (1));
  {
    thread a ([&] () { y[0] = especia::Superposition<Function> (1, q[0]) (x[0]); });
    thread b ([&] () { y[1] = especia::Superposition<Function> (1, q[1]) (x[1]); });
    a.join ();
    b.join ();
  }
  for (int k = 0; k < 2; ++k)
    vs_assert_eq (y[k], z[k], "same optical depth in a thread");
  // shared by both threads
  const especia::Superposition<Function> shared (1, q[0]);
  {
    thread a ([&] () { y[0] = shared (x[0]); });
    thread b ([&] () { y[1] = shared (x[0]); });
    a.join ();
    b.join ();
  }
  for (int k = 0; k < 2; ++k)
    vs_assert_eq (y[k], z[0], "same optical depth of a shared profile");
  vs_reach ("end");
}

//@ c22_profiles prop=C22 params=0..3,1 tparams=0..3,0..2 races=1 num=20 time=200
HARNESS (c22_profiles)
{
  switch (vs_param (0))
    {
    case 0:
      evaluate_profile<especia::Intergalactic_Doppler> ();
      break;
    case 1:
      evaluate_profile<especia::Many_Multiplet> ();
      break;
    case 2:
      evaluate_profile<especia::Intergalactic_Voigt<especia::Pseudo_Voigt> > ();
      break;
    case 3:
      evaluate_profile<especia::Intergalactic_Voigt<especia::Extended_Pseudo_Voigt> > ();
      break;
    }
}

// Wavelength conversions, as used by the utilities, in two threads.
//@ c22_equations prop=C22 params=0..1 tparams=0..2 races=1 num=20 time=200
HARNESS (c22_equations)
{
  double x[2], y[2][3], z[2][3];
  for (int k = 0; k < 2; ++k)
    {
      x[k] = vs_real ("x");
      z[k][0] = especia::Equations::birch94 (x[k]);
      z[k][1] = especia::Equations::edlen53 (x[k]);
      z[k][2] = especia::Equations::edlen66 (x[k]);
    }
  vs_set_schedule (vs_param (0));
  const auto f = [&] (int k) {
    y[k][0] = especia::Equations::birch94 (x[k]);
    y[k][1] = especia::Equations::edlen53 (x[k]);
    y[k][2] = especia::Equations::edlen66 (x[k]);
  };
  thread a ([&] () { f (0); });
  thread b ([&] () { f (1); });
  a.join ();
  b.join ();
  for (int k = 0; k < 2; ++k)
    for (int i = 0; i < 3; ++i)
      vs_assert_eq (y[k][i], z[k][i], "same refraction in a thread");
  vs_reach ("end");
}
