//# C18 C19 C20 C21 C23 C24
//! libs -l:liblapack.so.3
// The evolution strategy: one generation from an arbitrary state, compared
// with an independent implementation of the published update; termination;
// feasibility; uncertainties; configuration.
#include "vs_std.h"
#include "vs.h"
#include "core/base.h"
#include "core/deviates.h"
#include "core/random.h"
using namespace std;
using especia::natural;

// ----------------------------------------------------- the surroundings
// The linear algebra library: eigenvalues and eigenvectors are arbitrary
// functions of the matrix, the eigenvalues ascend.
static const char *const EIG[] = { "w0", "w1", "w2" };
static const char *const VEC[] = { "v0", "v1", "v2", "v3", "v4", "v5", "v6", "v7", "v8" };

static void
eigen (int n, const double A[], double Z[], double w[])
{
  double u[6];
  int m = 0;
  for (int j = 0; j < n; ++j)
    for (int i = 0; i <= j; ++i)
      u[m++] = A[i + n * j];
  for (int j = 0; j < n; ++j)
    w[j] = vs_obj (EIG[j], m, u);
  if (!vs_symbolic ())
    {
      for (int j = 0; j < n; ++j)
        w[j] = fabs (w[j]) + 0.1;
      sort (w, w + n);
      // every other matrix is badly conditioned
      if (n > 1 && vs_obj ("condition", m, u) > 0.0)
        w[0] *= 1.0E-16;
    }
  for (int j = 1; j < n; ++j)
    vs_assume (w[j - 1] <= w[j]);
  vs_assume (w[n - 1] > 0.0);
  for (int k = 0; k < n * n; ++k)
    Z[k] = vs_obj (VEC[k], m, u);
}

#ifdef VS_SYMBOLIC
extern "C"
{
  double
  dlamch_ (const char &)
  {
    return 2.2250738585072014e-308;
  }
  void
  dsyevr_ (const char &, const char &, const char &, const int &n, double A[], const int &, const double &,
           const double &, const int &, const int &, const double &, int &m, double w[], double Z[], const int &,
           int[], double work[], const int &lwork, int iwork[], const int &liwork, int &info)
  {
    info = 0;
    if (lwork == -1)
      {
        work[0] = 26 * n;
        iwork[0] = 10 * n;
        return;
      }
    m = n;
    eigen (n, A, Z, w);
  }
  void
  dsyevd_ (const char &, const char &, const int &n, double A[], const int &, double w[], double work[],
           const int &lwork, int iwork[], const int &liwork, int &info)
  {
    info = 0;
    if (lwork == -1)
      {
        work[0] = 1 + 6 * n + 2 * n * n;
        iwork[0] = 3 + 5 * n;
        return;
      }
    double *B = new double[n * n];
    for (int i = 0; i < n * n; ++i)
      B[i] = A[i];
    eigen (n, B, A, w);
    delete[] B;
  }
  void
  dsyevx_ (const char &, const char &, const char &, const int &n, double A[], const int &, const double &,
           const double &, const int &, const int &, const double &, int &m, double w[], double Z[], const int &,
           double work[], const int &lwork, int[], int[], int &info)
  {
    info = 0;
    if (lwork == -1)
      {
        work[0] = 8 * n;
        return;
      }
    m = n;
    eigen (n, A, Z, w);
  }
}
#endif

// Normal deviates: arbitrary, recorded, and the same after rewinding.
static vector<double> zs;
static size_t zi = 0;
static size_t zmax = 1000;

static double
next_deviate ()
{
  if (zi == zs.size ())
    {
      vs_assume (zs.size () < zmax);
      zs.push_back (vs_real ("z"));
    }
  return zs[zi++];
}

static especia::word64 seeded = 0;

template <class Generator> class VS_Deviate
{
public:
  explicit VS_Deviate (especia::word64 seed = 0) : gen (seed)
  {
    seeded = seed;
  }
  double
  operator() () const
  {
    return next_deviate ();
  }

private:
  Generator gen;
};

#define Normal_Deviate VS_Deviate
#include "core/optimizer.h"
#include "core/decompose.cxx"
#include "core/optimizer.cxx"
#undef Normal_Deviate

struct Deviate
{
  double
  operator() () const
  {
    return next_deviate ();
  }
};

struct Eigen
{
  int n;
  explicit Eigen (int m) : n (m) {}
  void
  operator() (const double A[], double Z[], double w[]) const
  {
    eigen (n, A, Z, w);
  }
};

static bool ties = false;

// Native runs: coarse values, such that ties occur.
static double
coarse (double y)
{
#ifdef VS_SYMBOLIC
  return y;
#else
  return ties ? floor (2.0 * y) : y;
#endif
}

// the objective: an arbitrary function
static double sign = 1.0;
static vector<vector<double> > *visited = 0;
#ifndef VS_SYMBOLIC
static mutex guard; // native runs: the candidates are evaluated concurrently
#endif

static double
objective (const double x[], int n)
{
  const double y = coarse (vs_obj ("f", n, x));
  return sign * y;
}

struct Box;
static const Box *bounds = 0; // evaluated points must lie within
static int budget = -1;       // number of evaluations left

struct F
{
  double operator() (const double x[], natural n) const;
};

// a box, and a cost that depends on the point
struct Box
{
  vector<double> a, b;
  bool on;
  bool
  is_violated (const double x[], natural n) const
  {
    if (on)
      for (natural i = 0; i < n; ++i)
        if (x[i] < a[i] || x[i] > b[i])
          return true;
    return false;
  }
  double
  cost (const double x[], natural n) const
  {
    return sign * coarse (vs_obj ("cost", n, x));
  }
};

inline double
F::operator() (const double x[], natural n) const
{
  if (bounds)
    for (natural i = 0; i < n; ++i)
      vs_assert ((x[i] >= bounds->a[i]) & (x[i] <= bounds->b[i]), "evaluated points are feasible");
#ifndef VS_SYMBOLIC
  lock_guard<mutex> lock (guard);
#endif
  if (budget >= 0)
    vs_assume (budget-- > 0);
  if (visited)
    visited->push_back (vector<double> (x, x + n));
  return objective (x, n);
}

struct Trace
{
  natural g;
  double y, lo, hi;
};

struct Tracer
{
  natural modulus;
  mutable vector<Trace> *all;
  bool
  is_tracing (natural g) const
  {
    return modulus > 0 && g % modulus == 0;
  }
  void
  trace (natural g, double y, double lo, double hi) const
  {
    Trace t = { g, y, lo, hi };
    all->push_back (t);
  }
};

struct State
{
  int n;
  natural g;
  double s, y;
  vector<double> x, d, B, C, ps, pc;
  bool optimized, underflow;
};

static State
arbitrary_state (int n, natural g)
{
  State t;
  t.n = n;
  t.g = g;
  t.s = vs_positive ("s");
  t.y = vs_real ("y");
  for (int i = 0; i < n; ++i)
    {
      t.x.push_back (vs_real ("x"));
      t.d.push_back (vs_positive ("d"));
      t.ps.push_back (vs_real ("ps"));
      t.pc.push_back (vs_real ("pc"));
    }
  for (int k = 0; k < n * n; ++k)
    {
      t.B.push_back (vs_real ("B"));
      t.C.push_back (vs_real ("C"));
    }
  t.optimized = false;
  t.underflow = false;
  return t;
}

struct Strategy
{
  int parents, population;
  vector<double> w;
  double damping, cs, cc, ccov, acov, goal;
  natural modulus, stop;
};

static Strategy
arbitrary_strategy (int parents, int population, natural modulus, natural stop, int adapt)
{
  Strategy t;
  t.parents = parents;
  t.population = population;
  for (int i = 0; i < parents; ++i)
    {
      t.w.push_back (vs_positive ("weight"));
    }
  t.damping = vs_positive ("damping");
  t.cs = vs_between ("cs", 0.0, 1.0);
  t.cc = vs_between ("cc", 0.0, 1.0);
  // (follows)
  vs_assume (t.cs * (2.0 - t.cs) > 0.0);
  vs_assume (t.cc * (2.0 - t.cc) > 0.0);
  t.ccov = 0.0;
  t.acov = 0.0;
  if (adapt & 1)
    {
      t.acov = vs_between ("acov", 0.0, 1.0);
    }
  if (adapt & 2)
    {
      t.ccov = vs_between ("ccov", 0.0, 1.0);
    }
  t.goal = vs_positive ("goal");
  t.modulus = modulus;
  t.stop = stop;
  return t;
}

// native runs: the reference uses the real library as well
static bool library = false;

static const double CONDITION = 0.01 / numeric_limits<double>::epsilon ();

// One generation according to Hansen and Ostermeier (2001), with the rank-mu
// update of Hansen (2014).
static void
candidates (const State &t, const Strategy &q, const Box &box, vector<vector<double> > &x, vector<vector<double> > &u,
            vector<vector<double> > &v, vector<double> &y)
{
  const int n = t.n, lambda = q.population;
  x.assign (lambda, vector<double> (n));
  u = v = x;
  y.assign (lambda, 0.0);
  for (int k = 0; k < lambda; ++k)
    {
      vector<double> zk;
      for (int j = 0; j < n; ++j)
        {
          for (;;)
            {
              const double z = next_deviate ();
              for (int i = 0; i < n; ++i)
                {
                  u[k][i] = z * t.d[j] * t.B[i + j * n];
                  v[k][i] = z * t.B[i + j * n];
                  for (size_t l = 0; l < zk.size (); ++l)
                    {
                      u[k][i] += zk[l] * t.d[l] * t.B[i + l * n];
                      v[k][i] += zk[l] * t.B[i + l * n];
                    }
                  x[k][i] = t.x[i] + t.s * u[k][i];
                }
              bool inside = true;
              if (box.on)
                for (int i = 0; inside && i < n; ++i)
                  inside = vs_decide (!(x[k][i] < box.a[i])) && vs_decide (!(x[k][i] > box.b[i]));
              if (inside)
                {
                  zk.push_back (z);
                  break;
                }
            }
        }
      y[k] = objective (&x[k][0], n) + box.cost (&x[k][0], n);
    }
}

static void
generation (State &t, const Strategy &q, const Box &box)
{
  const int n = t.n, mu = q.parents, lambda = q.population;
  vector<vector<double> > x, u, v;
  vector<double> y;
  candidates (t, q, box, x, u, v, y);
  t.g += 1;
  // without ties the order is unique
  bool distinct = true;
  for (int k = 0; k < lambda; ++k)
    for (int l = 0; l < k; ++l)
      distinct = distinct & (y[k] != y[l]);
  vs_assume (distinct);
  // the best of them, in order
  vector<int> order;
  vector<bool> taken (lambda, false);
  for (int r = 0; r < mu; ++r)
    for (int k = 0; k < lambda; ++k)
      {
        if (taken[k])
          continue;
        bool least = true;
        for (int l = 0; l < lambda; ++l)
          if (!taken[l] && l != k)
            least = least & (y[k] < y[l]);
        if (vs_decide (least))
          {
            order.push_back (k);
            taken[k] = true;
            break;
          }
      }
  t.underflow = false;
  double ws = 0.0, ww = 0.0;
  for (int k = 0; k < mu; ++k)
    {
      ws += q.w[k];
      ww += q.w[k] * q.w[k];
    }
  const double cw = ws / sqrt (ww); // square root of the effective number of parents
  vector<double> um (n), vm (n);
  for (int i = 0; i < n; ++i)
    {
      double a = 0.0, b = 0.0, c = 0.0;
      for (int k = 0; k < mu; ++k)
        {
          a += q.w[k] * x[order[k]][i];
          b += q.w[k] * u[order[k]][i];
          c += q.w[k] * v[order[k]][i];
        }
      t.x[i] = a / ws;
      um[i] = b / ws;
      vm[i] = c / ws;
    }
  if (q.acov > 0.0 || q.ccov > 0.0)
    {
      for (int i = 0; i < n; ++i)
        t.pc[i] = (1.0 - q.cc) * t.pc[i] + sqrt (q.cc * (2.0 - q.cc)) * cw * um[i];
      for (int j = 0; j < n; ++j)
        for (int i = 0; i <= j; ++i)
          {
            double r = 0.0;
            for (int k = 0; k < mu; ++k)
              r += q.w[k] * u[order[k]][i] * u[order[k]][j];
            double &c = t.C[i + j * n];
            c = (1.0 - q.acov - q.ccov) * c + q.acov * t.pc[i] * t.pc[j] + q.ccov * (r / ws);
          }
      if (t.g % q.modulus == 0)
        {
          if (library && !vs_symbolic ())
            especia::Decompose (natural (n)) (&t.C[0], &t.B[0], &t.d[0]);
          else
            eigen (n, &t.C[0], &t.B[0], &t.d[0]);
          // the condition number is limited
          const double least = t.d[n - 1] / CONDITION;
          if (vs_decide (t.d[0] < least))
            {
              const double shift = least - t.d[0];
              for (int i = 0; i < n; ++i)
                {
                  t.C[i + i * n] += shift;
                  t.d[i] += shift;
                }
            }
          for (int i = 0; i < n; ++i)
            t.d[i] = sqrt (t.d[i]);
        }
    }
  double p = 0.0;
  for (int i = 0; i < n; ++i)
    {
      t.ps[i] = (1.0 - q.cs) * t.ps[i] + sqrt (q.cs * (2.0 - q.cs)) * cw * vm[i];
      p += t.ps[i] * t.ps[i];
    }
  // expected length of a standard normal vector
  const double en = n * (1.0 - 1.0 / (4.0 * n) + 1.0 / (21.0 * n * n)) / sqrt (double (n));
  t.s *= exp (q.cs / q.damping * (sqrt (p) / en - 1.0));
}

static bool
converged (const State &t, const Strategy &q)
{
  for (int i = 0; i < t.n; ++i)
    {
      const double a = q.goal * t.x[i];
      if (!vs_decide (t.s * t.s * t.C[i + i * t.n] < a * a + 1.0 / CONDITION))
        return false;
    }
  return true;
}

template <class Compare>
static void
run_code (State &t, const Strategy &q, const Box &box, natural trace, vector<Trace> &traced, const Compare &compare)
{
  const Tracer tracer = { trace, &traced };
  especia::optimize (F (), box, natural (t.n), natural (q.parents), natural (q.population), &q.w[0], q.damping, q.cs,
                     q.cc, q.ccov, q.acov, q.modulus, q.goal, q.stop, t.g, &t.x[0], t.s, &t.d[0], &t.B[0], &t.C[0],
                     &t.ps[0], &t.pc[0], t.y, t.optimized, t.underflow, Deviate (), Eigen (t.n), compare, tracer);
}

static void
run_reference (State &t, const Strategy &q, const Box &box, natural trace, vector<Trace> &expected)
{
  t.optimized = false;
  while (t.g < q.stop)
    {
      generation (t, q, box);
      t.optimized = converged (t, q);
      if (t.optimized || (trace > 0 && t.g % trace == 0))
        {
          Trace r = { t.g, objective (&t.x[0], t.n) + box.cost (&t.x[0], t.n), t.s * t.d[0], t.s * t.d[t.n - 1] };
          expected.push_back (r);
        }
      if (t.optimized)
        break;
    }
  t.y = objective (&t.x[0], t.n) + box.cost (&t.x[0], t.n);
}

static void
same_numbers (const vector<double> &a, const vector<double> &b, const char *label)
{
  for (size_t i = 0; i < a.size (); ++i)
    vs_assert_eq (a[i], b[i], label);
}

static Box
no_box ()
{
  Box b;
  b.on = false;
  return b;
}

// One generation from an arbitrary state.  Dimension, parents, population,
// parts of the covariance update, generation number, update modulus.
//@ c19_generation prop=C19 params=1,1,2,0..3,0,1;1,2,4,3,4,5;2,1,2,3,0,1;2,1,2,0,3,1;2,1,3,3,2,2;2,1,3,1..2,3,2 tparams=1..2,1..2,3..4,0..3,0,1;3,1,2,3,0,1 time=200
HARNESS (c19_generation)
{
  const int n = vs_param (0);
  State a = arbitrary_state (n, natural (vs_param (4)));
  const Strategy q = arbitrary_strategy (int (vs_param (1)), int (vs_param (2)), natural (vs_param (5)), a.g + 1,
                                         int (vs_param (3)));
  State b = a;
  vector<Trace> s, t;
  run_code (a, q, no_box (), 0, s, less<double> ());
  vs_assert_word (zi, q.population * n, "a deviate for each coordinate of each candidate");
  zi = 0;
  run_reference (b, q, no_box (), 0, t);
  vs_assert_word (a.g, b.g, "generation number");
  same_numbers (a.x, b.x, "mean of the search distribution");
  same_numbers (a.pc, b.pc, "distribution cumulation path");
  for (int j = 0; j < n; ++j)
    for (int i = 0; i <= j; ++i)
      vs_assert_eq (a.C[i + j * n], b.C[i + j * n], "covariance matrix");
  same_numbers (a.B, b.B, "rotation matrix");
  same_numbers (a.d, b.d, "local step sizes");
  same_numbers (a.ps, b.ps, "step size cumulation path");
  vs_assert_eq (a.s, b.s, "global step size");
  vs_reach ("end");
}

// Feasibility: a box, rejected candidates, several generations.  Dimension,
// parents, population, generations, rejected deviates, adaptation.
//@ c18_feasible prop=C18 params=1,1,2,1,2,0;1,2,3,1,1,0;2,1,2,1,1,0;1,1,2,2,1,3 tparams=1..2,1..2,3..4,1..2,0..2,0;1..2,1,2,1..3,2,3 time=200
HARNESS (c18_feasible)
{
  const int n = vs_param (0);
  State a = arbitrary_state (n, 0);
  Strategy q = arbitrary_strategy (int (vs_param (1)), int (vs_param (2)), 1, natural (vs_param (3)), int (vs_param (5)));
  static const double W[] = { 0.6875, 0.25, 0.0625 };
  for (int k = 0; k < q.parents; ++k)
    q.w[k] = W[k];
  zmax = size_t (vs_param (2) * n * vs_param (3) + vs_param (4));
  Box box;
  box.on = true;
  for (int i = 0; i < n; ++i)
    {
      box.a.push_back (vs_real ("lower"));
      box.b.push_back (vs_real ("upper"));
      a.x[i] = vs_between ("x", box.a[i], box.b[i]);
    }
  bounds = &box;
  State b = a;
  vector<Trace> s;
  run_code (a, q, box, 0, s, less<double> ());
  bounds = 0;
  for (int i = 0; i < n; ++i)
    vs_assert ((a.x[i] >= box.a[i]) & (a.x[i] <= box.b[i]), "returned values are feasible");
  vs_assert_eq (a.y, objective (&a.x[0], n) + box.cost (&a.x[0], n), "fitness belongs to the returned values");
  vs_reach ("end");
}

// Rejected candidates are drawn again.  Dimension, parents, population,
// rejected deviates.
//@ c18_resample prop=C18,C19 params=1,1,2,2;2,1,2,1 tparams=1,1..2,3..4,1..2;2,1,2..3,2 time=200
HARNESS (c18_resample)
{
  const int n = vs_param (0);
  State a = arbitrary_state (n, 0);
  Strategy q = arbitrary_strategy (int (vs_param (1)), int (vs_param (2)), 1, 1, 0);
  zmax = size_t (vs_param (2) * n + vs_param (3));
  Box box;
  box.on = true;
  for (int i = 0; i < n; ++i)
    {
      box.a.push_back (vs_real ("lower"));
      box.b.push_back (vs_real ("upper"));
      a.x[i] = vs_between ("x", box.a[i], box.b[i]);
    }
  State b = a;
  vector<Trace> s, t;
  run_code (a, q, box, 0, s, less<double> ());
  const size_t used = zi;
  zi = 0;
  run_reference (b, q, box, 0, t);
  vs_assert_word (used, zi, "number of deviates drawn");
  same_numbers (a.x, b.x, "mean of the search distribution");
  same_numbers (a.ps, b.ps, "step size cumulation path");
  vs_assert_eq (a.y, b.y, "fitness");
  vs_reach ("end");
}

// A constraint that rejects many draws in a row, from a given one on.
struct Fussy
{
  size_t from, many;
  mutable size_t calls;
  bool
  is_violated (const double[], natural) const
  {
    const size_t k = calls++;
    return k >= from && k < from + many;
  }
  double
  cost (const double x[], natural n) const
  {
    return sign * coarse (vs_obj ("cost", n, x));
  }
};

// However many draws are rejected, the next one is tried, and what follows
// depends on the accepted ones only.  Dimension, parents, population, first
// rejected draw, rejected draws.
//@ c18_fussy prop=C18,C19 params=1,1,2,0..1,150;2,1,2,1..2,1100;2,1,2,3,12000 tparams=2,1..2,3,0..5,300;3,1,2,2,30000;1,1,2,1,120000 time=200
HARNESS (c18_fussy)
{
  const int n = vs_param (0);
  State a = arbitrary_state (n, 0);
  Strategy q = arbitrary_strategy (int (vs_param (1)), int (vs_param (2)), 1, 1, 0);
  const size_t from = size_t (vs_param (3)), many = size_t (vs_param (4)), all = size_t (q.population * n) + many;
  // rejected draws have no influence: these are numbers
  for (size_t k = 0; k < all; ++k)
    zs.push_back (k >= from && k < from + many ? 1.25 + double (k % 7) : vs_real ("z"));
  zmax = all;
  Fussy c;
  c.from = from;
  c.many = many;
  c.calls = 0;
  State b = a;
  vector<Trace> s, t;
  const Tracer tracer = { 0, &s };
  especia::optimize (F (), c, natural (n), natural (q.parents), natural (q.population), &q.w[0], q.damping, q.cs, q.cc,
                     q.ccov, q.acov, q.modulus, q.goal, q.stop, a.g, &a.x[0], a.s, &a.d[0], &a.B[0], &a.C[0], &a.ps[0],
                     &a.pc[0], a.y, a.optimized, a.underflow, Deviate (), Eigen (n), less<double> (), tracer);
  vs_assert_word (zi, all, "a draw for each rejected one");
  zs.erase (zs.begin () + from, zs.begin () + from + many);
  zi = 0;
  run_reference (b, q, no_box (), 0, t);
  same_numbers (a.x, b.x, "mean of the search distribution");
  same_numbers (a.ps, b.ps, "step size cumulation path");
  vs_assert_eq (a.y, b.y, "fitness");
  vs_reach ("end");
}

// Termination and tracing.  Dimension, parents, population, first generation,
// stop generation, trace modulus, adaptation.
//@ c20_end prop=C20 params=1,1,2,0,1,1,3;2,1,2,3,4,2,0;2,1,2,3,4,0,0;1,1,2,4,6,5,0;1,1,2,0,3,2,0;1,1,2,7,7,1,0;1,1,2,8,7,1,0;3,1,2,0,1,0,0 tparams=1..2,1..2,3,0..1,2,0..2,0;1,1,2,0,2,1..2,1..3;3,1,2,0,1,1,0 time=200
HARNESS (c20_end)
{
  const int n = vs_param (0);
  State a = arbitrary_state (n, natural (vs_param (3)));
  const Strategy q = arbitrary_strategy (int (vs_param (1)), int (vs_param (2)), 1, natural (vs_param (4)),
                                         int (vs_param (6)));
  State b = a;
  vector<Trace> s, t;
  run_code (a, q, no_box (), natural (vs_param (5)), s, less<double> ());
  zi = 0;
  run_reference (b, q, no_box (), natural (vs_param (5)), t);
  vs_assert (a.optimized == b.optimized, "optimised");
  vs_assert (!a.underflow, "underflow");
  vs_assert_word (a.g, b.g, "generation number");
  vs_assert_eq (a.y, b.y, "fitness");
  same_numbers (a.x, b.x, "parameter values");
  vs_assert_word (s.size (), t.size (), "number of traces");
  for (size_t k = 0; k < s.size () && k < t.size (); ++k)
    {
      vs_assert_word (s[k].g, t[k].g, "generation traced");
      vs_assert_eq (s[k].y, t[k].y, "fitness traced");
      vs_assert_eq (s[k].lo, t[k].lo, "smallest step traced");
      vs_assert_eq (s[k].hi, t[k].hi, "largest step traced");
    }
  if (b.optimized)
    vs_reach ("optimised");
  else
    vs_reach ("stopped");
}

// Underflow: ties are possible.  Dimension, parents, population.
//@ c20_underflow prop=C20 params=1,1,2;1,1,3;2,1,2;1,2,3 tparams=1..2,1..2,3..4 time=200
HARNESS (c20_underflow)
{
  const int n = vs_param (0);
  ties = true;
  State a = arbitrary_state (n, 4);
  const Strategy q = arbitrary_strategy (int (vs_param (1)), int (vs_param (2)), 1, 5, 0);
  const State b = a;
  vector<Trace> s;
  run_code (a, q, no_box (), 0, s, less<double> ());
  zi = 0;
  vector<vector<double> > x, u, v;
  vector<double> y;
  candidates (b, q, no_box (), x, u, v, y);
  // how many candidates are as good as the best
  int best = 0;
  for (int k = 0; k < q.population; ++k)
    {
      bool least = true;
      for (int l = 0; l < q.population; ++l)
        least = least & (y[k] <= y[l]);
      if (vs_decide (least))
        ++best;
    }
  vs_assert_word (a.g, 5, "generation number");
  if (a.underflow)
    {
      vs_assert (best > q.parents, "underflow only if a discarded candidate is as good as the best");
      vs_assert (!a.optimized, "underflow is not success");
      same_numbers (a.x, b.x, "parameter values are kept on underflow");
      vs_reach ("underflow");
    }
  else
    {
      vs_assert (best < q.population, "underflow if all candidates are equal");
      vs_reach ("no underflow");
    }
  vs_assert_eq (a.y, objective (&a.x[0], n) + no_box ().cost (&a.x[0], n), "fitness belongs to the returned values");
}

// ------------------------------------------------------------ uncertainties
// the uncertainties of a function at a point
static vector<double>
uncertainties (int n, const double x[], const double d[], const double B[], const double C[], double s, bool cost,
               int limit)
{
  const Box box = no_box ();
  const double zx = objective (x, n) + (cost ? box.cost (x, n) : 0.0);
  double sum = 0.0;
  for (int j = 0; j < n; ++j)
    {
      bool small = false, large = false;
      double c = s, g = 0.0;
      int k = 0;
      while (!small || !large)
        {
          vs_assume (k++ < limit);
          vector<double> p (n), q (n);
          for (int i = 0; i < n; ++i)
            {
              p[i] = x[i] + c * B[i + j * n] * d[j];
              q[i] = x[i] - c * B[i + j * n] * d[j];
            }
          const double zp = objective (&p[0], n) + (cost ? box.cost (&p[0], n) : 0.0);
          const double zq = objective (&q[0], n) + (cost ? box.cost (&q[0], n) : 0.0);
          // the parabola through the three points rises by one half at g
          const double r = 0.5 * (zp + zq) - zx;
          g = c / sqrt (2.0 * fabs (r));
          if (vs_decide (fabs (r) < 0.5))
            {
              small = true;
              c *= 1.618;
            }
          else
            {
              large = true;
              c *= 0.618;
            }
        }
      sum += log (g);
    }
  vector<double> z (n);
  for (int i = 0; i < n; ++i)
    z[i] = exp (sum / n) * sqrt (C[i + i * n]);
  return z;
}

// The step sizes found by probing the principal axes.  Dimension, limit of
// the number of probes of an axis.
//@ c24_curvature prop=C24 params=1,8;2,4;3,2 tparams=1,16;2,8;3,4;4,3;5,2;6,2 time=200 sel=fork
HARNESS (c24_curvature)
{
  const int n = vs_param (0), limit = vs_param (1);
  const State t = arbitrary_state (n, 0);
  for (int i = 0; i < n; ++i)
    vs_assume (t.C[i + i * n] > 0.0);
  const Box box = no_box ();
  // the reference first: it bounds the number of probes
  const vector<double> z = uncertainties (n, &t.x[0], &t.d[0], &t.B[0], &t.C[0], t.s, true, limit);
  vector<double> u (n);
  especia::postopti (F (), box, natural (n), &t.x[0], &t.d[0], &t.B[0], &t.C[0], t.s, &u[0]);
  same_numbers (u, z, "uncertainties");
  vs_reach ("end");
}

// The optimiser: uncertainties of the result if it is optimised, zeros
// otherwise.  Dimension, parents, stop generation, limit, minimize/maximize.
static especia::Optimizer
optimizer (int n, int parents, int population, double goal, natural modulus, natural stop)
{
  especia::Optimizer::Builder b;
  b.with_problem_dimension (n).with_parent_number (parents).with_population_size (population).with_accuracy_goal (goal);
  b.with_covariance_update_modulus (modulus).with_stop_generation (stop);
  return b.build ();
}

//@ c24_result prop=C24 params=1,1,1,2,0;1,1,1,2,1;2,1,1,2,0;1,1,2,2,0 tparams=1,1,1,4,0..1;2,1,1,3,0..1;1,1,2,3,0 time=200 sel=fork num=20
HARNESS (c24_result)
{
  const int n = vs_param (0), limit = vs_param (3);
  valarray<double> x (n), d (n);
  for (int i = 0; i < n; ++i)
    {
      x[i] = vs_real ("x");
      d[i] = vs_positive ("d");
    }
  const double s = vs_positive ("s");
  const especia::Optimizer o = optimizer (n, vs_param (1), 2 * vs_param (1), vs_positive ("goal"), 1, vs_param (2));
  const bool up = vs_param (4);
  // evaluations: the generations, the result, the probes
  zmax = 2 * vs_param (1) * vs_param (2) * n;
  budget = 2 * vs_param (1) * vs_param (2) + 3 + 2 * n * limit;
  const especia::Optimizer::Result r = up ? o.maximize (F (), x, d, s) : o.minimize (F (), x, d, s);
  budget = -1;
  valarray<double> z = r.get_parameter_uncertainties ();
  vs_assert_word (z.size (), n, "number of uncertainties");
  if (r.is_optimized ())
    {
      valarray<double> px = r.get_parameter_values (), pd = r.get_local_step_sizes (), pB = r.get_rotation_matrix (),
                       pC = r.get_covariance_matrix ();
      const vector<double> e
          = uncertainties (n, &px[0], &pd[0], &pB[0], &pC[0], r.get_global_step_size (), false, limit);
      for (int i = 0; i < n; ++i)
        vs_assert_eq (z[i], e[i], "uncertainties of an optimised result");
      vs_reach ("optimised");
    }
  else
    {
      for (int i = 0; i < n; ++i)
        vs_assert (z[i] == 0.0, "no uncertainties without success");
      vs_reach ("not optimised");
    }
}

// ------------------------------------------------------------- maximisation
// Maximising is minimising the negative.  Dimension, parents, population,
// generations, update modulus, box.
//@ c21_mirror prop=C21 params=1,1,2,1,1,0;2,1,2,1,1,0;1,1,2,2,1,0;1,1,2,1,1,1;1,2,4,1,2,0 tparams=1..2,1,2,1..2,1..2,0;1,1,2,3,2,0;1,2,3,1..2,1,0;1..2,1,2,1,1,1 time=200 sel=fork num=20
HARNESS (c21_mirror)
{
  const int n = vs_param (0);
  valarray<double> x (n), d (n);
  Box box = no_box ();
  box.on = vs_param (5);
  for (int i = 0; i < n; ++i)
    {
      box.a.push_back (vs_real ("lower"));
      box.b.push_back (vs_real ("upper"));
      x[i] = vs_between ("x", box.a[i], box.b[i]);
      d[i] = vs_positive ("d");
    }
  const double s = vs_positive ("s"), goal = vs_positive ("goal");
  vector<Trace> p, q;
  const Tracer tp = { 1, &p }, tq = { 1, &q };
  vector<vector<double> > vp, vq;
  zmax = vs_param (2) * vs_param (3) * n + (box.on ? 1 : 0);
  const especia::Optimizer a = optimizer (n, vs_param (1), vs_param (2), goal, vs_param (4), vs_param (3));
  const especia::Optimizer b = optimizer (n, vs_param (1), vs_param (2), goal, vs_param (4), vs_param (3));
  visited = &vp;
  budget = (vs_param (2) + 1) * vs_param (3) + 2 + 2 * n * 2;
  sign = -1.0;
  const especia::Optimizer::Result r = a.minimize (F (), x, d, s, box, tp);
  visited = &vq;
  budget = vp.size () + 4;
  zi = 0;
  sign = 1.0;
  const especia::Optimizer::Result t = b.maximize (F (), x, d, s, box, tq);
  visited = 0;
  budget = -1;
  vs_assert (r.is_optimized () == t.is_optimized (), "optimised");
  vs_assert (r.is_underflow () == t.is_underflow (), "underflow");
  vs_assert_word (r.get_generation_number (), t.get_generation_number (), "generation number");
  vs_assert_eq (r.get_fitness (), -t.get_fitness (), "fitness is negated");
  vs_assert_eq (r.get_global_step_size (), t.get_global_step_size (), "global step size");
#define SAME(get, label) \
  { \
    const valarray<double> u = r.get (), v = t.get (); \
    vs_assert_word (u.size (), v.size (), label); \
    for (size_t i = 0; i < u.size () && i < v.size (); ++i) \
      vs_assert_eq (u[i], v[i], label); \
  }
  SAME (get_parameter_values, "parameter values")
  SAME (get_local_step_sizes, "local step sizes")
  SAME (get_rotation_matrix, "rotation matrix")
  SAME (get_covariance_matrix, "covariance matrix")
  SAME (get_parameter_uncertainties, "uncertainties")
  SAME (get_step_size_cumulation_path, "step size cumulation path")
  SAME (get_distribution_cumulation_path, "distribution cumulation path")
  vs_assert_word (vp.size (), vq.size (), "number of points visited");
#ifndef VS_SYMBOLIC
  sort (vp.begin (), vp.end ());
  sort (vq.begin (), vq.end ());
#endif
  for (size_t i = 0; i < vp.size () && i < vq.size (); ++i)
    same_numbers (vp[i], vq[i], "points visited");
  vs_assert_word (p.size (), q.size (), "number of traces");
  for (size_t i = 0; i < p.size () && i < q.size (); ++i)
    {
      vs_assert_word (p[i].g, q[i].g, "generation traced");
      vs_assert_eq (p[i].y, -q[i].y, "fitness traced");
    }
  vs_reach ("end");
}

// ------------------------------------------------------------ configuration
struct Settings
{
  natural n, parents, population, modulus, stop;
  double goal;
  especia::word64 seed;
};

// The strategy parameters of Hansen (2014) for a number of parents.
static Strategy
strategy (const Settings &t)
{
  Strategy q;
  const double n = t.n, mu = t.parents;
  q.parents = t.parents;
  q.population = t.population;
  double sum = 0.0, sum2 = 0.0;
  for (natural i = 1; i <= t.parents; ++i)
    {
      const double w = log ((mu + 0.5) / i);
      q.w.push_back (w);
      sum += w;
      sum2 += w * w;
    }
  const double m = sum * sum / sum2; // effective number of parents
  q.cs = (m + 2.0) / (n + m + 5.0);
  q.cc = (4.0 + m / n) / (n + 4.0 + 2.0 * m / n);
  q.acov = 2.0 / ((n + 1.3) * (n + 1.3) + m);
  const double r = 2.0 * (m - 2.0 + 1.0 / m) / ((n + 2.0) * (n + 2.0) + m);
  q.ccov = r < 1.0 - q.acov ? r : 1.0 - q.acov;
  const double h = sqrt ((m - 1.0) / (n + 1.0)) - 1.0;
  q.damping = 1.0 + 2.0 * (h > 0.0 ? h : 0.0) + q.cs;
  q.goal = t.goal;
  q.modulus = t.modulus;
  q.stop = t.stop;
  return q;
}

static void
check_settings (const especia::Optimizer::Builder &b, const Settings &t, bool seed)
{
  vs_assert_word (b.get_problem_dimension (), t.n, "problem dimension");
  vs_assert_word (b.get_parent_number (), t.parents, "parent number");
  vs_assert_word (b.get_population_size (), t.population, "population size");
  vs_assert_word (b.get_covariance_update_modulus (), t.modulus, "update modulus");
  vs_assert_word (b.get_stop_generation (), t.stop, "stop generation");
  vs_assert_eq (b.get_accuracy_goal (), t.goal, "accuracy goal");
  if (seed)
    vs_assert_word (b.get_random_seed (), t.seed, "random seed");
  const Strategy q = strategy (t);
  const valarray<double> w = b.get_weights ();
  vs_assert_word (w.size (), t.parents, "number of weights");
  for (natural i = 0; i < t.parents && i < w.size (); ++i)
    vs_assert_eq (w[i] * q.w[0], q.w[i] * w[0], "weights"); // any common factor is immaterial
  const double cs = b.get_step_size_cumulation_rate (), cc = b.get_distribution_cumulation_rate (),
               c1 = b.get_rank_1_covariance_matrix_adaption_rate (),
               cm = b.get_rank_m_covariance_matrix_adaption_rate (), ds = b.get_step_size_damping ();
  vs_assert_eq (cs, q.cs, "step size cumulation rate");
  vs_assert_eq (cc, q.cc, "distribution cumulation rate");
  vs_assert_eq (c1, q.acov, "rank-1 rate");
  vs_assert_eq (cm, q.ccov, "rank-mu rate");
  vs_assert_eq (ds, q.damping, "step size damping");
}

static void
configure (especia::Optimizer::Builder &b, Settings &t, int what, int parents)
{
  switch (what)
    {
    case 1:
      t.n = natural (vs_word ("n", 20));
      vs_assume (t.n > 0);
      b.with_problem_dimension (t.n);
      break;
    case 2:
      t.parents = natural (parents);
      t.population = natural (2 * parents);
      b.with_parent_number (t.parents);
      break;
    case 3:
      t.population = natural (vs_word ("population", 32));
      b.with_population_size (t.population);
      break;
    case 4:
      t.modulus = natural (vs_word ("modulus", 32));
      b.with_covariance_update_modulus (t.modulus);
      break;
    case 5:
      t.goal = vs_real ("goal");
      b.with_accuracy_goal (t.goal);
      break;
    case 6:
      t.seed = vs_word ("seed", 64);
      b.with_random_seed (t.seed);
      break;
    case 7:
      t.stop = natural (vs_word ("stop", 32));
      b.with_stop_generation (t.stop);
      break;
    default:
      t.n = 10;
      t.parents = 20;
      t.population = 40;
      t.modulus = 1;
      t.goal = 1.0E-06;
      t.stop = 1000;
      t.seed = 9600629759793949339ULL;
      b.with_defaults ();
    }
}

// Settings in an arbitrary order.  Number of settings, parents of the first
// and of the second setting.
//@ c23_settings prop=C23 params=1,1,1;1,2,2;2,20,20;2,3,1;1,40,40 tparams=2,1..8,1..3;3,20,20;3,5,2;1,60,60 time=200 num=20
HARNESS (c23_settings)
{
  especia::Optimizer::Builder b;
  Settings t = { 10, 20, 40, 1, 1000, 1.0E-06, 0 };
  int seeded = 0, parents = 0;
  for (int k = 0; k < vs_param (0); ++k)
    {
      const int what = vs_choose ("what", 1, 8);
      configure (b, t, what, vs_param (1 + (parents & 1)));
      if (what == 2)
        ++parents;
      if (what == 6 || what == 8)
        seeded = 1;
    }
  check_settings (b, t, seeded);
  vs_reach ("end");
}

// Every dimension below 2^20.  Number of parents.
//@ c23_rates prop=C23 params=1;2;5;20 tparams=3..4;6..19;21..40 time=200 num=20
HARNESS (c23_rates)
{
  especia::Optimizer::Builder b;
  const natural n = natural (vs_word ("n", 20));
  vs_assume (n > 0);
  b.with_parent_number (vs_param (0)).with_problem_dimension (n);
  const valarray<double> w = b.get_weights ();
  const double cs = b.get_step_size_cumulation_rate (), cc = b.get_distribution_cumulation_rate (),
               c1 = b.get_rank_1_covariance_matrix_adaption_rate (),
               cm = b.get_rank_m_covariance_matrix_adaption_rate (), ds = b.get_step_size_damping ();
  vs_assert_word (w.size (), vs_param (0), "number of weights");
  for (size_t i = 0; i < w.size (); ++i)
    {
      vs_assert (w[i] > 0.0, "weights are positive");
      if (i > 0)
        vs_assert (w[i] < w[i - 1], "weights decrease");
    }
  vs_assert ((cs > 0.0) & (cs < 1.0), "step size cumulation rate is between zero and one");
  vs_assert ((cc > 0.0) & (cc < 1.0), "distribution cumulation rate is between zero and one");
  vs_assert ((c1 > 0.0) & (c1 < 1.0), "rank-1 rate is between zero and one");
  vs_assert ((cm >= 0.0) & (cm < 1.0), "rank-mu rate is between zero and one");
  vs_assert (c1 + cm <= 1.0 + 1e-12, "rates add to one at most");
  vs_assert (ds > 1.0, "damping is above one");
  vs_reach ("end");
}

// The optimiser uses the settings it was built with.  Dimension, parents,
// population, update modulus, generations.
//@ c23_used prop=C23 params=1,1,2,1,1;1,2,4,2,1;2,1,2,1,1;1,2,4,1,1 tparams=1..2,1..2,4,1..2,1;1,1,2,1,2;1,1,2,2,2 time=200 num=20
HARNESS (c23_used)
{
  const int n = vs_param (0);
  Settings t = { natural (n), natural (vs_param (1)), natural (vs_param (2)), natural (vs_param (3)),
                 natural (vs_param (4)), vs_positive ("goal"), vs_word ("seed", 64) };
  especia::Optimizer::Builder b;
  b.with_stop_generation (t.stop).with_random_seed (t.seed).with_accuracy_goal (t.goal);
  b.with_covariance_update_modulus (t.modulus).with_parent_number (t.parents).with_problem_dimension (t.n);
  b.with_population_size (t.population);
  const especia::Optimizer o = b.build ();
  vs_assert_word (seeded, t.seed, "seed of the generator");
  // later changes do not matter
  b.with_defaults ();
  State e;
  e.n = n;
  e.g = 0;
  e.s = vs_positive ("s");
  e.optimized = e.underflow = false;
  e.B.assign (n * n, 0.0);
  e.C.assign (n * n, 0.0);
  valarray<double> x (n), d (n);
  for (int i = 0; i < n; ++i)
    {
      e.x.push_back (x[i] = vs_real ("x"));
      e.d.push_back (d[i] = vs_positive ("d"));
      e.ps.push_back (0.0);
      e.pc.push_back (0.0);
      e.B[i * n + i] = 1.0;
      e.C[i * n + i] = e.d[i] * e.d[i];
    }
  library = true;
  zmax = vs_param (2) * n * vs_param (4);
  budget = (vs_param (2) + 1) * vs_param (4) + 2 + 4 * n;
  const especia::Optimizer::Result r = o.minimize (F (), x, d, e.s, no_box (), especia::No_Tracing<double> ());
  budget = -1;
  zi = 0;
  vector<Trace> none;
  run_reference (e, strategy (t), no_box (), 0, none);
  vs_assert (r.is_optimized () == e.optimized, "optimised");
  vs_assert_word (r.get_generation_number (), e.g, "generation number");
  vs_assert_eq (r.get_fitness (), e.y, "fitness");
  vs_assert_eq (r.get_global_step_size (), e.s, "global step size");
  const valarray<double> rx = r.get_parameter_values (), rd = r.get_local_step_sizes (),
                         rB = r.get_rotation_matrix (), rC = r.get_covariance_matrix (),
                         rs = r.get_step_size_cumulation_path (), rp = r.get_distribution_cumulation_path ();
  for (int i = 0; i < n; ++i)
    {
      vs_assert_eq (rx[i], e.x[i], "parameter values");
      vs_assert_eq (rd[i], e.d[i], "local step sizes");
      vs_assert_eq (rs[i], e.ps[i], "step size cumulation path");
      vs_assert_eq (rp[i], e.pc[i], "distribution cumulation path");
      for (int j = 0; j <= i; ++j)
        vs_assert_eq (rC[j + i * n], e.C[j + i * n], "covariance matrix");
      for (int j = 0; j < n; ++j)
        vs_assert_eq (rB[j + i * n], e.B[j + i * n], "rotation matrix");
    }
  vs_reach ("end");
}
