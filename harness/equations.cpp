//# C06
// Dispersion formulas for standard air and Newton's method.
#include "vs_std.h"
#include "core/base.h"
#include "core/equations.h"
#include "core/equations.cxx"
#include "vs.h"
using namespace especia;

static const int BIRCH94 = 0, EDLEN53 = 1, EDLEN66 = 2;

// 10^8 (n - 1) as published, sigma in um-1
static const double PUB[3][5] = { { 8342.54, 2406147.0, 130.0, 15998.0, 38.9 },
                                  { 6432.8, 2949810.0, 146.0, 25540.0, 41.0 },
                                  { 8342.13, 2406030.0, 130.0, 15997.0, 38.9 } };

static double
published (int k, double x)
{
  const double s = 1000.0 * x;
  const double *c = PUB[k];
  return x * (1.0 + (c[0] + c[1] / (c[2] - s * s) + c[3] / (c[4] - s * s)) / 1.0e+08);
}

static double
slope (int k, double x)
{
  const double s = 1000.0 * x;
  const double *c = PUB[k];
  const double u = c[2] - s * s, v = c[4] - s * s;
  return 1.0 + (c[0] + c[1] / u + c[3] / v) / 1.0e+08
         + (s * (2.0 * s * c[1] / (u * u) + 2.0 * s * c[3] / (v * v))) / 1.0e+08;
}

static double
value (int k, double x)
{
  return k == BIRCH94 ? Equations::birch94 (x) : k == EDLEN53 ? Equations::edlen53 (x) : Equations::edlen66 (x);
}

static void
value (int k, double x, double &y, double &z)
{
  if (k == BIRCH94)
    Equations::birch94 (x, y, z);
  else if (k == EDLEN53)
    Equations::edlen53 (x, y, z);
  else
    Equations::edlen66 (x, y, z);
}

// wavelengths of 2000 Angstrom or more
static double
wavenumber (const char *name)
{
  const double x = vs_real (name);
  vs_assume (x >= 1.0e-06 && x <= 5.0e-03);
  return x;
}

//@ c06_value params=0..2
HARNESS (c06_value)
{
  const int k = vs_param (0);
  const double x = wavenumber ("x");
  double y, z;
  value (k, x, y, z);
  const double p = published (k, x);
  vs_assert (y - p < 1.0e-12 * x && p - y < 1.0e-12 * x, "published dispersion formula");
  const double v = value (k, x);
  vs_assert (v - p < 1.0e-12 * x && p - v < 1.0e-12 * x, "published dispersion formula (one argument)");
  vs_assert (y > x, "index of refraction greater than unity");
  vs_assert (y < 1.001 * x, "index of refraction close to unity");
  vs_reach ("end");
}

//@ c06_slope params=0..2
HARNESS (c06_slope)
{
  const int k = vs_param (0);
  const double x = wavenumber ("x");
  double y, z;
  value (k, x, y, z);
  const double p = slope (k, x);
  vs_assert (z - p < 1.0e-10 && p - z < 1.0e-10, "derivative of the dispersion formula");
  vs_assert (z > 1.0, "increasing");
  vs_reach ("end");
}

//@ c06_increasing params=0..2
HARNESS (c06_increasing)
{
  const int k = vs_param (0);
  const double u = wavenumber ("u"), v = wavenumber ("v");
  vs_assume (u < v);
  vs_assert (value (k, u) < value (k, v), "wavenumber in air increases with wavenumber in vacuum");
  vs_reach ("end");
}

static void
fun (const double &x, double &y, double &z)
{
  y = vs_uf1 ("f", x);
  z = vs_uf1 ("g", x);
}

static int calls;

static void
half (const double &x, double &y, double &z)
{
  ++calls;
  y = x * x;
  z = 2.0 * x;
}

//@ c06_newton params=1..5 tparams=1..8 nf=200000
HARNESS (c06_newton)
{
  const int n = vs_param (0);
  const double c = vs_real ("c"), x0 = vs_real ("x"), goal = vs_real ("goal");
  vs_assume (goal > 0.0 && goal < 1.0);
  bool thrown = false;
  double r = 0.0;
  try
    {
      r = solve (fun, c, x0, goal, n);
    }
  catch (std::runtime_error &)
    {
      thrown = true;
    }
  double x = x0;
  bool found = false;
  for (int i = 0; i < n; ++i)
    {
      const double d = (vs_uf1 ("f", x) - c) / vs_uf1 ("g", x);
      x = x - d;
      if (vs_decide (std::abs (d) < goal * x))
        {
          found = true;
          break;
        }
    }
  vs_assert (found == !thrown, "an error is thrown when the accuracy goal is not reached");
  if (found && !thrown)
    vs_assert_eq (r, x, "the first iterate that attains the accuracy goal");
  vs_reach ("end");
}

// an iteration that never attains the goal is given up after 100 steps
//@ c06_limit
HARNESS (c06_limit)
{
  bool thrown = false;
  calls = 0;
  try
    {
      solve (half, 0.0, 1.0, 0.5);
    }
  catch (std::runtime_error &)
    {
      thrown = true;
    }
  vs_assert (thrown, "error");
  vs_assert_word (calls, 100, "default number of iterations");
  vs_reach ("end");
}
