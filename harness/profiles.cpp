//# C08 C09 C10 C32
// Optical depth profiles, approximations to the Voigt function, equivalent
// widths.
#include "vs_std.h"
#include "core/base.h"
#include "core/integrator.h"
#include "core/profiles.h"
#include "core/profiles.cxx"
#include "vs.h"
using namespace especia;

static const double PI = 3.14159265358979323846, LN2 = 0.69314718055994530942, C = 299792458.0;

static double
gauss (double x, double b)
{
  return std::exp (-(x / b) * (x / b)) / (std::sqrt (PI) * b);
}

static double
lorentz (double x, double d)
{
  return d / (PI * (d * d + x * x));
}

// amplitude of the optical depth, wavelengths in Angstrom
static double
amplitude (double f, double logn, double rest, double center)
{
  const double e = 1.6021766208E-19, eps = 8.854187817E-12, m = 9.10938356E-31;
  return (1.0E-06 * e * e / (4.0 * eps * m * C * C)) * f * std::pow (10.0, logn) * rest * center;
}

static void
parameters (double q[], int n)
{
  static const char *names[] = { "rest", "f", "z", "v", "b", "N", "g", "a" };
  for (int i = 0; i < n; ++i)
    q[i] = vs_real (names[i]);
  vs_assume (q[0] > 0.0 && q[1] > 0.0 && q[2] > -1.0 && q[3] > -1.0e+05 && q[4] > 0.0);
}

//@ c08_doppler prop=C08
HARNESS (c08_doppler)
{
  double q[6];
  parameters (q, 6);
  const double x = vs_real ("x");
  const Intergalactic_Doppler f (q);
  const double z = (1.0 + q[2]) * (1.0 + q[3] / (C / 1000.0));
  vs_assert_eq (f.redshift_factor (), z, "redshift factor");
  vs_assert_eq (f.center (), q[0] * z, "center");
  const double c = q[0] * z, b = q[4] * c / (C / 1000.0);
  const double y = f (x);
  if (vs_decide (std::abs (x - c) < 4.0 * b))
    vs_assert_eq (y, amplitude (q[1], q[5], q[0], c) * gauss (x - c, b), "optical depth");
  else
    vs_assert_eq (y, 0.0, "truncated beyond four widths");
  vs_assert_word (Intergalactic_Doppler::parameter_count (), 6, "number of parameters");
  vs_reach ("end");
}

//@ c08_multiplet prop=C08
HARNESS (c08_multiplet)
{
  double q[8];
  parameters (q, 8);
  const double x = vs_real ("x");
  const Many_Multiplet f (q);
  const double z = (1.0 + q[2]) * (1.0 + q[3] / (C / 1000.0));
  const double t = 1.0E-06 * q[7];
  const double u = 1.0E+08 / (1.0E+08 / q[0] + q[6] * ((1.0 + t) * (1.0 + t) - 1.0));
  vs_assert_eq (f.redshift_factor (), z, "redshift factor");
  vs_assert_eq (f.center (), u * z, "center");
  const double c = u * z, b = q[4] * c / (C / 1000.0);
  vs_assume (b > 0.0);
  const double y = f (x);
  if (vs_decide (std::abs (x - c) < 4.0 * b))
    vs_assert_eq (y, amplitude (q[1], q[5], u, c) * gauss (x - c, b), "optical depth");
  else
    vs_assert_eq (y, 0.0, "truncated beyond four widths");
  vs_assert_word (Many_Multiplet::parameter_count (), 8, "number of parameters");
  vs_reach ("end");
}

// without a variation of the fine-structure constant both profiles agree
//@ c08_agree prop=C08
HARNESS (c08_agree)
{
  double q[8];
  parameters (q, 8);
  q[7] = 0.0;
  const double x = vs_real ("x");
  vs_assert_eq (Many_Multiplet (q) (x), Intergalactic_Doppler (q) (x), "no variation");
  vs_reach ("end");
}

struct Shape
{
  double b, d;
  explicit Shape (const real &b = 0.5, const real &d = 0.5) : b (b), d (d) {}
  real
  operator() (const real &x) const
  {
    const double a[3] = { x, b, d };
    return vs_uf ("V", 3, a);
  }
};

// the Voigt profile for any approximation to the Voigt function
//@ c08_voigt prop=C08
HARNESS (c08_voigt)
{
  double q[7];
  parameters (q, 7);
  const double x = vs_real ("x");
  const Intergalactic_Voigt<Shape> f (q);
  const double z = (1.0 + q[2]) * (1.0 + q[3] / (C / 1000.0));
  vs_assert_eq (f.redshift_factor (), z, "redshift factor");
  vs_assert_eq (f.center (), q[0] * z, "center");
  const double c = q[0] * z, b = q[4] * c / (C / 1000.0), d = 1.0E-10 * q[6] * q[0] * c / (4.0 * PI * C);
  const double a[3] = { x - c, b, d };
  vs_assert_eq (f (x), amplitude (q[1], q[5], q[0], c) * vs_uf ("V", 3, a), "optical depth");
  vs_assert_word (Intergalactic_Voigt<Shape>::parameter_count (), 7, "number of parameters");
  vs_reach ("end");
}

// default profiles vanish at a distance and are centred at zero
//@ c08_default prop=C08
HARNESS (c08_default)
{
  const Intergalactic_Doppler f;
  const Many_Multiplet g;
  vs_assert_eq (f.center (), 0.0, "center");
  vs_assert_eq (g.center (), 0.0, "center");
  vs_assert_eq (f.redshift_factor (), 1.0, "redshift factor");
  vs_assert_eq (g.redshift_factor (), 1.0, "redshift factor");
  const double x = vs_real ("x");
  vs_assert_eq (f (x), g (x), "same shape");
  vs_reach ("end");
}

// ---------------------------------------------------------------- Voigt
static double
horner (const double *c, int n, double x)
{
  double s = 0.0;
  for (int i = n - 1; i >= 0; --i)
    s = s * x + c[i];
  return s;
}

//@ c09_pseudo prop=C09 time=100 budget=8
HARNESS (c09_pseudo)
{
  const double b = vs_real ("b"), d = vs_real ("d"), x = vs_real ("x");
  vs_assume (b > 0.0 && d > 0.0);
  const double y = Pseudo_Voigt (b, d) (x);
  // half widths of the Gaussian and the Lorentzian
  const double g = b * std::sqrt (LN2), r = g / d;
  const double w
      = std::pow (1.0 + 0.07842 * r + 4.47163 * r * r + 2.42843 * r * r * r + 2.69296 * r * r * r * r + r * r * r * r * r,
                  0.2); // total over Lorentzian half width
  const double h = 1.0 / w, W = d * w;
  const double eta = 1.36603 * h - 0.47719 * h * h + 0.11116 * h * h * h;
  vs_assert_eq (y, (1.0 - eta) * gauss (x, W / std::sqrt (LN2)) + eta * lorentz (x, W), "pseudo-Voigt function");
  vs_assert_eq (Pseudo_Voigt (b, d) (-x), y, "symmetric");
  vs_reach ("end");
}

//@ c09_extended prop=C09 time=100 budget=8
HARNESS (c09_extended)
{
  static const double WG[] = { 0.66000, 0.15021, -1.24984, 4.74052, -9.48291, 8.48252, -2.95553 };
  static const double WL[] = { -0.42179, -1.25693, 10.30003, -23.45651, 29.14158, -16.50453, 3.19974 };
  static const double WI[] = { 1.19913, 1.43021, -15.36331, 47.06071, -73.61822, 57.92559, -17.80614 };
  static const double WP[] = { 1.10186, -0.47745, -0.68688, 2.76622, -4.55466, 4.05475, -1.26571 };
  static const double EL[] = { -0.30165, -1.38927, 9.31550, -24.10743, 34.96491, -21.18862, 3.70290 };
  static const double EI[] = { 0.25437, -0.14107, 3.23653, -11.09215, 22.10544, -24.12407, 9.76947 };
  static const double EP[] = { 1.01579, 1.50429, -9.21815, 23.59717, -39.71134, 32.83023, -10.02142 };
  const double b = vs_real ("b"), d = vs_real ("d"), x = vs_real ("x");
  vs_assume (b > 0.0 && d > 0.0);
  const double y = Extended_Pseudo_Voigt (b, d) (x);
  const double g = b * std::sqrt (LN2) + d, r = d / g;
  const double wg = g * (1.0 - r * horner (WG, 7, r)) / std::sqrt (LN2);
  const double wl = g * (1.0 - (1.0 - r) * horner (WL, 7, r));
  const double wi = g * horner (WI, 7, r) / std::sqrt (std::pow (2.0, 2.0 / 3.0) - 1.0);
  const double wp = g * horner (WP, 7, r) / std::log (std::sqrt (2.0) + 1.0);
  const double el = r * (1.0 + (1.0 - r) * horner (EL, 7, r));
  const double ei = r * (1.0 - r) * horner (EI, 7, r);
  const double ep = r * (1.0 - r) * horner (EP, 7, r);
  const double ch = std::cosh (x / wp);
  const double fl = 1.0 / (PI * wl * (1.0 + (x / wl) * (x / wl)));
  const double fi = 1.0 / (2.0 * wi * std::pow (1.0 + (x / wi) * (x / wi), 1.5));
  const double fp = 1.0 / (2.0 * wp * ch * ch);
  vs_assert_eq (y, (1.0 - el - ei - ep) * gauss (x, wg) + el * fl + ei * fi + ep * fp,
                "extended pseudo-Voigt function");
  vs_assert_eq (Extended_Pseudo_Voigt (b, d) (-x), y, "symmetric");
  vs_reach ("end");
}

// ---------------------------------------------------------------- sums
struct Line
{
  double a, b, c;
  explicit Line (const real q[]) : a (q[0]), b (q[1]), c (q[2]) {}
  real
  operator() (const real &x) const
  {
    const double v[4] = { a, b, c, x };
    return vs_uf ("L", 4, v);
  }
  static natural
  parameter_count ()
  {
    return 3;
  }
};

//@ c10_sum prop=C10 params=0..6 tparams=0..16
HARNESS (c10_sum)
{
  const int n = vs_param (0);
  std::vector<double> q (3 * n + 1), p;
  for (int i = 0; i < 3 * n; ++i)
    q[i] = vs_real ("q");
  const double x = vs_real ("x");
  const Superposition<Line> s (n, q.data ());
  double e = 0.0;
  for (int i = 0; i < n; ++i)
    {
      const double v[4] = { q[3 * i], q[3 * i + 1], q[3 * i + 2], x };
      e += vs_uf ("L", 4, v);
    }
  vs_assert_eq (s (x), e, "sum of the profiles");
  for (int i = n - 1; i >= 0; --i)
    p.insert (p.end (), q.begin () + 3 * i, q.begin () + 3 * i + 3);
  p.push_back (0.0);
  vs_assert_eq (Superposition<Line> (n, p.data ()) (x), s (x), "order of the profiles");
  vs_reach ("end");
}

template <class P>
static void
sum (int n)
{
  const int k = P::parameter_count ();
  std::vector<double> q (k * n);
  for (int i = 0; i < n; ++i)
    parameters (&q[k * i], k);
  const double x = vs_real ("x");
  double e = 0.0;
  for (int i = 0; i < n; ++i)
    e += P (&q[k * i]) (x);
  vs_assert_eq (Superposition<P> (n, q.data ()) (x), e, "sum of the profiles");
}

//@ c10_types prop=C10 params=0..3,1..2 tparams=0..3,1..3
HARNESS (c10_types)
{
  const int n = vs_param (1);
  switch (vs_param (0))
    {
    case 0:
      sum<Intergalactic_Doppler> (n);
      break;
    case 1:
      sum<Many_Multiplet> (n);
      break;
    case 2:
      sum<Intergalactic_Voigt<Pseudo_Voigt> > (n);
      break;
    default:
      sum<Intergalactic_Voigt<Extended_Pseudo_Voigt> > (n);
    }
  vs_reach ("end");
}

// ------------------------------------------------------- equivalent widths
struct Sample
{
  double a;
  template <class F>
  real
  integrate_positive_infinite (const F &f) const
  {
    return f (a) * vs_uf1 ("weight", a);
  }
  template <class F>
  real
  integrate_infinite (const F &f) const
  {
    return f (a) * vs_uf1 ("weight", a);
  }
};

struct Depth
{
  double c, z;
  real
  operator() (const real &x) const
  {
    return vs_uf1 ("tau", x);
  }
  real
  center () const
  {
    return c;
  }
  real
  redshift_factor () const
  {
    return z;
  }
};

// the integrand and the factors
//@ c32_width prop=C32
HARNESS (c32_width)
{
  const Sample s = { vs_real ("a") };
  const Depth f = { vs_real ("c"), vs_real ("z") };
  const double p = vs_real ("prefix");
  const Equivalent_Width_Calculator<Sample> w (s);
  const double i = (1.0 - std::exp (-vs_uf1 ("tau", s.a + f.c))) * vs_uf1 ("weight", s.a);
  vs_assert_eq (w.calculate (f, p), 2.0 * i / p / f.z, "twice the integral over half of the profile at rest");
  vs_assert_eq (w.calculate (f), 2.0 * i / f.z, "no prefix");
  const Convolutor<Sample> c (s);
  const double x = vs_real ("x");
  struct T
  {
    static real
    tau (real x)
    {
      return vs_uf1 ("tau", x);
    }
    static real
    g (real x)
    {
      return vs_uf1 ("g", x);
    }
  };
  vs_assert_eq (c.convolute (T::tau, T::g, x),
                std::exp (-vs_uf1 ("tau", x - s.a)) * vs_uf1 ("g", s.a) * vs_uf1 ("weight", s.a), "convolution");
  vs_reach ("end");
}
