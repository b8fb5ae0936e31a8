//# C04 C05
// Adaptive quadrature against a reference that evaluates every rule afresh.
#include <cmath>
#include <vector>
#include "core/integrator.h"
#include "vs.h"
using namespace especia;

// published abscissas and weights (Favati, Lotti and Romani 1991, TOMS 691)
static const double XI[] = { 0.0000000, 0.2500000, 0.5000000, 0.7500000, 0.8750000, 0.9375000, 1.0000000, 0.3750000, 0.6250000, 0.9687500, 0.1250000, 0.6875000, 0.8125000, 0.9843750, 0.1875000, 0.3125000, 0.4375000, 0.5625000, 0.8437500, 0.9062500, 0.9921875 };
static const double WI[] = { 1.303262173284849021810473057638590518409112513421E-01, 2.390632866847646220320329836544615917290026806242E-01, 2.630626354774670227333506083741355715758124943143E-01, 2.186819313830574175167853094864355208948886875898E-01, 2.757897646642836865859601197607471574336674206700E-02, 1.055750100538458443365034879086669791305550493830E-01, 1.571194260595182254168429283636656908546309467968E-02, 1.298751627936015783241173611320651866834051160074E-01, 2.249996826462523640447834514709508786970828213187E-01, 1.680415725925575286319046726692683040162290325505E-01, 1.415567675701225879892811622832845252125600939627E-01, 1.006482260551160175038684459742336605269707889822E-01, 2.510604860724282479058338820428989444699235030871E-02, 9.402964360009747110031098328922608224934320397592E-03, 5.542699233295875168406783695143646338274805359780E-02, 9.986735247403367525720377847755415293097913496236E-02, 4.507523056810492466415880450799432587809828791196E-02, 6.300942249647773931746170540321811473310938661469E-02, 1.261383225537664703012999637242003647020326905948E-01, 1.273864433581028272878709981850307363453523117880E-01, 8.576500414311820514214087864326799153427368592787E-02, 7.102884842310253397447305465997026228407227220665E-02, 5.026383572857942403759829860675892897279675661654E-02, 4.683670010609093810432609684738393586390722052124E-03, 1.235837891364555000245004813294817451524633100256E-01, 1.148933497158144016800199601785309838604146040215E-01, 1.252575774226122633391477702593585307254527198070E-02, 1.239572396231834242194189674243818619042280816640E-01, 2.501306413750310579525950767549691151739047969345E-02, 4.915957918146130094258849161350510503556792927578E-02, 2.259167374956474713302030584548274729936249753832E-02, 6.362762978782724559269342300509058175967124446839E-02, 9.950065827346794643193261975720606296171462239514E-02, 7.048220002718565366098742295389607994441704889441E-02, 6.512297339398335645872697307762912795346716454337E-02, 3.998229150313659724790527138690215186863915308702E-02, 3.456512257080287509832054272964315588028252136044E-02, 2.212167975884114432760321569298651047876071264944E-03, 8.140326425945938045967829319725797511040878579808E-02, 6.583213447600552906273539578430361199084485578379E-02, 2.592913726450792546064232192976262988065252032902E-02, 1.187141856692283347609436153545356484256869129472E-01, 5.999947605385971985589674757013565610751028128731E-02, 5.500937980198041736910257988346101839062581489820E-02, 5.264422421764655969760271538981443718440340270116E-03, 1.533126874056586959338368742803997744815413565014E-02, 3.527159369750123100455704702965541866345781113903E-02, 5.000556431653955124212795201196389006184693561679E-02, 5.744164831179720106340717579281831675999717767532E-02, 1.598823797283813438301248206397233634639162043386E-02, 2.635660410220884993472478832884065450876913559421E-02, 1.196003937945541091670106760660561117114584656319E-02 };
static const int MW[] = { 0, 7, 17, 31 };
static const int NW[] = { 7, 10, 14, 21 };
static const int DEG[] = { 13, 19, 27, 41 };

template <class F>
static double
rule (const F &f, double a, double b, int q)
{
  const double c = 0.5 * (a + b), h = 0.5 * (b - a);
  double s = 0.0;
  for (int i = 0; i < NW[q]; ++i)
    s += (f (c - h * XI[i]) + f (c + h * XI[i])) * WI[MW[q] + i];
  return s * h;
}

struct Piece
{
  double a, b, res, err;
};

// bisects the interval of largest error until the sum of the errors is below
// the goal or the number of bisections is exhausted
template <class F>
static double
adaptive (const F &f, double a, double b, int p, int q, double goal, int n)
{
  std::vector<Piece> w;
  Piece x = { a, b, 0.0, 0.0 };
  x.res = rule (f, a, b, q);
  x.err = std::abs (x.res - rule (f, a, b, p));
  w.push_back (x);
  for (int k = 0; k < n; ++k)
    {
      double e = 0.0;
      for (size_t i = 0; i < w.size (); ++i)
        e += w[i].err;
      if (vs_decide (e < goal))
        break;
      size_t m = 0;
      for (size_t i = 1; i < w.size (); ++i)
        {
          if (vs_decide (w[i].err == w[m].err))
            vs_stop (); // either choice is allowed
          if (vs_decide (w[i].err > w[m].err))
            m = i;
        }
      const Piece y = w[m];
      const double c = 0.5 * (y.a + y.b);
      Piece l = { y.a, c, 0.0, 0.0 }, u = { c, y.b, 0.0, 0.0 };
      l.res = rule (f, l.a, l.b, q);
      l.err = std::abs (l.res - rule (f, l.a, l.b, p));
      u.res = rule (f, u.a, u.b, q);
      u.err = std::abs (u.res - rule (f, u.a, u.b, p));
      w[m] = l;
      w.push_back (u);
    }
  double r = 0.0;
  for (size_t i = 0; i < w.size (); ++i)
    r += w[i].res;
  return r;
}

static double
fun (const double &x)
{
  return vs_uf1 ("f", x);
}

typedef Integrator<double> I;

//@ c04_adaptive prop=C04 params=0,1,0..2;0,2,0..2;0,3,0..2;1,2,0..2;1,3,0..2;2,3,0..2;0,1,3;1,2,3 tparams=0,1,0..4;0,2,0..4;0,3,0..4;1,2,0..4;1,3,0..4;2,3,0..4 time=120
HARNESS (c04_adaptive)
{
  const int p = vs_param (0), q = vs_param (1), n = vs_param (2);
  const double a = vs_real ("a"), b = vs_real ("b"), goal = vs_real ("goal");
  const double r = I (I::Formula (p), I::Formula (q)).integrate (fun, a, b, goal, n);
  const double e = adaptive (fun, a, b, p, q, goal, n);
  vs_assert_eq (r, e, "sum over the bisected partition");
  vs_reach ("end");
}

// exact for polynomials up to the degree of the formula
//@ c04_exact prop=C04 params=0..3,0..2
HARNESS (c04_exact)
{
  const int q = vs_param (0), n = DEG[q];
  const double ab[3][2] = { { -1.0, 1.0 }, { 0.0, 0.5 }, { 1.0, -0.25 } };
  const double a = ab[vs_param (1)][0], b = ab[vs_param (1)][1];
  std::vector<double> c (n + 1);
  double exact = 0.0, pa = a, pb = b;
  for (int i = 0; i <= n; ++i)
    {
      c[i] = vs_real ("c");
      vs_assume (c[i] >= -1.0 && c[i] <= 1.0);
      exact += c[i] * (pb - pa) / (i + 1);
      pa *= a;
      pb *= b;
    }
  const I integrator (I::Q13, I::Formula (q));
  const double r = integrator.integrate (
      [&c, n] (double x) -> double {
        double s = 0.0;
        for (int i = n; i >= 0; --i)
          s = s * x + c[i];
        return s;
      },
      a, b, 1.0, 0);
  vs_assert (r - exact < 1.0e-12 && exact - r < 1.0e-12, "polynomials are integrated exactly");
  vs_reach ("end");
}

// the default formulas
//@ c04_defaults prop=C04
HARNESS (c04_defaults)
{
  const double a = vs_real ("a"), b = vs_real ("b");
  const double r = I ().integrate (fun, a, b, 1.0e-6, 1);
  vs_assert_eq (r, adaptive (fun, a, b, 1, 2, 1.0e-6, 1), "Q19 and Q27 are the defaults");
  vs_reach ("end");
}

static double
gplus (const double &u)
{
  return u > 0.0 ? vs_uf1 ("f", -std::log (u)) / u : 0.0;
}

static double
gminus (const double &u)
{
  return u > 0.0 ? vs_uf1 ("f", std::log (u)) / u : 0.0;
}

//@ c05_positive prop=C05 params=0,1,0..1;0,2,0..1;0,3,0..1;1,2,0..1;1,3,0..1;2,3,0..1 tparams=0,1,0..3;0,2,0..3;0,3,0..3;1,2,0..3;1,3,0..3;2,3,0..3 time=120
HARNESS (c05_positive)
{
  const int p = vs_param (0), q = vs_param (1), n = vs_param (2);
  const double goal = vs_real ("goal");
  const I integrator ((I::Formula (p)), I::Formula (q));
  vs_assert_eq (integrator.integrate_positive_infinite (fun, goal, n), adaptive (gplus, 0.0, 1.0, p, q, goal, n),
                "integral over the positive axis");
  vs_reach ("end");
}

//@ c05_negative prop=C05 params=0,1,0..1;0,2,0..1;0,3,0..1;1,2,0..1;1,3,0..1;2,3,0..1 tparams=0,1,0..3;0,2,0..3;0,3,0..3;1,2,0..3;1,3,0..3;2,3,0..3 time=120
HARNESS (c05_negative)
{
  const int p = vs_param (0), q = vs_param (1), n = vs_param (2);
  const double goal = vs_real ("goal");
  const I integrator ((I::Formula (p)), I::Formula (q));
  vs_assert_eq (integrator.integrate_negative_infinite (fun, goal, n), adaptive (gminus, 0.0, 1.0, p, q, goal, n),
                "integral over the negative axis");
  vs_reach ("end");
}

//@ c05_infinite prop=C05 params=0,1,0..1;0,2,0..1;0,3,0..1;1,2,0..1;1,3,0..1;2,3,0..1 tparams=0,1,0..3;0,2,0..3;0,3,0..3;1,2,0..3;1,3,0..3;2,3,0..3 time=120
HARNESS (c05_infinite)
{
  const int p = vs_param (0), q = vs_param (1), n = vs_param (2);
  const double goal = vs_real ("goal");
  const I integrator ((I::Formula (p)), I::Formula (q));
  const double r = adaptive (gplus, 0.0, 1.0, p, q, goal, n) + adaptive (gminus, 0.0, 1.0, p, q, goal, n);
  vs_assert_eq (integrator.integrate_infinite (fun, goal, n), r, "sum of both half axes");
  vs_reach ("end");
}
