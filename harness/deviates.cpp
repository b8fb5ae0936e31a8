//# C03
// Normal deviates over an arbitrary uniform source.
#include <cmath>
#include "core/deviates.h"
#include "vs.h"
using namespace especia;

static double drawn[64];
static int draws;

struct Source
{
  explicit Source (word64 = 0) {}
  double
  operator() () const
  {
    if (draws >= 8)
      vs_stop ();
    const double u = vs_real ("u");
    vs_assume (u >= 0.0 && u <= 1.0);
    drawn[draws++] = u;
    return u;
  }
};

// index of the accepted pair at or after draw k, -1 when none was drawn
static int
accepted (int k)
{
  for (; k + 1 < draws; k += 2)
    {
      const double x = 2.0 * drawn[k] - 1.0, y = 2.0 * drawn[k + 1] - 1.0;
      const double t = x * x + y * y;
      if (vs_decide (t < 1.0 && t > 0.0))
        return k;
    }
  return -1;
}

//@ c03_polar prop=C03 params=1..4
HARNESS (c03_polar)
{
  draws = 0;
  const int n = vs_param (0);
  const Normal_Deviate<Source> normal;
  int next = 0;
  for (int i = 0; i < n; ++i)
    {
      const double a = normal ();
      const int k = accepted (next);
      vs_assert (k >= 0, "an accepted pair was drawn");
      if (k < 0)
        return;
      vs_assert (draws == k + 2, "no draw beyond the accepted pair");
      const double x = 2.0 * drawn[k] - 1.0, y = 2.0 * drawn[k + 1] - 1.0;
      const double t = x * x + y * y;
      const double s = std::sqrt (-2.0 * (std::log (t) / t));
      if (i % 2 == 0)
        vs_assert_eq (a, x * s, "first deviate of the pair");
      else
        {
          vs_assert_eq (a, y * s, "second deviate of the pair");
          next = k + 2;
        }
    }
  vs_reach ("end");
}

// a source given to the deviate is copied
//@ c03_copy prop=C03
HARNESS (c03_copy)
{
  draws = 0;
  const Normal_Deviate<Source> normal ((Source ()));
  const double a = normal ();
  const Normal_Deviate<Source> other (normal);
  const double b = normal (), c = other ();
  vs_assert_eq (b, c, "a copy holds the same pending deviate");
  const int k = accepted (0);
  vs_assert (k >= 0 && draws == k + 2, "one pair was drawn");
  (void)a;
  vs_reach ("end");
}
