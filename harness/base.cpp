//# C07
#include <algorithm>
#include <cmath>
#include "core/base.h"
#include "vs.h"
using namespace especia;

//@ c07_doppler mode=real prop=C07
HARNESS (c07_doppler)
{
  const double c = 299792458.0;
  const double v = vs_real ("v");
  vs_assume (v > -c && v < c);
  const double z = redshift (v);
  // (1 + z)^2 (c - v) = (c + v), 1 + z >= 0
  vs_assert_eq ((1.0 + z) * (1.0 + z) * (c - v) / c, (c + v) / c, "relativistic Doppler");
  vs_assert (1.0 + z >= 0.0, "positive factor");
  const double w = redshift (-v);
  vs_assert_eq ((1.0 + z) * (1.0 + w), 1.0, "opposite velocities are inverse");
  vs_reach ("end");
}
