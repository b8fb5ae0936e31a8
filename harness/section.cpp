//# C11 C12 C13 C14 C15
// Sections: reading, writing, masking, instrumental convolution, continuum
// and cost, seen through the public interface.
#include "vs_std.h"
using namespace std;
#include "core/section.h"
#include "core/section.cxx"
#include "vs.h"
#include "vs_text.h"
using especia::Section;

struct Row
{
  double wav, flx, unc, msk, opt, atm, cat, cfl, tfl, fit, res;
};

static string
text (const Section &s)
{
  ostringstream os;
  s.put (os, -1.0e+300, 1.0e+300);
  return os.str ();
}

// reads the columns written by a section
static vector<Row>
rows (const Section &s)
{
  istringstream is (text (s));
  vector<Row> v;
  Row r;
  string line;
  while (getline (is, line))
    {
      // the normalised flux (the last two columns) need not be finite
      istringstream ist (line);
      if (ist >> r.wav >> r.flx >> r.unc >> r.msk >> r.opt >> r.atm >> r.cat >> r.cfl >> r.tfl >> r.fit >> r.res)
        v.push_back (r);
    }
  return v;
}

static double
tau (const double &x)
{
  return vs_uf1 ("tau", x);
}

// ------------------------------------------------------------- convolution
static const double SQRT_LN2 = 0.832554611157697756353164644895201047630588852264;
static const double SQRT_PI = 1.77245385090551602729816748334114518279754945612238712821380779;

struct Grid
{
  int n;
  double x[8];
  double r;
};

static const Grid GRIDS[] = {
  { 4, { 4999.8, 4999.9, 5000.0, 5000.1 }, 18.0 },           // no supersampling
  { 6, { 4999.8, 4999.9, 5000.0, 5000.1, 5000.2, 5000.3 }, 18.0 },
  { 5, { 4999.8, 4999.95, 5000.0, 5000.1, 5000.25 }, 16.5 }, // uneven
  { 3, { 4999.9, 5000.0, 5000.1 }, 11.0 },                   // profile wider than the data
  { 7, { 4999.7, 4999.8, 4999.9, 5000.0, 5000.1, 5000.2, 5000.3 }, 11.0 },
  { 4, { 4999.8, 4999.9, 5000.0, 5000.1 }, 30.0 },           // twofold
  { 5, { 4999.8, 4999.95, 5000.0, 5000.1, 5000.25 }, 33.0 },
  { 3, { 4999.9, 5000.0, 5000.1 }, 65.0 },                   // threefold
  { 5, { 4999.8, 4999.9, 5000.0, 5000.1, 5000.2 }, 65.0 },
  { 4, { 1200.0, 1200.5, 1201.2, 1202.0 }, 4.1 },
  { 3, { 0.9, 1.0, 1.1 }, 0.028 },
};

struct Conv
{
  int n, s;
  vector<double> opt, atm, cat;
};

static Conv
reference (const Grid &g)
{
  const int n = g.n;
  const double h = 0.5 * (0.5 * (g.x[0] + g.x[n - 1])) / (g.r * 1000.0);
  const double d = (g.x[n - 1] - g.x[0]) / (n - 1);
  int s = 1;
  while (d / s > h)
    ++s;
  const double w = d / s;
  int m = 0;
  while ((m + 1) * w <= 4.0 * h)
    ++m;
  // the absorption on the refined grid
  vector<double> opt, atm;
  for (int i = 0; i + 1 < n; ++i)
    for (int j = 0; j < s; ++j)
      opt.push_back (vs_uf1 ("tau", g.x[i] + (double (j) / double (s)) * (g.x[i + 1] - g.x[i])));
  opt.push_back (vs_uf1 ("tau", g.x[n - 1]));
  const int N = int (opt.size ());
  for (int i = 0; i < N; ++i)
    atm.push_back (exp (-opt[i]));
  Conv c;
  c.n = n;
  c.s = s;
  const double b = h / SQRT_LN2;
  for (int i = 0; i < n; ++i)
    {
      const int p = i * s;
      double sum = 0.0;
      for (int j = 0; j < m; ++j)
        {
          // integrals of the Gaussian and of its first moment over a grid interval
          const double u = j * w / b, v = (j + 1) * w / b;
          const double g0 = 0.5 * (erf (v) - erf (u));
          const double g1 = 0.5 * b / SQRT_PI * (exp (-u * u) - exp (-v * v));
          // the interval to the right, and the mirrored interval to the left;
          // beyond the ends the outermost interval stands in
          const int r = min (p + j, N - 2), l = max (p - j, 1);
          const double rs = (atm[r + 1] - atm[r]) / w, ls = (atm[l - 1] - atm[l]) / w;
          sum += (atm[r] - rs * j * w) * g0 + rs * g1;
          sum += (atm[l] - ls * j * w) * g0 + ls * g1;
        }
      c.opt.push_back (opt[p]);
      c.atm.push_back (atm[p]);
      c.cat.push_back (sum);
    }
  return c;
}

//@ c13_convolution prop=C13 params=0..10
HARNESS (c13_convolution)
{
  const Grid &g = GRIDS[vs_param (0)];
  vector<double> flx (g.n), unc (g.n);
  for (int i = 0; i < g.n; ++i)
    {
      flx[i] = vs_real ("flx");
      unc[i] = vs_real ("unc");
    }
  Section s (g.n, g.x, flx.data (), unc.data ());
  s.apply (0, g.r, tau);
  const vector<Row> v = rows (s);
  const Conv c = reference (g);
  vs_assert (int (v.size ()) == g.n, "number of data");
  for (int i = 0; i < g.n && i < int (v.size ()); ++i)
    {
      vs_assert_eq (v[i].opt, c.opt[i], "optical depth");
      vs_assert_eq (v[i].atm, c.atm[i], "absorption");
      vs_assert_eq (v[i].cat, c.cat[i], "convolved absorption");
      vs_assert_eq (v[i].cfl, 1.0, "no continuum terms");
      vs_assert_eq (v[i].tfl, c.atm[i], "absorbed continuum");
      vs_assert_eq (v[i].fit, c.cat[i], "fit");
      vs_assert_eq (v[i].res, (flx[i] - c.cat[i]) / unc[i], "residual");
    }
  vs_reach ("end");
}

// --------------------------------------------------------------- continuum
// Absorption that is constant around each datum, seen with a profile that is
// narrower than half the distance between data: the convolved absorption of a
// datum is proportional to its own absorption, which is arbitrary.
struct Steps
{
  vector<double> x, t;
  double
  operator() (const double &w) const
  {
    size_t k = 0;
    for (size_t i = 1; i < x.size (); ++i)
      if (abs (w - x[i]) < abs (w - x[k]))
        k = i;
    return t[k];
  }
};

struct Data
{
  int n;
  vector<double> x, y, u;
  vector<int> ok;
  Steps steps;
  double r;
  Section s;
};

static const double EVEN[] = { 999.0, 1000.0, 1001.0, 1002.0, 1003.0, 1004.0, 1005.0, 1006.0 };
static const double UNEVEN[] = { 999.0, 1000.0, 1002.5, 1003.75, 1006.0, 1007.5, 1008.0, 1010.0 };

// masked: bit i masks datum i; what: 1 symbolic uncertainties, 2 symbolic absorption
static Data
data (int n, bool even, int masked, int what)
{
  static const double U[] = { 1.0, 0.5, 2.0, 0.25, 1.5, 0.75, 1.0, 3.0 };
  static const double T[] = { 0.0, 0.5, 3.0, 0.25, 0.125, 1.0, 0.75, 0.0 };
  Data d;
  d.n = n;
  d.r = even ? 10.0 : 20.0;
  for (int i = 0; i < n; ++i)
    {
      d.x.push_back (even ? EVEN[i] : UNEVEN[i]);
      d.y.push_back (vs_real ("flx"));
      d.u.push_back (what & 1 ? vs_real ("unc") : U[i]);
      vs_assume (d.u[i] > 0.0);
      d.ok.push_back (!(masked & (1 << i)));
      d.steps.t.push_back (what & 2 ? vs_real ("depth") : T[i]);
    }
  d.steps.x = d.x;
  d.s = Section (n, d.x.data (), d.y.data (), d.u.data ());
  for (int i = 0; i < n; ++i)
    if (!d.ok[i])
      d.s.mask (d.x[i], d.x[i]);
  return d;
}

// a sum that is zero; natively up to the rounding of the text
struct Sum
{
  double s, scale;
  Sum () : s (0.0), scale (0.0) {}
  void
  add (double x)
  {
    s += x;
    if (!vs_symbolic ())
      scale += abs (x);
  }
  void
  zero (const char *label) const
  {
    if (vs_symbolic ())
      vs_assert_eq (s, 0.0, label);
    else
      vs_assert (abs (s) <= 1.0e-6 * scale, label);
  }
};

static void
fit (int what)
{
  const int n = vs_param (0), m = vs_param (1);
  Data d = data (n, vs_param (2), vs_param (3), what);
  d.s.apply (m, d.r, d.steps);
  const vector<Row> v = rows (d.s);
  vs_assert (int (v.size ()) == n, "number of data");
  if (int (v.size ()) != n)
    return;
  // a polynomial of degree less than m: all divided differences of order m vanish
  for (int i = 0; i + m < n; ++i)
    {
      Sum s;
      for (int j = i; j <= i + m; ++j)
        {
          double p = v[j].cfl;
          for (int k = i; k <= i + m; ++k)
            if (k != j)
              p /= d.x[j] - d.x[k];
          s.add (p);
        }
      s.zero ("polynomial of degree less than the number of terms");
    }
  // the weighted residuals are orthogonal to all such polynomials
  for (int p = 0; p < m; ++p)
    {
      Sum s;
      for (int i = 0; i < n; ++i)
        if (d.ok[i])
          {
            double q = 1.0;
            for (int k = 0; k < p; ++k)
              q *= d.x[i] - d.x[k];
            const double w = q * v[i].cat / d.u[i];
            s.add (w * d.y[i] / d.u[i]);
            s.add (-w * v[i].cat * v[i].cfl / d.u[i]);
          }
      s.zero ("residuals of valid data are orthogonal to the polynomials");
    }
  vs_reach ("end");
}

// all weights are symbolic: number of data, terms, even spacing, masked data, symbolic uncertainty or absorption
//@ c12_fit prop=C12 params=3,1,0..1,0,3;3,1,1,2,3;3,2,0..1,0,2;3,2,1,0,1;4,2,1,8,2 tparams=3,1,0..1,0..3,3;3,2,0..1,0,3;4,2,0..1,0,1..2;4,2,1,8,3;5,2,0..1,18,3 time=60 num=60
HARNESS (c12_fit)
{
  fit (vs_param (4));
}

// given weights, all fluxes
//@ c12_linear prop=C12 params=5,2,0,18;4,3,0..1,0;6,4,0..1,0;8,5,1,4 tparams=8,1..6,0..1,0;8,1..6,0..1,10 time=60 num=60
HARNESS (c12_linear)
{
  fit (0);
}

// no valid data, or no absorption that passes: nothing determines the continuum
//@ c12_singular prop=C12 params=1..3,0..1 num=60
HARNESS (c12_singular)
{
  const int n = 4, m = vs_param (0);
  Data d = data (n, true, vs_param (1) ? 15 : 0, 0);
  if (!vs_param (1))
    for (int i = 0; i < n; ++i)
      d.steps.t[i] = 1.0e+05; // opaque
  bool thrown = false, other = false;
  try
    {
      d.s.apply (m, d.r, d.steps);
    }
  catch (runtime_error &)
    {
      thrown = true;
    }
  catch (...)
    {
      other = true;
    }
  if (vs_param (1) || !vs_symbolic ())
    vs_assert (thrown && !other, "error");
  bool thrown2 = false;
  try
    {
      d.s.cost (d.steps, d.r, m);
    }
  catch (runtime_error &)
    {
      thrown2 = true;
    }
  if (vs_param (1) || !vs_symbolic ())
    vs_assert (thrown2, "error");
  vs_reach ("end");
}

// -------------------------------------------------------------------- cost
// number of data, terms, masked data
//@ c11_cost prop=C11 params=3,0,0;3,0,2;4,0,9;3,1,0;3,1,4;4,1,3;5,0,21 tparams=3,0,0..6;4,0,0..14;3,1,0..6;4,1,0..14;5,1,0..4;4,2,1;4,2,8 num=60
HARNESS (c11_cost)
{
  const int n = vs_param (0), m = vs_param (1);
  Data d = data (n, true, vs_param (2), m > 1 ? 0 : 3);
  Steps none = d.steps;
  for (int i = 0; i < n; ++i)
    none.t[i] = 0.0;
  d.s.apply (0, d.r, none);
  const string before = text (d.s);
  const double c = d.s.cost (d.steps, d.r, m);
  vs_assert_text (text (d.s), before, "computing a cost leaves the section unchanged");
  d.s.apply (m, d.r, d.steps);
  vs_assert_eq (c, d.s.cost (), "same cost when applied");
  const vector<Row> v = rows (d.s);
  vs_assert (int (v.size ()) == n, "number of data");
  double e = 0.0;
  int valid = 0;
  for (int i = 0; i < n && i < int (v.size ()); ++i)
    {
      const double r = (d.y[i] - v[i].cat * v[i].cfl) / d.u[i];
      vs_assert_eq (v[i].res, r, "residual");
      vs_assert_eq (v[i].fit, v[i].cat * v[i].cfl, "fit");
      vs_assert_eq (v[i].tfl, v[i].atm * v[i].cfl, "absorbed continuum");
      vs_assert_eq (v[i].msk, d.ok[i] ? 1.0 : 0.0, "mask");
      if (d.ok[i])
        {
          // half the sum of the squares
          const double q = (d.y[i] - v[i].cat * v[i].cfl) / d.u[i];
          e += 0.5 * q * q;
          ++valid;
        }
    }
  if (vs_symbolic ())
    vs_assert_eq (c, e, "half the sum of the squared residuals of valid data");
  else
    vs_assert (abs (c - e) <= 1.0e-5 * (1.0 + abs (e)), "half the sum of the squared residuals of valid data");
  vs_assert_word (d.s.valid_data_count (), valid, "number of valid data");
  vs_assert_word (d.s.data_count (), n, "number of data");
  vs_reach ("end");
}

// masked data have no influence
//@ c11_masked prop=C11,C12 params=4,0..1,4;4,1,9;5,1,10 tparams=4,0..1,1..14;5,0..1,1..18 num=60
HARNESS (c11_masked)
{
  const int n = vs_param (0), m = vs_param (1);
  Data d = data (n, true, vs_param (2), 3);
  vector<double> y = d.y, u = d.u;
  for (int i = 0; i < n; ++i)
    if (!d.ok[i])
      {
        y[i] = vs_real ("other flx");
        u[i] = vs_real ("other unc");
        vs_assume (u[i] > 0.0);
      }
  Section t (n, d.x.data (), y.data (), u.data ());
  for (int i = 0; i < n; ++i)
    if (!d.ok[i])
      t.mask (d.x[i], d.x[i]);
  d.s.apply (m, d.r, d.steps);
  t.apply (m, d.r, d.steps);
  vs_assert_eq (d.s.cost (), t.cost (), "masked data do not contribute to the cost");
  const vector<Row> v = rows (d.s), w = rows (t);
  vs_assert (int (v.size ()) == n && int (w.size ()) == n, "number of data");
  for (int i = 0; i < n && i < int (v.size ()) && i < int (w.size ()); ++i)
    {
      vs_assert_eq (v[i].cfl, w[i].cfl, "masked data do not affect the continuum");
      vs_assert_eq (v[i].fit, w[i].fit, "masked data do not affect the fit");
    }
  vs_reach ("end");
}

// exactly the data within a closed interval are masked, and stay so
//@ c11_mask prop=C11 params=1..4,1..2 tparams=1..6,1..3
HARNESS (c11_mask)
{
  const int n = vs_param (0), k = vs_param (1);
  vector<double> x (n), y (n), z (n);
  vector<int> ok (n);
  for (int i = 0; i < n; ++i)
    {
      x[i] = vs_real ("wav");
      y[i] = 2.0;
      z[i] = 1.0;
      ok[i] = 1;
      if (i > 0)
        vs_assume (x[i] > x[i - 1]);
    }
  vs_assume (x[0] >= 0.0 && x[n - 1] <= 1.0e+10);
  Section s (n, x.data (), y.data (), z.data ());
  for (int j = 0; j < k; ++j)
    {
      const double a = vs_real ("a"), b = vs_real ("b");
      s.mask (a, b);
      for (int i = 0; i < n; ++i)
        if (vs_decide (a <= x[i] && x[i] <= b))
          ok[i] = 0;
    }
  const vector<Row> v = rows (s);
  vs_assert (int (v.size ()) == n, "number of data");
  int valid = 0;
  for (int i = 0; i < n; ++i)
    {
      valid += ok[i];
      if (i < int (v.size ()))
        vs_assert_eq (v[i].msk, ok[i], "masked within the closed interval");
    }
  vs_assert_word (s.valid_data_count (), valid, "number of valid data");
  vs_reach ("end");
}

// the properties of an interval of data
//@ c11_bounds prop=C11 params=0..4
HARNESS (c11_bounds)
{
  const int n = vs_param (0);
  vector<double> x (n + 1);
  for (int i = 0; i < n; ++i)
    x[i] = vs_real ("wav");
  Section s (n, x.data (), x.data (), x.data ());
  vs_assert_eq (s.lower_bound (), n ? x[0] : 0.0, "lower bound");
  vs_assert_eq (s.upper_bound (), n ? x[n - 1] : 0.0, "upper bound");
  vs_assert_eq (s.width (), n ? x[n - 1] - x[0] : 0.0, "width");
  vs_assert_eq (2.0 * s.center (), n ? x[n - 1] + x[0] : 0.0, "center");
  vs_assert_word (s.data_count (), n, "number of data");
  vs_assert_word (s.valid_data_count (), n, "number of valid data");
  vs_assert_eq (s.cost (), 0.0, "cost");
  vs_reach ("end");
}

// ----------------------------------------------------------------- reading
static const int TWO = 0, THREE = 1, FOUR = 2, LATER = 3, COMMENT = 4, EMPTY = 5, ONE = 6, WORD = 7, KINDS = 8;

struct Line
{
  int kind;
  double a, b, c;
  int m;
};

static string
lines (vector<Line> &f, int n, int kinds, bool eol)
{
  static const char *MARK[] = { "# ", "%", "! " };
  ostringstream os;
  os.precision (17);
  for (int i = 0; i < n; ++i)
    {
      Line r;
      r.kind = vs_choose ("kind", 0, kinds - 1);
      r.a = vs_real ("wav");
      r.b = vs_real ("flx");
      r.c = vs_real ("unc");
      r.m = 1;
      if (r.kind == TWO)
        os << r.a << " " << r.b;
      else if (r.kind == THREE)
        os << "  " << r.a << "\t" << r.b << " " << r.c;
      else if (r.kind == FOUR)
        {
          r.m = vs_choose ("mask", 0, 1);
          os << r.a << " " << r.b << " " << r.c << "   " << r.m << " " << r.a;
        }
      else if (r.kind == LATER)
        os << r.a << " " << r.b << " # later";
      else if (r.kind == ONE)
        os << r.a;
      else if (r.kind == WORD)
        os << "wav " << r.b;
      else if (r.kind == COMMENT)
        os << MARK[i % 3] << r.a << " " << r.b << " " << r.c;
      if (i + 1 < n || eol)
        os << '\n';
      f.push_back (r);
    }
  return os.str ();
}

static bool
complete (const Line &r)
{
  return r.kind <= LATER;
}

static void
check (const Section &s, const vector<Line> &e, const char *label)
{
  vs_assert_word (s.data_count (), e.size (), label);
  size_t valid = 0;
  const vector<Row> v = rows (s);
  vs_assert (v.size () == e.size (), label);
  for (size_t i = 0; i < e.size () && i < v.size (); ++i)
    {
      vs_assert_eq (v[i].wav, e[i].a, label);
      vs_assert_eq (v[i].flx, e[i].b, label);
      vs_assert_eq (v[i].unc, e[i].kind == TWO || e[i].kind == LATER ? 1.0 : e[i].c, label);
      vs_assert (v[i].msk == double (e[i].m), label);
      valid += e[i].m;
    }
  vs_assert_word (s.valid_data_count (), valid, label);
}

// lines, kinds of lines, final end of line, wavelength interval given
//@ c14_get prop=C14 params=1,8,0,0..1;2,8,1,0..1;3,6,1,0;3,4,0,1 tparams=1..3,8,0..1,0..1;4,6,1,0..1 div=free conc=4096 paths=200000 time=120
HARNESS (c14_get)
{
  const int n = vs_param (0), kinds = vs_param (1);
  vector<Line> f;
  string t = lines (f, n, kinds, vs_param (2));
  // data read earlier
  vector<Line> held (2);
  for (int i = 0; i < 2; ++i)
    {
      held[i].kind = THREE;
      held[i].a = i + 1.0;
      held[i].b = vs_real ("held flx");
      held[i].c = vs_real ("held unc");
      held[i].m = i;
    }
  const double hx[] = { 1.0, 2.0 }, hy[] = { held[0].b, held[1].b }, hz[] = { held[0].c, held[1].c };
  Section s (2, hx, hy, hz);
  s.mask (1.0, 1.0);
  const double top = 1.0e+12;
  for (int i = 0; i < n; ++i)
    vs_assume (-top < f[i].a && f[i].a < top);
  double a = 0.0, b = top;
  istringstream is (t);
  if (vs_param (3))
    {
      a = vs_real ("a");
      b = vs_real ("b");
      vs_assume (-top < a && a < b && b < top);
      s.get (is, a, b);
    }
  else
    is >> s;
  vector<Line> e;
  bool bad = false;
  int i = 0;
  for (; i < n; ++i)
    {
      if (f[i].kind == EMPTY)
        break;
      if (f[i].kind == COMMENT)
        continue;
      if (!complete (f[i]))
        {
          bad = true;
          break;
        }
      if (vs_decide (a <= f[i].a && f[i].a <= b))
        e.push_back (f[i]);
    }
  if (bad)
    {
      vs_assert (is.bad () && is.fail (), "a malformed line is an error");
      check (s, held, "an error leaves the data unchanged");
      vs_reach ("malformed");
    }
  else if (e.empty ())
    {
      vs_assert (is.fail () && !is.bad (), "no data");
      check (s, held, "no data leave the data unchanged");
      vs_reach ("empty");
    }
  else
    {
      vs_assert (!is.fail () && !is.bad (), "success");
      check (s, e, "data read");
      // what follows the empty line is left for the next section
      size_t at = 0;
      for (int k = 0; k <= i && at != string::npos; ++k)
        at = t.find ('\n', at) == string::npos ? string::npos : t.find ('\n', at) + 1;
      const string rest = i < n && at != string::npos ? t.substr (at) : "";
      string left, l;
      is.clear ();
      while (getline (is, l))
        left += l + "\n";
      if (!rest.empty () && rest[rest.size () - 1] != '\n')
        left.erase (left.size () - 1);
      vs_assert_text (left, rest, "stops after the empty line");
      vs_reach ("data");
    }
}

// ----------------------------------------------------------------- writing
static void
column (ostream &os, double x)
{
  ostringstream o;
  o << scientific << setprecision (8) << setw (16) << x;
  os << o.str ();
}

// number of data, terms, masked data, interval
//@ c15_put prop=C15 params=1,0,0..1,0..1;3,0..1,0,0..1;3,1,5,1;4,0,2,0 tparams=1,0,0..1,0..1;3,0..1,0..7,0..1;4,0..1,6,1;5,2,1,0..1 num=60 div=free paths=20000
HARNESS (c15_put)
{
  const int n = vs_param (0), m = vs_param (1);
  Data d = data (n, true, vs_param (2), m > 1 ? 0 : 1);
  d.s.apply (m, d.r, d.steps);
  const vector<Row> v = rows (d.s);
  vs_assert (int (v.size ()) == n, "number of lines");
  if (int (v.size ()) != n)
    return;
  ostringstream os, e;
  const double lim = 1.0e+300;
  const double a = vs_param (3) ? vs_real ("a") : -lim, b = vs_param (3) ? vs_real ("b") : lim;
  os << hex << left << fixed;
  const ios_base::fmtflags flags = os.flags ();
  os.width (0);
  if (vs_param (3))
    d.s.put (os, a, b);
  else
    os << d.s;
  vs_assert (os.flags () == flags, "format flags are restored");
  vs_assert (bool (os), "stream state");
  for (int i = 0; i < n; ++i)
    {
      if (!vs_decide (a <= d.x[i] && d.x[i] <= b))
        continue;
      const double opt = n > 2 ? d.steps.t[i] : 0.0;
      const double atm = n > 2 ? exp (-d.steps.t[i]) : 0.0;
      const double cat = n > 2 ? v[i].cat : 0.0;
      const double cfl = m > 0 ? v[i].cfl : 1.0;
      column (e, d.x[i]);
      column (e, d.y[i]);
      column (e, d.u[i]);
      e << "  " << (d.ok[i] ? '1' : '0');
      column (e, opt);
      column (e, atm);
      column (e, cat);
      column (e, cfl);
      column (e, cfl * atm);
      column (e, cfl * cat);
      column (e, (d.y[i] - cfl * cat) / d.u[i]);
      column (e, d.y[i] / cfl);
      column (e, d.u[i] / cfl);
      e << '\n';
    }
  vs_assert_text (os.str (), e.str (), "thirteen columns");
  // nothing is written to a stream that failed
  ostringstream failed;
  failed.setstate (ios_base::failbit);
  d.s.put (failed);
  vs_assert (failed.str ().empty (), "nothing is written to a failed stream");
  // what is written can be read again
  Section r;
  istringstream is (os.str ());
  is >> r;
  vector<Line> w;
  for (int i = 0; i < n; ++i)
    if (vs_decide (a <= d.x[i] && d.x[i] <= b))
      {
        Line l;
        l.kind = THREE;
        l.a = d.x[i];
        l.b = d.y[i];
        l.c = d.u[i];
        l.m = d.ok[i];
        w.push_back (l);
      }
  vs_assert (bool (is) == !w.empty (), "what is written can be read again");
  if (vs_symbolic ())
    check (r, w, "what is written can be read again");
  vs_reach ("end");
}

// several sections: number of sections, data of each
//@ c15_list prop=C15,C14 params=0..3,1..2 tparams=0..4,1..3 div=free
HARNESS (c15_list)
{
  const int k = vs_param (0), n = vs_param (1);
  ostringstream os;
  os.precision (17);
  vector<vector<Line> > e (k);
  for (int i = 0; i < k; ++i)
    {
      if (i > 0)
        os << '\n';
      for (int j = 0; j < n; ++j)
        {
          Line r;
          r.kind = THREE;
          r.a = 100.0 * (i + 1) + j;
          r.b = vs_real ("flx");
          r.c = vs_real ("unc");
          r.m = (i + j) % 2;
          e[i].push_back (r);
          os << r.a << ' ' << r.b << ' ' << r.c << ' ' << r.m << '\n';
        }
    }
  istringstream is (os.str ());
  vector<Section> s;
  is >> s;
  vs_assert_word (s.size (), k, "number of sections");
  if (int (s.size ()) != k)
    return;
  vs_assert (is.eof () && !is.bad (), "all is read");
  string t;
  for (int i = 0; i < k; ++i)
    {
      check (s[i], e[i], "data of a section");
      ostringstream one;
      one << s[i];
      t += (i ? "\n" : "") + one.str ();
    }
  ostringstream out;
  out << s;
  vs_assert_text (out.str (), t, "sections are separated by empty lines");
  istringstream again (out.str ());
  vector<Section> r;
  again >> r;
  vs_assert_word (r.size (), k, "written sections can be read again");
  for (int i = 0; vs_symbolic () && i < k && i < int (r.size ()); ++i)
    check (r[i], e[i], "written sections can be read again");
  // sections are appended
  istringstream more (os.str ());
  more >> s;
  vs_assert_word (s.size (), 2 * k, "sections are appended");
  vs_reach ("end");
}
