//# C07 C28 C29
// Spectrum files and the command line tools that process them.
#include "vs_std.h"
using namespace std;
#include "core/base.h"
#include "core/dataio.h"
#include "core/equations.h"
#include "core/exitcodes.h"
#include "core/dataio.cxx"
#include "core/equations.cxx"
namespace app_airtovac
{
#include "util/airtovac.cxx"
}
namespace app_vactoair
{
#include "util/vactoair.cxx"
}
namespace app_helicorr
{
#include "util/helicorr.cxx"
}
namespace app_ezip
{
#include "apps/ezip.cxx"
}
#include "vs.h"
#include "vs_text.h"
using especia::natural;
using especia::real;

// kinds of lines
static const int TWO = 0, THREE = 1, FOUR = 2, ONE = 3, WORD = 4, EMPTY = 5, COMMENT = 6, KINDS = 7;

struct Row
{
  int kind;
  double a, b, c;
};

struct File
{
  vector<Row> rows;
  string text;
};

static bool
wellformed (const Row &r)
{
  return r.kind == TWO || r.kind == THREE || r.kind == FOUR;
}

static File
make (int n, int kinds, bool final_eol)
{
  File f;
  ostringstream os;
  os.precision (17);
  for (int i = 0; i < n; ++i)
    {
      Row r;
      r.kind = vs_choose ("kind", 0, kinds - 1);
      r.a = vs_real ("a");
      r.b = vs_real ("b");
      r.c = vs_real ("c");
      if (r.kind == TWO)
        os << r.a << "  " << r.b;
      else if (r.kind == THREE)
        os << "  " << r.a << "\t" << r.b << " " << r.c;
      else if (r.kind == FOUR)
        os << r.a << " " << r.b << " " << r.c << " " << r.a;
      else if (r.kind == ONE)
        os << r.a;
      else if (r.kind == WORD)
        os << "wave " << r.b;
      else if (r.kind == COMMENT)
        os << "# " << r.a << " " << r.b << " " << r.c;
      if (i + 1 < n || final_eol)
        os << '\n';
      f.rows.push_back (r);
    }
  f.text = os.str ();
  return f;
}

// number of lines as seen by a line reader
static int
lines (const File &f, bool final_eol)
{
  const int n = int (f.rows.size ());
  if (n > 0 && !final_eol && f.rows[n - 1].kind == EMPTY)
    return n - 1;
  return n;
}

static bool
good (const File &f, int skip, bool final_eol)
{
  const int n = lines (f, final_eol);
  if (skip >= n)
    return false;
  for (int i = skip; i < n; ++i)
    if (!wellformed (f.rows[i]))
      return false;
  return true;
}

//@ c28_get2 prop=C28 params=0..3,0..1 tparams=0..4,0..1 conc=4096 paths=100000
HARNESS (c28_get2)
{
  const bool eol = vs_param (1);
  const File f = make (vs_param (0), KINDS, eol);
  const int skip = vs_choose ("skip", 0, 3);
  istringstream is (f.text);
  valarray<real> x (7.0, 2), y (8.0, 2);
  especia::get (is, x, y, skip);
  const bool ok = good (f, skip, eol);
  vs_assert (bool (is) == ok, "stream state");
  if (ok)
    {
      const int n = lines (f, eol) - skip;
      vs_assert (int (x.size ()) == n && int (y.size ()) == n, "number of rows");
      if (int (x.size ()) == n && int (y.size ()) == n)
        for (int i = 0; i < n; ++i)
          {
            vs_assert_eq (x[i], f.rows[skip + i].a, "first column");
            vs_assert_eq (y[i], f.rows[skip + i].b, "second column");
          }
    }
  else
    {
      vs_assert (x.size () == 2 && y.size () == 2, "nothing changed on error");
      if (x.size () == 2 && y.size () == 2)
        for (int i = 0; i < 2; ++i)
          {
            vs_assert_eq (x[i], 7.0, "nothing changed on error");
            vs_assert_eq (y[i], 8.0, "nothing changed on error");
          }
    }
  vs_reach ("end");
}

//@ c28_get3 prop=C28 params=0..3,0..1 tparams=0..4,0..1 conc=4096 paths=100000
HARNESS (c28_get3)
{
  const bool eol = vs_param (1);
  const File f = make (vs_param (0), KINDS, eol);
  const int skip = vs_choose ("skip", 0, 3);
  istringstream is (f.text);
  valarray<real> x (7.0, 2), y (8.0, 2), z (9.0, 2);
  especia::get (is, x, y, z, skip);
  const bool ok = good (f, skip, eol);
  vs_assert (bool (is) == ok, "stream state");
  if (ok)
    {
      const int n = lines (f, eol) - skip;
      vs_assert (int (x.size ()) == n && int (y.size ()) == n && int (z.size ()) == n, "number of rows");
      if (int (x.size ()) == n && int (y.size ()) == n && int (z.size ()) == n)
        for (int i = 0; i < n; ++i)
          {
            const Row &r = f.rows[skip + i];
            vs_assert_eq (x[i], r.a, "first column");
            vs_assert_eq (y[i], r.b, "second column");
            vs_assert_eq (z[i], r.kind == TWO ? 0.0 : r.c, "third column belongs to its row");
          }
    }
  else
    {
      vs_assert (x.size () == 2 && y.size () == 2 && z.size () == 2, "nothing changed on error");
      if (x.size () == 2 && y.size () == 2 && z.size () == 2)
        for (int i = 0; i < 2; ++i)
          {
            vs_assert_eq (x[i], 7.0, "nothing changed on error");
            vs_assert_eq (y[i], 8.0, "nothing changed on error");
            vs_assert_eq (z[i], 9.0, "nothing changed on error");
          }
    }
  vs_reach ("end");
}

static void
expected (ostream &os, const vector<double> &x, const vector<double> &y, const vector<double> &z)
{
  for (size_t i = 0; i < x.size (); ++i)
    {
      os << right << setprecision (6) << fixed << setw (14) << x[i] << scientific << setw (14) << y[i];
      if (!z.empty ())
        os << scientific << setw (14) << z[i];
      os << "\n";
    }
}

//@ c28_put prop=C28 params=0..4,0..1
HARNESS (c28_put)
{
  const int n = vs_param (0), m = vs_param (1) ? n : 0;
  valarray<real> x (n), y (n), z (m);
  vector<double> u (n), v (n), w (m);
  for (int i = 0; i < n; ++i)
    {
      u[i] = x[i] = vs_real ("x");
      v[i] = y[i] = vs_real ("y");
      if (m)
        w[i] = z[i] = vs_real ("z");
    }
  ostringstream os, es;
  const int fl = vs_choose ("flags", 0, 2);
  if (fl == 1)
    os.setf (ios_base::left, ios_base::adjustfield);
  if (fl == 2)
    os.setf (ios_base::scientific, ios_base::floatfield);
  const ios_base::fmtflags f = os.flags ();
  especia::put (os, x, y, z);
  expected (es, u, v, w);
  vs_assert_text (os.str (), es.str (), "columns written");
  vs_assert (os.flags () == f, "format flags are restored");
  vs_assert (bool (os), "stream state");
  vs_reach ("end");
}

// a stream in an error state is left alone
//@ c28_bad prop=C28
HARNESS (c28_bad)
{
  valarray<real> x (1.0, 2);
  ostringstream os;
  os.setstate (ios_base::failbit);
  especia::put (os, x, x, x);
  vs_assert (os.str ().empty (), "nothing written");
  vs_reach ("end");
}

// ------------------------------------------------------------ applications
typedef int (*App) (int, char *[]);

struct Run
{
  int code;
  string out, err;
};

static Run
run (App app, const string &in, const char *a1 = 0, const char *a2 = 0, const char *a3 = 0, const char *a4 = 0)
{
  istringstream is (in);
  ostringstream os, es;
  streambuf *i = cin.rdbuf (is.rdbuf ()), *o = cout.rdbuf (os.rdbuf ()), *e = cerr.rdbuf (es.rdbuf ());
  const char *a[] = { "program", a1, a2, a3, a4, 0 };
  vector<string> s;
  for (int k = 0; k < 5 && a[k]; ++k)
    s.push_back (a[k]);
  vector<char *> v;
  for (size_t k = 0; k < s.size (); ++k)
    v.push_back (&s[k][0]);
  v.push_back (0);
  Run r;
  r.code = app (int (s.size ()), v.data ());
  cin.rdbuf (i);
  cout.rdbuf (o);
  cerr.rdbuf (e);
  r.out = os.str ();
  r.err = es.str ();
  return r;
}

static const char *SKIP[] = { "0", "1", "2" };

static void
rows (const File &f, int skip, vector<double> &x, vector<double> &y, vector<double> &z)
{
  for (size_t i = skip; i < f.rows.size (); ++i)
    {
      x.push_back (f.rows[i].a);
      y.push_back (f.rows[i].b);
      z.push_back (f.rows[i].kind == TWO ? 0.0 : f.rows[i].c);
    }
}

static void
failed (const Run &r, int code)
{
  vs_assert (r.code == code, "exit code");
  vs_assert (r.out.empty (), "no output on error");
  vs_assert (!r.err.empty (), "message on error");
}

// velocity
//@ c29_helicorr prop=C29,C07 params=0..3,0..3 conc=1024
HARNESS (c29_helicorr)
{
  const char *V[] = { "0", "30000.0", "-12.5", "1.0E+08" };
  const double W[] = { 0.0, 30000.0, -12.5, 1.0e+08 };
  const int k = vs_param (0), s = vs_param (1) - 1;
  const File f = make (2, 5, true);
  const int skip = s < 0 ? 0 : s;
  const Run r = s < 0 ? run (app_helicorr::main, f.text, V[k]) : run (app_helicorr::main, f.text, V[k], SKIP[s]);
  if (good (f, skip, true))
    {
      vector<double> x, y, z;
      rows (f, skip, x, y, z);
      const double c = 299792458.0;
      for (size_t i = 0; i < x.size (); ++i)
        x[i] = x[i] * std::sqrt ((1.0 + W[k] / c) / (1.0 - W[k] / c));
      ostringstream es;
      expected (es, x, y, z);
      vs_assert (r.code == 0, "exit code");
      vs_assert_text (r.out, es.str (), "wavelengths scaled by the Doppler factor");
      vs_assert (r.err.empty (), "no message");
    }
  else
    failed (r, 16);
  vs_reach ("end");
}

//@ c29_vactoair prop=C29 params=0..3 conc=1024
HARNESS (c29_vactoair)
{
  const int s = vs_param (0) - 1;
  const File f = make (2, 5, true);
  for (int i = 0; i < 2; ++i)
    vs_assume (f.rows[i].a >= 1.0 && f.rows[i].a <= 1.0e+06);
  const int skip = s < 0 ? 0 : s;
  const Run r = s < 0 ? run (app_vactoair::main, f.text) : run (app_vactoair::main, f.text, SKIP[s]);
  if (good (f, skip, true))
    {
      vector<double> x, y, z;
      rows (f, skip, x, y, z);
      for (size_t i = 0; i < x.size (); ++i)
        x[i] = 10.0 / especia::Equations::edlen66 (10.0 / x[i]);
      ostringstream es;
      expected (es, x, y, z);
      vs_assert (r.code == 0, "exit code");
      vs_assert_text (r.out, es.str (), "wavelengths in air");
      vs_assert (r.err.empty (), "no message");
    }
  else
    failed (r, 16);
  vs_reach ("end");
}

// wavelengths in air are constant here
//@ c29_airtovac prop=C29 params=0..3 conc=1024
HARNESS (c29_airtovac)
{
  const int s = vs_param (0) - 1;
  const double A[] = { 2345.5, 5000.0, 6562.8, 12345.678, 1215.67, 50000.5 };
  const char *T[] = { "2345.5", "5000.0", "6562.8", "12345.678", "1215.67", "50000.5" };
  const int i0 = vs_choose ("i0", 0, 5), i1 = vs_choose ("i1", 0, 5);
  const double y0 = vs_real ("y0"), y1 = vs_real ("y1"), z0 = vs_real ("z0"), z1 = vs_real ("z1");
  ostringstream os;
  os.precision (17);
  os << T[i0] << " " << y0 << " " << z0 << "\n" << T[i1] << " " << y1 << " " << z1 << "\n";
  const int skip = s < 0 ? 0 : s;
  const Run r = s < 0 ? run (app_airtovac::main, os.str ()) : run (app_airtovac::main, os.str (), SKIP[s]);
  if (skip >= 2)
    failed (r, 16);
  else
    {
      vs_assert (r.code == 0, "exit code");
      vs_assert (r.err.empty (), "no message");
      istringstream is (r.out);
      for (int i = skip; i < 2; ++i)
        {
          double x = 0.0, y = 0.0, z = 0.0;
          is >> x >> y >> z;
          vs_assert (bool (is), "rows");
          const double a = A[i == 0 ? i0 : i1];
          const double b = 10.0 / especia::Equations::edlen66 (10.0 / x);
          vs_assert (b - a < 2.0e-06 && a - b < 2.0e-06, "converts back to the wavelength in air");
          vs_assert (x > a, "longer in vacuum");
          // numbers are rounded when they are written natively
          const double ey = i == 0 ? y0 : y1, ez = i == 0 ? z0 : z1;
          if (vs_symbolic () || !(fabs (y - ey) < 1.0e-06 * fabs (ey)))
            vs_assert_eq (y, ey, "flux unchanged");
          if (vs_symbolic () || !(fabs (z - ez) < 1.0e-06 * fabs (ez)))
            vs_assert_eq (z, ez, "uncertainty unchanged");
        }
      double x;
      vs_assert (!(is >> x), "number of rows");
    }
  vs_reach ("end");
}

static void
save (const char *name, const string &s)
{
  ofstream os (name);
  os << s;
}

// flux file, uncertainty file, lines to skip
//@ c29_ezip prop=C29 params=0..3,1..2 conc=4096 paths=20000
HARNESS (c29_ezip)
{
  const int s = vs_param (0) - 1, n = vs_param (1);
  const File f = make (n, 5, true), g = make (2, 5, true);
  save ("flux.dat", f.text);
  save ("error.dat", g.text);
  const int skip = s < 0 ? 0 : s;
  const Run r = s < 0 ? run (app_ezip::main, "", "flux.dat", "error.dat")
                      : run (app_ezip::main, "", "flux.dat", "error.dat", SKIP[s]);
  if (good (f, skip, true) && good (g, skip, true) && n == 2)
    {
      vector<double> x, y, z, u, v, w;
      rows (f, skip, x, y, z);
      rows (g, skip, u, v, w);
      ostringstream es;
      expected (es, u, y, v);
      vs_assert (r.code == 0, "exit code");
      vs_assert_text (r.out, es.str (), "flux and uncertainty side by side");
      vs_assert (r.err.empty (), "no message");
    }
  else
    failed (r, 16);
  vs_reach ("end");
}

// a missing file
//@ c29_missing prop=C29 params=0..1
HARNESS (c29_missing)
{
  save ("flux.dat", "1.0 2.0\n");
  const Run r = vs_param (0) ? run (app_ezip::main, "", "flux.dat", "nofile") : run (app_ezip::main, "", "nofile", "flux.dat");
  failed (r, 16);
  vs_reach ("end");
}

// arguments
//@ c29_arguments prop=C29 params=0..3
HARNESS (c29_arguments)
{
  const App A[] = { app_helicorr::main, app_vactoair::main, app_airtovac::main, app_ezip::main };
  const int k = vs_param (0);
  const int n = vs_choose ("n", 0, 4), bad = vs_choose ("bad", 0, 1);
  const int least[] = { 1, 0, 0, 2 }, most[] = { 2, 1, 1, 3 };
  save ("a", "1000.0 2.0 3.0\n2000.0 3.0 4.0\n");
  save ("b", "1000.0 2.0 3.0\n2000.0 3.0 4.0\n");
  const char *W[4][4] = { { "100.0", bad ? "x" : "1", "0", "0" },
                          { bad ? "x" : "1", "0", "0", "0" },
                          { bad ? "x" : "1", "0", "0", "0" },
                          { "a", "b", bad ? "x" : "1", "0" } };
  const char *const *w = W[k];
  const Run r = run (A[k], "1000.0 2.0 3.0\n2000.0 3.0 4.0\n", n > 0 ? w[0] : 0, n > 1 ? w[1] : 0, n > 2 ? w[2] : 0,
                     n > 3 ? w[3] : 0);
  if (n == 0 && least[k] > 0)
    {
      vs_assert (r.code == 0, "usage: exit code");
      vs_assert (r.err.empty (), "usage: no message");
      vs_assert (r.out.find ("usage:") == 0, "usage message");
    }
  else if (n < least[k] || n > most[k] || (n == most[k] && bad))
    failed (r, 8);
  else
    {
      vs_assert (r.code == 0, "exit code");
      vs_assert (!r.out.empty (), "output");
    }
  vs_reach ("end");
}
