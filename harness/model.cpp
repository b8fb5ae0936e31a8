//# C16 C17 C31
// Model definitions: parsing, free parameters, cost, and the result table.
#include "model_parts.h"

// values, bounds and flags; sections, lines of each, permutation of flags, constraint
//@ c16_values prop=C16,C17 params=1,1,0..1,1;2,1,2,0;1,2,3,0;2,0,1,1 tparams=1..2,1..2,0..5,0..1;3,1,0..5,0;3,0,0..3,1 psteps=40000000 time=120 num=60
HARNESS (c16_values)
{
  const int ns = vs_param (0), nl = vs_param (1), pattern = vs_param (2);
  const int P = 6;
  vector<Sec> m;
  int k = 0;
  for (int i = 0; i < ns; ++i)
    {
      Sec s = section (i, 2, 0);
      s.res = arbitrary (i == 0 ? 1 : vs_choose ("flag", 0, 1), i > 0);
      for (int j = 0; j < nl; ++j)
        {
          Profile l;
          l.id = string ("L") + integer (i) + integer (j);
          for (int q = 0; q < P; ++q, ++k)
            {
              const int f = q == 4 && j == 0 ? vs_choose ("flag", 0, 1) : (k * (pattern + 1) + k / 5) % 3 == 1;
              l.p.push_back (arbitrary (f, !(q == 4 && i == 0 && j == 0)));
            }
          s.lines.push_back (l);
        }
      m.push_back (s);
    }
  files (m);
  const string t = definition (m);
  vector<especia::Model<Line<P> > > v;
  string echo, err;
  const bool ok = parse_into<P> (t, v, echo, err);
  vs_assert (ok, "valid definition accepted");
  if (!ok)
    return;
  vs_assert_text (echo, "<!DOCTYPE html>\n<html>\n<!--\n<model>\n" + t + "</model>\n-->\n</html>\n", "definition echoed");
  vs_assert (err.empty (), "no message");
  const Resolved r = resolve (m);
  vs_assert (r.ok, "oracle");
  check_model (v[0], m, r, vs_param (3));
  vs_reach ("end");
}

// references among resolutions: number of sections, lines present
//@ c16_sections prop=C16,C17 params=1,0;2,1;3,0 tparams=1..2,0..1;3,1;4,0 psteps=20000000 time=200 num=60
HARNESS (c16_sections)
{
  const int ns = vs_param (0);
  const char *names[] = { "", "S0", "S1", "S2", "nowhere", "S3" };
  vector<Sec> m;
  for (int i = 0; i < ns; ++i)
    {
      Sec s = section (i, 2, 0);
      s.res = arbitrary (i != 1);
      s.res.ref = names[ns == 4 ? (vs_choose ("reference", 0, 4) + 5) % 6 : vs_choose ("reference", 0, ns < 3 ? 4 : 3)];
      if (ns == 4 && s.res.ref == "S3")
        s.res.ref = "S3";
      if (vs_param (1))
        {
          s.lines.push_back (line (string ("L") + integer (i), 6));
          s.lines[0].p[3].free = 1;
        }
      m.push_back (s);
    }
  files (m);
  vector<especia::Model<Line<6> > > v;
  string echo, err;
  const bool ok = parse_into<6> (definition (m), v, echo, err);
  const Resolved r = resolve (m);
  vs_assert (ok == r.ok, r.ok ? "valid references accepted" : "unresolvable references rejected");
  if (ok && r.ok)
    {
      if (r.n > 0)
        check_model (v[0], m, r, false);
      vs_reach ("valid");
    }
  else
    {
      vs_assert (!err.empty (), "message");
      vs_reach ("invalid");
    }
}

// references among lines: lines in the first and in the second section, free parameters between
//@ c16_lines prop=C16,C17 params=1,0,0;2,1,0..1;0,3,0 tparams=1,0..2,0;2,1..2,0..1;0,4,0..1;4,0,0..1 psteps=20000000 time=200 num=60
HARNESS (c16_lines)
{
  const int a = vs_param (0), b = vs_param (1), n = a + b;
  const char *names[] = { "", "L0", "L1", "L2", "L3" };
  vector<Sec> m;
  m.push_back (section (0, 2, 0));
  m.push_back (section (1, 2, 0));
  for (int i = 0; i < n; ++i)
    {
      Profile l = line (names[i + 1], 6);
      l.p[1].free = i != 1;
      l.p[2].free = vs_param (2) == 0 || i + 1 == n;
      const int k = vs_choose ("reference", 0, n + 1);
      l.p[1].ref = k > n ? "S0" : names[k]; // the name of a section is no line
      // another parameter refers as well
      if (i == 0 && n > 1)
        l.p[4].ref = names[n];
      m[i < a ? 0 : 1].lines.push_back (l);
    }
  files (m);
  vector<especia::Model<Line<6> > > v;
  string echo, err;
  const bool ok = parse_into<6> (definition (m), v, echo, err);
  const Resolved r = resolve (m);
  vs_assert (ok == r.ok, r.ok ? "valid references accepted" : "unresolvable references rejected");
  if (ok && r.ok)
    {
      check_model (v[0], m, r, false);
      vs_reach ("valid");
    }
  else
    {
      vs_assert (!err.empty (), "message");
      vs_reach ("invalid");
    }
}

// what is wrong with a definition
//@ c16_errors prop=C16 params=0..21 psteps=20000000
HARNESS (c16_errors)
{
  const int what = vs_param (0);
  const int at = vs_choose ("section", 0, 1);
  vector<Sec> m;
  for (int i = 0; i < 2; ++i)
    {
      m.push_back (section (i, 2, 0));
      m[i].res = arbitrary (1);
      m[i].lines.push_back (line (string ("L") + integer (i), 6));
    }
  Sec &s = m[at];
  if (what == 1)
    m[1].id = m[0].id;
  if (what == 2)
    m[1].lines[0].id = m[0].lines[0].id;
  if (what == 3)
    {
      s.lines.push_back (s.lines[0]); // twice in the same section
      s.lines.push_back (line ("L9", 6));
    }
  if (what == 4)
    s.lines[0].p.pop_back ();
  if (what == 5)
    s.lines[0].p.push_back (s.lines[0].p[0]);
  if (what == 6)
    s.lines[0].p[3].free = 7;
  if (what == 7)
    s.res.free = 2;
  if (what == 8)
    {
      s.a = 5000.0;
      s.b = 6000.0; // no data
    }
  files (m);
  if (what == 9)
    s.file = "missing.dat";
  if (what == 10)
    {
      ofstream os (s.file.c_str ());
      os << "1000 1 1\n1001 nan? 1\n";
    }
  if (what == 11)
    {
      ofstream os (s.file.c_str ());
      os << "\n";
    }
  string t = definition (m);
  // the parts of the definition
  const size_t open[] = { t.find ("{\n% id"), t.find ("{\n% id", t.find ("{\n% id") + 1) };
  const size_t close[] = { t.find ("\n}\n", open[0]), t.find ("\n}\n", open[1]) };
  const size_t head = t.find ("data", open[at]);
  if (what == 12)
    t.erase (open[at], 1); // no opening mark
  if (what == 13)
    t.erase (close[1] + 1, 1); // not closed
  if (what == 14)
    t = t.substr (0, open[0]); // no section
  if (what == 15)
    t.insert (head, "file "); // a word instead of a number
  if (what == 16)
    t.erase (head, t.find (' ', head) - head); // too few words
  if (what == 17)
    t.erase (t.find ("% the resolution", head), t.find ("  L", head) - t.find ("% the resolution", head)); // no resolution
  if (what == 18)
    t = t.substr (0, t.find ("  L", open[1])); // ends within a section
  if (what == 19)
    t = ""; // empty
  if (what == 20)
    t += "}\n"; // closed once more
  if (what == 21)
    t.insert (t.find ("\n", t.find ("  L", head)) + 1, "  oops 1 2 1\n");
  vector<especia::Model<Line<6> > > v;
  string echo, err;
  const bool ok = parse_into<6> (t, v, echo, err);
  if (what == 0)
    vs_assert (ok && err.empty (), "valid definition accepted");
  else
    {
      vs_assert (!ok, "invalid definition rejected");
      vs_assert (!err.empty (), "message");
    }
  vs_assert_text (echo, "<!DOCTYPE html>\n<html>\n<!--\n<model>\n" + t + "</model>\n-->\n</html>\n", "definition echoed");
  vs_reach ("end");
}

// which data take part: excluded intervals, terms of the continuum
//@ c16_data prop=C16,C17 params=0..1,0;2,0;3,0;1,1 tparams=0..3,0..2;4,0 psteps=40000000 time=200 num=60
HARNESS (c16_data)
{
  const int ni = vs_param (0), terms = vs_param (1), N = 4;
  vector<Sec> m;
  m.push_back (section (0, N, terms));
  m.push_back (section (1, 2, 0));
  Sec &s = m[0];
  s.a = vs_real ("from");
  s.b = vs_real ("to");
  if (ni > 0)
    {
      // a part of the file when there are no intervals, else all of it
      s.a = 1.0;
      s.b = 2000.0;
    }
  for (int i = 0; i < ni; ++i)
    {
      // arbitrary limits for the last two intervals, the other ones are single data
      const bool any = i >= ni - (terms > 0 ? 1 : 2);
      s.ex.push_back (any ? vs_real ("left") : s.x[i % N]);
      s.ex.push_back (any ? vs_real ("right") : s.x[i % N]);
    }
  files (m);
  vector<especia::Model<Line<6> > > v;
  string echo, err;
  const bool ok = parse_into<6> (definition (m), v, echo, err);
  vector<double> x, y, u;
  vector<bool> out;
  for (int k = 0; k < N; ++k)
    if (vs_decide (s.a <= s.x[k] && s.x[k] <= s.b))
      {
        x.push_back (s.x[k]);
        y.push_back (s.y[k]);
        u.push_back (s.u[k]);
        bool o = false;
        for (size_t j = 0; j < s.ex.size (); j += 2)
          o = o || (s.ex[j] <= s.x[k] && s.x[k] <= s.ex[j + 1]);
        out.push_back (vs_decide (o));
      }
  vs_assert (ok == !x.empty (), x.empty () ? "no data in the range rejected" : "definition accepted");
  if (!ok || x.empty ())
    {
      vs_reach ("nothing");
      return;
    }
  Section e (x.size (), &x[0], &y[0], &u[0]), f (2, &m[1].x[0], &m[1].y[0], &m[1].u[0]);
  int valid = 0;
  for (size_t k = 0; k < x.size (); ++k)
    if (out[k])
      e.mask (x[k], x[k]);
    else
      ++valid;
  vs_assume (valid > terms); // the table holds the cost per datum
  const double q = 0.0;
  const Superposition<Line<6> > none (0, &q);
  vs_assert_eq (v[0].cost (&q, 0), e.cost (none, 10.0, terms) + f.cost (none, 10.0, 0), "cost of the data that take part");
  v[0].set (&q, &q);
  ostringstream os;
  v[0].put (os);
  const Table t = table (os.str (), 0);
  vs_assert (t.rows.size () == 2, "a row for each section");
  vs_assert_text (cell (t, 0, "Data"), integer (valid), "number of data that take part");
  vs_assert_text (cell (t, 0, "Start"), shown (x[0], 2), "first of the data in the range");
  vs_assert_text (cell (t, 0, "End"), shown (x[x.size () - 1], 2), "last of the data in the range");
  vs_reach ("end");
}

// other marks
//@ c16_marks prop=C16
HARNESS (c16_marks)
{
  ofstream os ("data.dat");
  os.precision (17);
  const double y = vs_real ("flx");
  os << "1000 " << y << " 1\n1001 2 1\n";
  os.close ();
  ostringstream t;
  t.precision (17);
  const double lo = vs_real ("lower"), up = vs_real ("upper");
  vs_assume (lo < up);
  t << "! [ ]\n % { }\n[ S data.dat 0 2000 0 ! comment ]\n 1 " << lo << " " << up << " 1\n! ]\n]\n";
  istringstream is (t.str ());
  ostringstream echo;
  Silent s;
  bool ok = true;
  try
    {
      const especia::Model<Line<6> > m = especia::Model<Line<6> >::parse (is, echo, '!', '[', ']');
      vs_assert_word (m.get_parameter_count (), 1, "number of parameters");
      vs_assert_eq (2.0 * m.get_initial_parameter_values ()[0], lo + up, "initial value");
    }
  catch (runtime_error &)
    {
      ok = false;
    }
  vs_assert (ok, "definition with other marks accepted");
  vs_reach ("end");
}

// ---------------------------------------------------------------- cost, set
// parameters of the lines are fixed, free or references; number of sections,
// continuum terms, pattern, free resolution
//@ c17_cost prop=C17 params=1,0,0,0;2,0,0..1,0;2,1,2,0;2,0,3,1 tparams=1..2,0..1,0..5,0..1;3,0,0..3,0 time=200 num=60
HARNESS (c17_cost)
{
  const int ns = vs_param (0), terms = vs_param (1), pattern = vs_param (2);
  const int P = 6;
  vector<Sec> m;
  int k = 0;
  for (int i = 0; i < ns; ++i)
    {
      Sec s = section (i, 3, terms);
      s.res = number (10.0, vs_param (3));
      if (i > 0 && vs_param (3) && pattern % 2)
        s.res.ref = "S0";
      if (i == 0 && pattern > 1)
        {
          s.ex.push_back (s.x[1]);
          s.ex.push_back (s.x[1]);
          if (pattern > 2)
            {
              s.ex.push_back (s.x[2]);
              s.ex.push_back (s.x[2] + 0.5);
            }
        }
      for (int j = 0; j < (i == 0 ? 2 : 1); ++j)
        {
          Profile l;
          l.id = string ("L") + integer (i) + integer (j);
          for (int q = 0; q < P; ++q, ++k)
            {
              l.p.push_back (arbitrary ((k * (pattern + 1) + k / 5) % 3 == 1));
              if ((i > 0 || j > 0) && (k + pattern) % 4 == 0)
                l.p[q].ref = "L00";
            }
          s.lines.push_back (l);
        }
      m.push_back (s);
    }
  files (m);
  vector<especia::Model<Line<P> > > v;
  string echo, err;
  const bool ok = parse_into<P> (definition (m), v, echo, err);
  vs_assert (ok, "valid definition accepted");
  if (!ok)
    return;
  const Resolved r = resolve (m);
  vector<double> x (r.n), u (r.n);
  for (int i = 0; i < r.n; ++i)
    {
      x[i] = vs_real ("x");
      u[i] = vs_real ("u");
    }
  // resolutions are given here
  static const double R[] = { 9.5, 10.5, 11.0 };
  for (int i = 0; i < ns; ++i)
    if (r.all[r.isc[i]].slot >= 0)
      x[r.all[r.isc[i]].slot] = R[i];
  double sum = 0.0, each[3];
  vector<vector<double> > q (ns);
  for (int i = 0; i < ns; ++i)
    {
      const int nl = int (m[i].lines.size ());
      for (int j = 0; j < nl * P; ++j)
        q[i].push_back (value (r, r.isc[i] + 1 + j, &x[0]));
      Section s (m[i].x.size (), &m[i].x[0], &m[i].y[0], &m[i].u[0]);
      for (size_t j = 0; j < m[i].ex.size (); j += 2)
        s.mask (m[i].ex[j], m[i].ex[j + 1]);
      each[i] = s.cost (Superposition<Line<P> > (nl, &q[i][0]), value (r, r.isc[i], &x[0]), terms);
      sum += each[i];
    }
  const especia::Model<Line<P> > &c = v[0];
  vs_assert_eq (c.cost (&x[0], r.n), sum, "cost");
  vs_assert_eq (c (&x[0], r.n), sum, "cost");
  // setting the result
  especia::Model<Line<P> > model = v[0];
  model.set (&x[0], &u[0]);
  check_table (model, m, r, x, u);
  ostringstream os;
  model.put (os);
  const Table t = table (os.str (), 0);
  for (int i = 0; i < ns; ++i)
    vs_assert_text (cell (t, i, "Cost"), shown (each[i], 2), "cost of a section");
  // setting again replaces everything
  vector<double> w (r.n, 0.0);
  for (int i = 0; i < r.n; ++i)
    w[i] = vs_real ("w");
  for (int i = 0; i < ns; ++i)
    if (r.all[r.isc[i]].slot >= 0)
      w[r.all[r.isc[i]].slot] = 10.0;
  model.set (&w[0], &x[0]);
  check_table (model, m, r, w, x);
  vs_assert_eq (model.cost (&x[0], r.n), sum, "cost does not depend on what is set");
  vs_reach ("end");
}

// -------------------------------------------------------------------- table
template <int P>
static void
result (int ns, int nl, int pattern)
{
  absorbs = true;
  vector<Sec> m;
  int k = 0;
  for (int i = 0; i < ns; ++i)
    {
      Sec s = section (ns - 1 - i, 3, pattern % 2);
      s.res = number (10.0 + i, (i + pattern) % 2);
      if (i == 0)
        {
          s.ex.push_back (s.x[2]);
          s.ex.push_back (s.x[2] + 1.0);
        }
      for (int j = 0; j < nl; ++j)
        {
          Profile l;
          l.id = string ("L") + integer (i) + integer (j);
          for (int q = 0; q < P; ++q, ++k)
            {
              l.p.push_back (arbitrary (pattern == 4 ? q == 2 || q == 3 : (k * (pattern + 1) + k / 5) % 3 == 1));
              if (q == 0)
                l.p[q].v = vs_positive ("wavelength");
              if ((i > 0 || j > 0) && (k + pattern) % 5 == 0)
                l.p[q].ref = "L00";
            }
          s.lines.push_back (l);
        }
      m.push_back (s);
    }
  files (m);
  vector<especia::Model<Line<P> > > v;
  string echo, err;
  const bool ok = parse_into<P> (definition (m), v, echo, err);
  vs_assert (ok, "valid definition accepted");
  if (!ok)
    return;
  const Resolved r = resolve (m);
  vector<double> x (r.n), u (r.n);
  for (int i = 0; i < r.n; ++i)
    {
      x[i] = vs_real ("x");
      u[i] = vs_real ("u");
    }
  for (int i = 0; i < ns; ++i)
    if (r.all[r.isc[i]].slot >= 0)
      x[r.all[r.isc[i]].slot] = 12.0;
  especia::Model<Line<P> > model = v[0];
  model.set (&x[0], &u[0]);
  check_table (model, m, r, x, u);
  ostringstream os;
  os << hex;
  const ios_base::fmtflags flags = os.flags ();
  os << dec;
  model.put (os);
  const string t = os.str ();
  const Table s = table (t, 0), l = table (t, 1);
  const double c = 299792.458;
  const especia::Equivalent_Width_Calculator<especia::Integrator<double> > calculator;
  string data;
  for (int i = 0; i < ns; ++i)
    {
      size_t row = 0;
      while (row < s.rows.size () && cell (s, row, "Section") != m[i].id)
        ++row;
      const int valid = i == 0 ? 2 : 3;
      vector<double> q;
      for (int j = 0; j < nl * P; ++j)
        q.push_back (value (r, r.isc[i] + 1 + j, &x[0]));
      Section e (3, &m[i].x[0], &m[i].y[0], &m[i].u[0]);
      for (size_t j = 0; j < m[i].ex.size (); j += 2)
        e.mask (m[i].ex[j], m[i].ex[j + 1]);
      q.push_back (0.0);
      e.apply (m[i].terms, value (r, r.isc[i], &x[0]), Superposition<Line<P> > (nl, &q[0]));
      const double cost = e.cost ();
      ostringstream es;
      es << e;
      data += (i ? "\n" : "") + es.str ();
      vs_assert_text (cell (s, row, "Start"), shown (m[i].x[0], 2), "start wavelength");
      vs_assert_text (cell (s, row, "End"), shown (m[i].x[2], 2), "end wavelength");
      vs_assert_text (cell (s, row, "Legendre"), integer (m[i].terms), "continuum terms");
      vs_assert_text (cell (s, row, "Data"), integer (valid), "number of valid data");
      vs_assert_text (cell (s, row, "Cost"), shown (cost, 2), "cost");
      vs_assert_text (cell (s, row, "Cost per"), shown (cost / valid, 2), "cost per datum");
      for (int j = 0; j < nl; ++j)
        {
          row = 0;
          while (row < l.rows.size () && cell (l, row, "Line") != m[i].lines[j].id)
            ++row;
          const double *p = &q[j * P];
          const string w = cell (l, row, "Observed");
          const size_t at = w.find (" &plusmn; ");
          vs_assert (at != string::npos, "observed wavelength with uncertainty");
          if (at != string::npos)
            {
              vs_assert_text (w.substr (0, at), shown (p[0] * (1.0 + p[2]) * (1.0 + p[3] / c), 4), "observed wavelength");
              const int k = r.isc[i] + 1 + j * P;
              const int kx = r.all[k].slot, kz = r.all[k + 2].slot, kv = r.all[k + 3].slot;
              const double dz = kz < 0 ? 0.0 : u[kz], dv = kv < 0 ? 0.0 : u[kv];
              const double ez = (1.0 + p[3] / c) * dz, ev = (1.0 + p[2]) * dv / c;
              if (kx < 0)
                vs_assert_text (w.substr (at + 10), shown (p[0] * sqrt (ez * ez + ev * ev), 4),
                                "uncertainty of the observed wavelength");
            }
          vs_assert_text (cell (l, row, "Equivalent"), shown (calculator.calculate (Line<P> (p), 1.0E-03), 3),
                          "equivalent width");
        }
    }
  const size_t a = t.find ("<data>\n"), b = t.find ("</data>\n");
  vs_assert (a != string::npos && b != string::npos, "data are embedded");
  if (a != string::npos && b != string::npos)
    vs_assert_text (t.substr (a + 7, b - a - 7), data, "data are embedded");
  (void)flags;
  vs_reach ("end");
}

// sections, lines of each, pattern
//@ c31_table prop=C31 params=1,1,0;2,1,1..2;1,2,3;2,0,1;1,1,4 tparams=1..3,0..2,0..4 time=200 num=60
HARNESS (c31_table)
{
  result<6> (vs_param (0), vs_param (1), vs_param (2));
}

//@ c31_many prop=C31 params=1,1,0;2,1,1;1,2,4 tparams=1..2,1..2,0..4 time=200 num=60
HARNESS (c31_many)
{
  result<8> (vs_param (0), vs_param (1), vs_param (2));
}
