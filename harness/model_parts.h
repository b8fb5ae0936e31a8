// Model definitions for the harnesses: a writer, an independent resolution of
// references and masks, and readers of the result table.
#ifndef MODEL_PARTS_H
#define MODEL_PARTS_H
#include "vs_std.h"
using namespace std;
#include "core/model.h"
#include "core/profiles.cxx"
#include "core/readline.cxx"
#include "core/section.cxx"
#include "vs.h"
#include "vs_text.h"
using especia::natural;
using especia::Section;
using especia::Superposition;

// A line whose optical depth is an arbitrary function of wavelength and
// parameters in the optical range, and known near zero (where the equivalent
// width is integrated).
static bool absorbs = false;

template <int P> class Line
{
public:
  explicit Line (const double q[])
  {
    for (int i = 0; i < P; ++i)
      p[i] = q[i];
  }
  double
  operator() (const double &x) const
  {
    if (x < 200.0)
      return absorbs ? exp (-x) : 0.0;
    double a[P + 1];
    a[0] = x;
    for (int i = 0; i < P; ++i)
      a[i + 1] = p[i];
    return vs_uf ("tau", P + 1, a);
  }
  double
  center () const
  {
    return 0.0;
  }
  double
  redshift_factor () const
  {
    return 1.0 + p[2];
  }
  static natural
  parameter_count ()
  {
    return P;
  }

private:
  double p[P];
};

struct Spec
{
  double v, lo, up;
  int free;
  string ref;
};

struct Profile
{
  string id;
  vector<Spec> p;
};

struct Sec
{
  string id, file;
  double a, b;
  int terms;
  vector<double> x, y, u; // data of the file
  vector<double> ex; // limits of the excluded intervals
  Spec res;
  vector<Profile> lines;
};

static string
integer (int k)
{
  char b[12];
  int n = 0;
  do
    b[n++] = char ('0' + k % 10);
  while ((k /= 10) > 0);
  string s;
  while (n > 0)
    s.push_back (b[--n]);
  return s;
}

static Spec
arbitrary (int free, bool ordered = true)
{
  Spec s;
  s.v = vs_real ("value");
  s.lo = vs_real ("lower");
  s.up = vs_real ("upper");
  s.free = free;
  if (ordered)
    vs_assume (s.lo <= s.up);
  return s;
}

static Spec
number (double v, int free)
{
  Spec s;
  s.v = v;
  s.lo = v - 1.0;
  s.up = v + 1.0;
  s.free = free;
  return s;
}

static Sec
section (int k, int n, int terms)
{
  Sec s;
  s.id = string ("S") + integer (k);
  s.file = "data" + integer (k) + ".dat";
  s.a = 0.0;
  s.b = 1.0e+05;
  s.terms = terms;
  for (int i = 0; i < n; ++i)
    {
      s.x.push_back (999.0 + 10.0 * k + i);
      s.y.push_back (vs_real ("flx"));
      s.u.push_back (vs_real ("unc"));
      vs_assume (s.u[i] > 0.0);
    }
  s.res = number (10.0, 0);
  return s;
}

static Profile
line (const string &id, int P)
{
  Profile l;
  l.id = id;
  for (int i = 0; i < P; ++i)
    l.p.push_back (arbitrary (0));
  return l;
}

static void
write (ostream &os, const Spec &s)
{
  os << "  " << s.v << "  " << s.lo << " " << s.up << "\t" << s.free;
  if (!s.ref.empty ())
    os << "  " << s.ref;
  os << "\n";
}

static string
definition (const vector<Sec> &m)
{
  ostringstream os;
  os.precision (17);
  os << "# A model\n\nText } about the model\n" + string (m.empty () ? "" : "% } { }\n");
  string t = "# A model\n\n% text } {\n```\n";
  ostringstream body;
  body.precision (17);
  for (size_t i = 0; i < m.size (); ++i)
    {
      const Sec &s = m[i];
      body << "{\n% id file\n  " << s.id << " " << s.file << "  " << s.a << " " << s.b << " " << integer (s.terms);
      for (size_t i = 0; i < s.ex.size (); i += 2)
        body << "  " << s.ex[i] << " " << s.ex[i + 1];
      body << "\n\n   % the resolution }\n";
      write (body, s.res);
      for (size_t j = 0; j < s.lines.size (); ++j)
        {
          body << "  " << s.lines[j].id << " % a line {\n";
          for (size_t k = 0; k < s.lines[j].p.size (); ++k)
            write (body, s.lines[j].p[k]);
        }
      body << "}\nmore text\n";
    }
  return t + body.str () + "```\n";
}

static void
files (const vector<Sec> &m)
{
  for (size_t i = 0; i < m.size (); ++i)
    {
      ofstream os (m[i].file.c_str ());
      os.precision (17);
      for (size_t k = 0; k < m[i].x.size (); ++k)
        os << m[i].x[k] << " " << m[i].y[k] << " " << m[i].u[k] << "\n";
    }
}

// a parameter after references have been followed
struct Par
{
  const Spec *spec; // the specification that counts
  int slot;         // its component, or -1
};

struct Resolved
{
  bool ok;
  int n;                     // number of components
  vector<Par> all;           // in order of appearance
  vector<int> isc;           // first parameter of each section
  vector<const Spec *> free; // specification of each component
};

static Resolved
resolve (const vector<Sec> &m)
{
  Resolved r;
  r.ok = true;
  r.n = 0;
  vector<const Spec *> own;
  vector<int> line_start, component;
  vector<string> line_name;
  vector<int> of_line; // 0 for a resolution, else position in the line + 1
  for (size_t i = 0; i < m.size (); ++i)
    {
      r.isc.push_back (int (own.size ()));
      own.push_back (&m[i].res);
      of_line.push_back (0);
      for (size_t j = 0; j < m[i].lines.size (); ++j)
        {
          line_start.push_back (int (own.size ()));
          line_name.push_back (m[i].lines[j].id);
          for (size_t k = 0; k < m[i].lines[j].p.size (); ++k)
            {
              own.push_back (&m[i].lines[j].p[k]);
              of_line.push_back (int (k) + 1);
            }
        }
    }
  for (size_t i = 0; i < own.size (); ++i)
    if (own[i]->free && own[i]->ref.empty ())
      {
        component.push_back (r.n++);
        r.free.push_back (own[i]);
      }
    else
      component.push_back (-1);
  for (size_t i = 0; i < own.size (); ++i)
    {
      size_t at = i;
      size_t links = 0;
      while (!own[at]->ref.empty ())
        {
          int to = -1;
          if (of_line[i] == 0)
            {
              for (size_t k = 0; k < m.size (); ++k)
                if (m[k].id == own[at]->ref)
                  to = r.isc[k];
            }
          else
            for (size_t k = 0; k < line_name.size (); ++k)
              if (line_name[k] == own[at]->ref)
                to = line_start[k] + of_line[i] - 1;
          if (to < 0 || ++links > own.size ())
            {
              r.ok = false;
              return r;
            }
          at = to;
        }
      Par p;
      p.spec = own[at];
      p.slot = component[at];
      r.all.push_back (p);
    }
  return r;
}

struct Silent
{
  ostringstream es;
  streambuf *e;
  Silent () : e (cerr.rdbuf (es.rdbuf ())) {}
  ~Silent () { cerr.rdbuf (e); }
};

// ------------------------------------------------------------ result table
struct Table
{
  vector<string> head;
  vector<vector<string> > rows;
};

static vector<string>
cells (const string &t, size_t from, size_t to)
{
  vector<string> v;
  for (;;)
    {
      const size_t i = t.find ("<td>", from);
      if (i == string::npos || i >= to)
        return v;
      const size_t j = t.find ("</td>", i);
      if (j == string::npos)
        return v;
      v.push_back (t.substr (i + 4, j - i - 4));
      from = j;
    }
}

static Table
table (const string &t, int which)
{
  Table r;
  size_t a = 0;
  for (int k = 0; k <= which; ++k)
    {
      a = t.find ("<table", a ? a + 1 : 0);
      if (a == string::npos)
        return r;
    }
  const size_t b = t.find ("</table>", a);
  size_t i = a;
  bool first = true;
  while ((i = t.find ("<tr>", i)) != string::npos && i < b)
    {
      const size_t j = t.find ("</tr>", i);
      if (first)
        r.head = cells (t, i, j);
      else
        r.rows.push_back (cells (t, i, j));
      first = false;
      i = j;
    }
  return r;
}

static string
strip (const string &s)
{
  string r;
  for (size_t i = 0; i < s.size (); ++i)
    if (s[i] == '<')
      while (i < s.size () && s[i] != '>')
        ++i;
    else
      r.push_back (s[i]);
  return r;
}

// the cell of a row below the heading that starts with a word
static string
cell (const Table &t, size_t row, const string &word)
{
  for (size_t i = 0; i < t.head.size (); ++i)
    if (strip (t.head[i]).compare (0, word.size (), word) == 0)
      {
        if (row < t.rows.size () && i < t.rows[row].size ())
          return strip (t.rows[row][i]);
        break;
      }
  return "no such cell";
}

static string
shown (double v, int precision, bool scientific = false)
{
  ostringstream os;
  os.setf (scientific ? ios_base::scientific : ios_base::fixed, ios_base::floatfield);
  os.setf (ios_base::left, ios_base::adjustfield);
  os.precision (precision);
  os << v;
  return os.str ();
}

static string
shown (const Resolved &r, int k, const vector<double> &x, const vector<double> &u, int precision, bool scientific = false)
{
  const Par &p = r.all[k];
  if (p.slot < 0)
    return shown (p.spec->v, precision, scientific);
  return shown (x[p.slot], precision, scientific) + " &plusmn; " + shown (u[p.slot], precision, scientific);
}

static double
value (const Resolved &r, int k, const double x[])
{
  return r.all[k].slot < 0 ? r.all[k].spec->v : x[r.all[k].slot];
}

// the parameter columns of the result table
template <int P>
static void
check_table (const especia::Model<Line<P> > &model, const vector<Sec> &m, const Resolved &r, const vector<double> &x,
             const vector<double> &u)
{
  ostringstream os;
  model.put (os);
  const Table s = table (os.str (), 0), l = table (os.str (), 1);
  vs_assert (s.rows.size () == m.size (), "a row for each section");
  size_t n = 0;
  for (size_t i = 0; i < m.size (); ++i)
    {
      size_t row = 0;
      while (row < s.rows.size () && cell (s, row, "Section") != m[i].id)
        ++row;
      vs_assert (row < s.rows.size (), "a row for each section");
      vs_assert_text (cell (s, row, "Resolution"), shown (r, r.isc[i], x, u, 2), "resolution");
      int at = r.isc[i] + 1;
      for (size_t j = 0; j < m[i].lines.size (); ++j, at += P, ++n)
        {
          row = 0;
          while (row < l.rows.size () && cell (l, row, "Line") != m[i].lines[j].id)
            ++row;
          vs_assert (row < l.rows.size (), "a row for each line");
          vs_assert_text (cell (l, row, "Rest"), shown (r, at, x, u, 4), "rest wavelength");
          vs_assert_text (cell (l, row, "Oscillator"), shown (r, at + 1, x, u, 3, true), "oscillator strength");
          vs_assert_text (cell (l, row, "Redshift"), shown (r, at + 2, x, u, 7), "redshift");
          vs_assert_text (cell (l, row, "Radial"), shown (r, at + 3, x, u, 3), "radial velocity");
          vs_assert_text (cell (l, row, "Broadening"), shown (r, at + 4, x, u, 3), "broadening velocity");
          vs_assert_text (cell (l, row, "Log. Column"), shown (r, at + 5, x, u, 3), "column density");
          if (P == 8)
            vs_assert_text (cell (l, row, "&Delta;&alpha;"), shown (r, at + 7, x, u, 3), "variation");
        }
    }
  vs_assert (l.rows.size () == n, "a row for each line");
}

// components, constraint and values of a parsed model
template <int P>
static void
check_model (const especia::Model<Line<P> > &parsed, const vector<Sec> &m, const Resolved &r, bool constrain)
{
  especia::Model<Line<P> > model = parsed;
  vs_assert_word (model.get_parameter_count (), r.n, "number of free parameters");
  const valarray<double> x0 = model.get_initial_parameter_values (), z0 = model.get_initial_local_step_sizes ();
  vs_assert (int (x0.size ()) == r.n && int (z0.size ()) == r.n, "number of free parameters");
  if (int (x0.size ()) != r.n || int (z0.size ()) != r.n)
    return;
  vector<double> x (r.n), u (r.n);
  for (int i = 0; i < r.n; ++i)
    {
      const bool ordered = vs_decide (r.free[i]->lo <= r.free[i]->up);
      const double a = ordered ? r.free[i]->lo : r.free[i]->up, b = ordered ? r.free[i]->up : r.free[i]->lo;
      vs_assert_eq (2.0 * x0[i], a + b, "initial value");
      vs_assert_eq (2.0 * z0[i], b - a, "initial step size");
      x[i] = vs_real ("x");
      u[i] = vs_real ("u");
    }
  if (constrain)
    {
      bool outside = false;
      for (int i = 0; i < r.n; ++i)
        {
          const bool ordered = vs_decide (r.free[i]->lo <= r.free[i]->up);
          const double a = ordered ? r.free[i]->lo : r.free[i]->up, b = ordered ? r.free[i]->up : r.free[i]->lo;
          if (vs_decide (x[i] < a) || vs_decide (x[i] > b))
            {
              outside = true;
              break;
            }
        }
      vs_assert (model.get_constraint ().is_violated (&x[0], r.n) == outside, "constraint");
      vs_assert_eq (model.get_constraint ().cost (&x[0], r.n), 0.0, "no cost within the bounds");
    }
  model.set (&x[0], &u[0]);
  check_table (model, m, r, x, u);
}

template <int P>
static bool
parse_into (const string &t, vector<especia::Model<Line<P> > > &v, string &echo, string &err)
{
  istringstream is (t);
  ostringstream os;
  Silent s;
  bool ok = true;
  try
    {
      v.push_back (especia::Model<Line<P> >::parse (is, os));
    }
  catch (runtime_error &)
    {
      ok = false;
    }
  echo = os.str ();
  err = s.es.str ();
  return ok;
}
#endif
