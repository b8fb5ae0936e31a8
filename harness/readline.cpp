//# C30
// Reading of model definition text: comments, blank lines, parameter groups.
#include "vs_std.h"
using namespace std;
#include "core/readline.h"
#include "core/readline.cxx"
#include "vs.h"

static bool
blank (char c)
{
  return c == ' ' || c == '\t' || c == '\n' || c == '\v' || c == '\f' || c == '\r';
}

// arbitrary text of n characters
//@ c30_readline params=0..4 tparams=0..5 paths=400000 steps=400000000
HARNESS (c30_readline)
{
  const int n = vs_param (0);
  string t;
  for (int i = 0; i < n; ++i)
    {
      const unsigned w = unsigned (vs_word ("c", 8));
      vs_assume (w != 27 && w < 128);
      t.push_back (char (w));
    }
  istringstream is (t);
  // two successive lines
  size_t pos = 0;
  bool ended = false; // the end of the text was hit
  for (int k = 0; k < 2; ++k)
    {
      string s ("left over");
      especia::readline (is, s, '%');
      bool ok = false;
      string e;
      while (!ended && !ok)
        {
          if (pos >= t.size ())
            {
              ended = true;
              break;
            }
          string line;
          bool eol = false;
          while (pos < t.size () && !eol)
            {
              if (vs_decide (t[pos] == '\n'))
                eol = true;
              else
                line.push_back (t[pos]);
              ++pos;
            }
          if (!eol)
            ended = true;
          e.clear ();
          for (size_t i = 0; i < line.size (); ++i)
            {
              if (vs_decide (line[i] == '%'))
                break;
              e.push_back (line[i]);
              if (vs_decide (!blank (line[i])))
                ok = true;
            }
        }
      vs_assert (bool (is) == ok, "a line that is not blank is found");
      if (ok && is)
        {
          vs_assert (s.size () == e.size (), "text before the comment");
          if (s.size () == e.size ())
            for (size_t i = 0; i < e.size (); ++i)
              vs_assert_word ((unsigned char)s[i], (unsigned char)e[i], "text before the comment");
        }
    }
  vs_reach ("end");
}

// without a comment mark every line is passed unchanged
//@ c30_plain params=0..3 tparams=0..5 paths=200000
HARNESS (c30_plain)
{
  const int n = vs_param (0);
  string t;
  for (int i = 0; i < n; ++i)
    {
      const unsigned w = unsigned (vs_word ("c", 8));
      vs_assume (w != 27 && w != 0 && w < 128);
      t.push_back (char (w));
    }
  istringstream is (t);
  string s;
  especia::readline (is, s);
  string e;
  for (int i = 0; i < n; ++i)
    {
      if (vs_decide (t[i] == '\n'))
        break;
      e.push_back (t[i]);
    }
  vs_assert (bool (is) == (n > 0), "a line is found");
  if (n > 0)
    {
      vs_assert (s.size () == e.size (), "unchanged line");
      if (s.size () == e.size ())
        for (size_t i = 0; i < e.size (); ++i)
          vs_assert_word ((unsigned char)s[i], (unsigned char)e[i], "unchanged line");
    }
  vs_reach ("end");
}

// other end of line and comment marks
//@ c30_marks
HARNESS (c30_marks)
{
  istringstream is (" ;#x;a b#c;  ; d");
  string s;
  especia::readline (is, s, '#', ';');
  vs_assert (bool (is) && s == "a b", "comment");
  especia::readline (is, s, '#', ';');
  vs_assert (bool (is) && s == " d", "last line");
  especia::readline (is, s, '#', ';');
  vs_assert (!is, "end");
  vs_reach ("end");
}

struct Text
{
  vector<vector<double> > v;
  int good; // complete rows
  string s;
};

// rows of k numbers, some of them not a number
static Text
text (int rows, int k)
{
  Text t;
  ostringstream os;
  os.precision (17);
  t.good = 0;
  bool fine = true;
  for (int i = 0; i < rows; ++i)
    {
      vector<double> r;
      for (int j = 0; j < k; ++j)
        {
          const bool b = vs_choose ("bad", 0, 1);
          const double x = vs_real ("x");
          if (b)
            os << "x ";
          else
            os << x << (j % 2 ? "\n" : " ");
          r.push_back (x);
          fine = fine && !b;
        }
      if (fine)
        ++t.good;
      t.v.push_back (r);
    }
  t.s = os.str ();
  return t;
}

static void
same (const vector<double> &a, const Text &t, int j, int n, bool ok, bool append)
{
  const double old[] = { 0.5, 1.5 };
  vector<double> e;
  if (!ok || append)
    e.assign (old, old + 2);
  if (ok)
    for (int i = 0; i < n; ++i)
      e.push_back (t.v[i][j]);
  vs_assert (a.size () == e.size (), "number of values");
  if (a.size () == e.size ())
    for (size_t i = 0; i < e.size (); ++i)
      vs_assert_eq (a[i], e[i], "values");
}

// columns, rows requested, rows present
//@ c30_read params=1..3,0..2,0..2;4..5,0..1,0..1;4..5,1,2 conc=4096 paths=200000
HARNESS (c30_read)
{
  const int k = vs_param (0), n = vs_param (1);
  const Text t = text (vs_param (2), k);
  const bool append = vs_choose ("append", 0, 1);
  istringstream is (t.s);
  vector<double> a (2), b, c, d, e;
  a[0] = 0.5;
  a[1] = 1.5;
  b = c = d = e = a;
  if (k == 1)
    especia::read (is, a, n, append);
  else if (k == 2)
    especia::read (is, a, b, n, append);
  else if (k == 3)
    especia::read (is, a, b, c, n, append);
  else if (k == 4)
    especia::read (is, a, b, c, d, n, append);
  else
    especia::read (is, a, b, c, d, e, n, append);
  const bool ok = t.good >= n;
  vs_assert (bool (is) == ok, "stream state");
  vector<double> *p[] = { &a, &b, &c, &d, &e };
  for (int j = 0; j < k; ++j)
    same (*p[j], t, j, n, ok, append);
  vs_reach ("end");
}

// four values and an optional word
//@ c30_words params=0..2,0..2 conc=4096 paths=200000
HARNESS (c30_words)
{
  const int n = vs_param (0), m = vs_param (1);
  const bool append = vs_choose ("append", 0, 1);
  ostringstream os;
  os.precision (17);
  Text t;
  t.good = 0;
  bool fine = true;
  vector<string> w;
  for (int i = 0; i < m; ++i)
    {
      const int kind = vs_choose ("kind", 0, 4);
      vector<double> r;
      for (int j = 0; j < 4; ++j)
        {
          r.push_back (vs_real ("x"));
          if (kind == 4 && j == 3)
            os << "x";
          else
            os << r[j] << (j < 3 ? " " : "");
        }
      os << (kind == 1 ? "  word" : kind == 2 ? "\tword more" : kind == 3 ? "   " : "") << "\n";
      w.push_back (kind == 1 || kind == 2 ? "word" : "");
      fine = fine && kind != 4;
      if (fine)
        ++t.good;
      t.v.push_back (r);
    }
  istringstream is (os.str ());
  vector<double> a (2), b, c, d;
  a[0] = 0.5;
  a[1] = 1.5;
  b = c = d = a;
  vector<string> s (2, "old"), e (2, "old");
  especia::read (is, a, b, c, d, s, n, '\n', append);
  const bool ok = t.good >= n;
  vs_assert (bool (is) == ok, "stream state");
  same (a, t, 0, n, ok, append);
  same (b, t, 1, n, ok, append);
  same (c, t, 2, n, ok, append);
  same (d, t, 3, n, ok, append);
  if (ok && !append)
    e.clear ();
  if (ok)
    e.insert (e.end (), w.begin (), w.begin () + n);
  vs_assert (s == e, "words");
  vs_reach ("end");
}
