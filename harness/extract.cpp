//# C27
// The tools that extract a part of a result: all texts of a number of lines.
#include "vs_std.h"
using namespace std;
namespace app_ecom
{
#include "apps/ecom.cxx"
}
namespace app_edat
{
#include "apps/edat.cxx"
}
namespace app_elog
{
#include "apps/elog.cxx"
}
namespace app_emes
{
#include "apps/emes.cxx"
}
namespace app_emod
{
#include "apps/emod.cxx"
}
#include "vs.h"

// tool, name of its part, names of the part in former versions
struct Tool
{
  const char *name[3];
};
static const Tool TOOLS[] = { { { "command", 0, 0 } },
                              { { "data", 0, 0 } },
                              { { "log", 0, 0 } },
                              { { "message", "mesg", 0 } },
                              { { "model", "job", "input" } } };

static int
program (int tool)
{
  switch (tool)
    {
    case 0:
      return app_ecom::main ();
    case 1:
      return app_edat::main ();
    case 2:
      return app_elog::main ();
    case 3:
      return app_emes::main ();
    }
  return app_emod::main ();
}

static int
run (int tool, const string &in, string &out)
{
  istringstream is (in);
  ostringstream os, es;
  streambuf *i = cin.rdbuf (is.rdbuf ()), *o = cout.rdbuf (os.rdbuf ()), *e = cerr.rdbuf (es.rdbuf ());
  cin.clear ();
  cout.clear ();
  const int code = program (tool);
  cin.rdbuf (i);
  cout.rdbuf (o);
  cerr.rdbuf (e);
  out = os.str ();
  return code;
}

static bool
same (const string &s, const string &t)
{
  if (s.size () != t.size ())
    return false;
  bool b = true;
  for (size_t i = 0; i < s.size (); ++i)
    b &= s[i] == t[i];
  return vs_decide (b);
}

static bool
tag (const string &s, const Tool &t, const char *before)
{
  for (int i = 0; i < 3; ++i)
    if (t.name[i] && same (s, before + string (t.name[i]) + ">"))
      return true;
  return false;
}

static void
same_text (const string &a, const string &b, const char *label)
{
  vs_assert (a.size () == b.size (), label);
  for (size_t i = 0; i < a.size () && i < b.size (); ++i)
    vs_assert (a[i] == b[i], label);
}

// the lines of a part
static string
expected (const vector<string> &lines, const Tool &t)
{
  string s;
  bool found = false;
  for (size_t i = 0; i < lines.size (); ++i)
    {
      if (!found)
        found = tag (lines[i], t, "<");
      else if (tag (lines[i], t, "</"))
        found = false;
      else
        s += lines[i] + "\n";
    }
  return s;
}

static string
arbitrary_line (size_t n)
{
  string s;
  for (size_t i = 0; i < n; ++i)
    {
      const uint64_t c = vs_word ("character", 8);
      vs_assume (c != '\n' && c != 27);
      s.push_back (char (c));
    }
  return s;
}

static void
check (int tool, const vector<string> &lines, bool eol)
{
  string in;
  for (size_t i = 0; i < lines.size (); ++i)
    in += lines[i] + (i + 1 < lines.size () || eol ? "\n" : "");
  string out;
  const int code = run (tool, in, out);
  vs_assert (code == 0, "succeeds");
  same_text (out, expected (lines, TOOLS[tool]), "the lines of the part");
  vs_reach ("end");
}

// Lines of arbitrary characters, as long as the tags: tool, lines, last line
// complete.
//@ c27_lines prop=C27 params=0..2,0..3,1;3..4,0..2,1;0..4,2,0 tparams=0..2,4,1;3,3,1;4,3,1;0..2,3,0 conc=64 paths=200000 time=200
HARNESS (c27_lines)
{
  const int tool = int (vs_param (0)), n = int (vs_param (1));
  const bool eol = vs_param (2);
  vector<size_t> lengths (1, 0);
  for (int i = 0; i < 3; ++i)
    if (TOOLS[tool].name[i])
      for (size_t k = 2; k < 4; ++k)
        if (find (lengths.begin (), lengths.end (), string (TOOLS[tool].name[i]).size () + k) == lengths.end ())
          lengths.push_back (string (TOOLS[tool].name[i]).size () + k);
  vector<string> lines;
  for (int i = 0; i < n; ++i)
    lines.push_back (arbitrary_line (lengths[vs_choose ("length", 0, int (lengths.size ()) - 1)]));
  if (!eol && n > 0)
    vs_assume (!lines[n - 1].empty ());
  check (tool, lines, eol);
}

// Sequences of tags, near-tags and text: tool, lines.
//@ c27_tags prop=C27 params=0..4,4 tparams=0..4,5..6 conc=64 paths=200000 time=200
HARNESS (c27_tags)
{
  const int tool = int (vs_param (0)), n = int (vs_param (1));
  const Tool &t = TOOLS[tool];
  vector<string> lines;
  for (int i = 0; i < n; ++i)
    {
      const int k = int (vs_choose ("kind", 0, 4));
      const string name = t.name[0];
      if (k == 0)
        lines.push_back ("<" + name + ">");
      else if (k == 1)
        lines.push_back ("</" + name + ">");
      else if (k == 2)
        lines.push_back (arbitrary_line (1) + "<" + name + ">"); // not a tag
      else if (k == 3)
        lines.push_back ("</" + name + ">" + arbitrary_line (1)); // not a tag
      else
        lines.push_back (arbitrary_line (2));
    }
  check (tool, lines, true);
}
