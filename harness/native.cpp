// Native side of the harness intrinsics: replays recorded inputs on the real
// code.  Usage: prog HARNESS INPUTFILE SEED PARAMS...
#include "vs.h"
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <sstream>
#include <string>
#include <vector>
#include <dlfcn.h>
#include <unistd.h>

static std::map<std::string, std::string> inputs;
static std::map<std::string, int> counts;
static std::vector<long> params;
static unsigned long long rng = 88172645463325252ULL;
static bool randomise = false;
static bool replayed = false;
static int fails = 0;

struct Row
{
  std::string name;
  std::vector<double> x;
  double value;
};
static std::vector<Row> table;

static unsigned long long
rnd ()
{
  rng ^= rng << 13;
  rng ^= rng >> 7;
  rng ^= rng << 17;
  return rng * 2685821657736338717ULL;
}

static std::string
key (const char *name)
{
  int k = counts[name]++;
  std::string s (name);
  if (k)
    {
      char t[32];
      snprintf (t, sizeof t, "#%d", k);
      s += t;
    }
  return s;
}

static double
rndreal ()
{
  const double u = (rnd () >> 11) * (1.0 / 9007199254740992.0);
  const double sc[] = { 1.0, 2.0, 5.0, 0.1 };
  return (rnd () & 1 ? 2 * u - 1 : u) * sc[(rnd () >> 20) & 3];
}

extern "C"
{
  static double
  real_input (const char *name, bool within, double lo, double hi)
  {
    std::string k = key (name);
    std::map<std::string, std::string>::iterator i = inputs.find (k);
    double v;
    if (i != inputs.end ())
      {
        v = strtod (i->second.c_str (), 0);
        if (randomise && (rnd () & 3) == 0)
          v = v + 0.1 * rndreal ();
      }
    else
      v = rndreal ();
    if (within && !(lo < v && v < hi) && (i == inputs.end () || randomise))
      {
        const double u = 0.001 + 0.998 * ((rnd () >> 11) * (1.0 / 9007199254740992.0));
        v = hi >= 1e300 ? lo + 2.0 * u : lo + u * (hi - lo);
      }
    printf ("INPUT %s %.17g\n", k.c_str (), v);
    return v;
  }

  double
  vs_real (const char *name)
  {
    return real_input (name, false, 0.0, 0.0);
  }

  double
  vs_real_in (const char *name, double lo, double hi)
  {
    return real_input (name, true, lo, hi);
  }

  uint64_t
  vs_word (const char *name, int bits)
  {
    std::string k = key (name);
    std::map<std::string, std::string>::iterator i = inputs.find (k);
    uint64_t v = i == inputs.end () ? rnd () : strtoull (i->second.c_str (), 0, 10);
    if (bits < 64)
      v &= (1ULL << bits) - 1;
    printf ("INPUT %s %llu\n", k.c_str (), (unsigned long long)v);
    return v;
  }
  int64_t
  vs_int (const char *name, int64_t lo, int64_t hi)
  {
    std::string k = key (name);
    std::map<std::string, std::string>::iterator i = inputs.find (k);
    int64_t v = i == inputs.end () ? lo + int64_t (rnd () % (uint64_t)(hi - lo + 1))
                                   : (int64_t)strtoull (i->second.c_str (), 0, 10);
    printf ("INPUT %s %llu\n", k.c_str (), (unsigned long long)v);
    return v;
  }
  int64_t
  vs_concrete (int64_t v)
  {
    return v;
  }
  int64_t
  vs_param (int i)
  {
    return params.at (i);
  }
  int
  vs_symbolic ()
  {
    return 0;
  }
  void
  vs_assume (bool c)
  {
    if (!c)
      {
        printf ("ASSUME\n");
        fflush (stdout);
        _exit (fails ? 1 : 3);
      }
  }
  bool
  vs_decide (bool c)
  {
    return c;
  }
  void
  vs_stop ()
  {
    fflush (stdout);
    _exit (fails ? 1 : 0);
  }
  void
  vs_assert (bool c, const char *label)
  {
    if (!c)
      {
        printf ("FAIL %s\n", label);
        ++fails;
      }
  }
  void
  vs_assert_eq (double a, double b, const char *label)
  {
    const double m = std::fmax (std::fabs (a), std::fabs (b));
    bool ok = a == b || (a != a && b != b) || std::fabs (a - b) <= 1e-9 + 1e-7 * m;
    if ((a != a) != (b != b))
      ok = false;
    if (!ok)
      {
        printf ("FAIL %s (%.17g != %.17g)\n", label, a, b);
        ++fails;
      }
  }
  void
  vs_assert_word (uint64_t a, uint64_t b, const char *label)
  {
    if (a != b)
      {
        printf ("FAIL %s (%llu != %llu)\n", label, (unsigned long long)a, (unsigned long long)b);
        ++fails;
      }
  }
  void
  vs_reach (const char *label)
  {
    printf ("REACH %s\n", label);
  }
  double
  vs_uf (const char *name, int n, const double *x)
  {
    // some smooth function without symmetries
    double h = 0.0;
    for (const char *p = name; *p; ++p)
      h = h * 1.37 + *p;
    double a = std::sin (h), s = 0.3 * std::cos (1.7 * h);
    for (int i = 0; i < n; ++i)
      {
        a += (0.7 + 0.31 * i) * x[i];
        s += 0.05 * (i + 1) * x[i] * x[i];
      }
    return std::sin (a) + std::exp (-std::fabs (s)) + 0.3 * std::cos (s);
  }
  double
  vs_obj (const char *name, int n, const double *x)
  {
    // the values of the solver's model at its arguments, some function elsewhere
    if (!randomise)
      for (const Row &r : table)
        if (r.name == name && int (r.x.size ()) == n)
          {
            double d = 0.0;
            for (int i = 0; i < n; ++i)
              d = std::fmax (d, std::fabs (x[i] - r.x[i]) / (1e-3 + std::fabs (r.x[i])));
            if (d < 1e-8)
              return r.value;
            if (d < 1e-6)
              {
                // too close to tell
                printf ("ASSUME\n");
                fflush (stdout);
                _exit (3);
              }
          }
    return vs_uf (name, n, x);
  }
  void vs_set_schedule (int) {}
  int vs_tok_write (double, int, int, int) { return 0; }
  double vs_tok_value (int) { return 0; }
  int vs_tok_prec (int) { return 17; }
  int vs_tok_flags (int) { return 0; }
  int vs_tok_width (int) { return 0; }
  double vs_text_double (const char *, int) { return 0; }
}

int
main (int argc, char *argv[])
{
  setvbuf (stdout, 0, _IOFBF, 1 << 16);
  const unsigned long seed = strtoul (argv[3], 0, 10);
  if (seed)
    {
      randomise = true;
      rng ^= seed * 0x9E3779B97F4A7C15ULL;
      for (int i = 0; i < 10; ++i)
        rnd ();
    }
  for (int i = 4; i < argc; ++i)
    params.push_back (strtol (argv[i], 0, 10));
  if (FILE *f = fopen (argv[2], "r"))
    {
      char line[4096], n[2048], v[2048];
      while (fgets (line, sizeof line, f))
        if (sscanf (line, "%2047s %2047s", n, v) == 2)
          {
            inputs[n] = v;
            if (n[0] == '@')
              {
                std::istringstream is (line);
                Row r;
                int k = 0;
                is >> n >> r.name >> k;
                r.x.resize (k);
                std::string w;
                for (double &a : r.x)
                  {
                    is >> w;
                    a = strtod (w.c_str (), 0);
                  }
                is >> w;
                r.value = strtod (w.c_str (), 0);
                table.push_back (r);
              }
          }
      fclose (f);
    }
  void (*h) () = (void (*) ()) dlsym (RTLD_DEFAULT, argv[1]);
  if (!h)
    {
      printf ("NOHARNESS\n");
      return 4;
    }
  h ();
  printf ("DONE\n");
  fflush (stdout);
  _exit (fails ? 1 : 0);
}
