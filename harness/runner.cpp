//# C26
// Program runs: arguments, parts of the output, exit codes.  The model and
// the evolution strategy are stand-ins with arbitrary outcomes; the runner,
// the optimiser's configuration and the main functions are real.
#include "vs_std.h"
using namespace std;
#include "vs.h"
#include "vs_text.h"
#include "core/base.h"
#include "core/deviates.h"
#include "core/random.h"

// ------------------------------------------------- the evolution strategy
#define ESPECIA_OPTIMIZE_H
enum
{
  NOTHING,
  LOGIC,
  RUNTIME,
  OTHER
};
static struct Script
{
  especia::natural generations; // reached
  especia::natural stop;
  bool optimized, underflow;
  int error;
  vector<double> x, z, y, lo, hi; // values, uncertainties, trace
  double fitness;
} script;
static struct Record
{
  int optimizations, parses, sets, puts;
  especia::natural n, parents, population, stop;
  double step, accuracy;
  vector<double> x, d, deviates, set_x, set_z;
  bool violated, ascending;
  string input;
} record;

namespace especia
{
template <class F, class Constraint, class Deviate, class Decompose, class Compare, class Tracing>
void
optimize (const F &f, const Constraint &constraint, natural n, natural parent_number, natural population_size,
          const real w[], real step_size_damping, real cs, real cc, real ccov, real acov, natural update_modulus,
          real accuracy_goal, natural stop_generation, natural &g, real xw[], real &step_size, real d[], real B[],
          real C[], real ps[], real pc[], real &yw, bool &optimized, bool &underflow, const Deviate &deviate,
          const Decompose &decompose, const Compare &compare, const Tracing &tracer)
{
  ++record.optimizations;
  record.n = n;
  record.parents = parent_number;
  record.population = population_size;
  record.stop = stop_generation;
  record.accuracy = accuracy_goal;
  record.step = step_size;
  record.ascending = compare (1.0, 2.0) && !compare (2.0, 1.0);
  record.violated = constraint.is_violated (xw, n);
  for (natural i = 0; i < n; ++i)
    {
      record.x.push_back (xw[i]);
      record.d.push_back (d[i]);
    }
  for (int i = 0; i < 3; ++i)
    record.deviates.push_back (deviate ());
  for (g = 1; g <= script.generations; ++g)
    if (tracer.is_tracing (g) || (script.optimized && g == script.generations))
      tracer.trace (g, script.y[g], script.lo[g], script.hi[g]);
  --g;
  if (script.error == LOGIC)
    throw out_of_range ("an error of logic");
  if (script.error == RUNTIME)
    throw range_error ("an error at runtime");
  if (script.error == OTHER)
    throw bad_alloc ();
  for (natural i = 0; i < n; ++i)
    xw[i] = script.x[i];
  yw = script.fitness;
  optimized = script.optimized;
  underflow = script.underflow;
}

template <class F, class Constraint>
void
postopti (const F &f, const Constraint &constraint, natural n, const real x[], const real d[], const real B[],
          const real C[], const real s, real z[])
{
  for (natural i = 0; i < n; ++i)
    z[i] = script.z[i];
}
}

#include "core/runner.h"
#include "core/runner.cxx"
#include "core/optimizer.cxx"
// the linear algebra library is not called
especia::R_Decompose::R_Decompose (natural m) : n (integer (m)), lwork (0), liwork (0) {}
especia::R_Decompose::~R_Decompose () = default;
void
especia::R_Decompose::operator() (const real[], real[], real[]) const
{
}
#include "core/model.h"
#include "core/profiles.cxx"
#include "core/readline.cxx"
#include "core/section.cxx"
namespace app_curcuma
{
#include "apps/curcuma.cxx"
}
namespace app_oregano
{
#include "apps/oregano.cxx"
}
namespace app_azafran
{
#include "apps/azafran.cxx"
}
namespace app_mascada
{
#include "apps/mascada.cxx"
}
using especia::natural;

// -------------------------------------------------------------- the model
static vector<double> initial, steps;

struct Mock
{
  struct Constraint
  {
    bool
    is_violated (const double x[], natural n) const
    {
      return n > 0 && x[0] == -4711.0;
    }
    double
    cost (const double[], natural) const
    {
      return 0.0;
    }
  };
  static Mock
  parse (istream &is, ostream &os)
  {
    ++record.parses;
    string line;
    while (getline (is, line))
      {
        record.input += line + "\n";
        if (line == "bad")
          throw invalid_argument ("a bad definition");
        if (line == "worse")
          throw runtime_error ("data cannot be read");
        os << "echo " << line << "\n";
      }
    return Mock ();
  }
  natural
  get_parameter_count () const
  {
    return natural (initial.size ());
  }
  valarray<double>
  get_initial_parameter_values () const
  {
    return valarray<double> (&initial[0], initial.size ());
  }
  valarray<double>
  get_initial_local_step_sizes () const
  {
    return valarray<double> (&steps[0], steps.size ());
  }
  Constraint
  get_constraint () const
  {
    return Constraint ();
  }
  double
  operator() (const double[], natural) const
  {
    return 0.0;
  }
  void
  set (const double x[], const double z[])
  {
    ++record.sets;
    for (size_t i = 0; i < initial.size (); ++i)
      {
        record.set_x.push_back (x[i]);
        record.set_z.push_back (z[i]);
      }
  }
  ostream &
  put (ostream &os) const
  {
    ++record.puts;
    return os << "result\n";
  }
};

// ------------------------------------------------------------ the checks
struct Args
{
  vector<string> words;
  vector<char *> argv;
  int
  argc ()
  {
    argv.clear ();
    for (size_t i = 0; i < words.size (); ++i)
      argv.push_back (&words[i][0]);
    argv.push_back (nullptr);
    return int (words.size ());
  }
  void
  add (const string &s)
  {
    words.push_back (s + '\0');
  }
  void
  add_number (double v)
  {
    ostringstream os;
    os.precision (17);
    os << v;
    add (os.str ());
  }
  // decimal number of the digits given
  uint64_t
  add_digits (const char *name, int digits)
  {
    string s;
    uint64_t v = 0;
    for (int i = 0; i < digits; ++i)
      {
        const uint64_t d = vs_word (name, 8);
        vs_assume (d <= 9 && (i > 0 || digits == 1 || d > 0));
        s.push_back (char ('0' + d));
        v = v * 10 + d;
      }
    add (s);
    return v;
  }
};

struct Streams
{
  istringstream is;
  ostringstream os, es;
  streambuf *i, *o, *e;
  explicit Streams (const string &s)
      : is (s), i (cin.rdbuf (is.rdbuf ())), o (cout.rdbuf (os.rdbuf ())), e (cerr.rdbuf (es.rdbuf ()))
  {
    cin.clear ();
    cout.clear ();
  }
  ~Streams ()
  {
    cin.rdbuf (i);
    cout.rdbuf (o);
    cerr.rdbuf (e);
  }
};

static void
arbitrary_outcome (int n, int generations)
{
  record = Record ();
  script = Script ();
  initial.clear ();
  steps.clear ();
  for (int i = 0; i < n; ++i)
    {
      initial.push_back (vs_real ("initial"));
      steps.push_back (vs_positive ("local"));
      script.x.push_back (vs_real ("x"));
      script.z.push_back (vs_positive ("unc"));
    }
  script.generations = natural (generations);
  for (int g = 0; g <= generations; ++g)
    {
      script.y.push_back (vs_real ("y"));
      script.lo.push_back (vs_positive ("min"));
      script.hi.push_back (vs_positive ("max"));
    }
  script.fitness = vs_real ("fitness");
  const int k = int (vs_choose ("outcome", 0, 2));
  script.optimized = k == 0;
  script.underflow = k == 1;
}

static const char *const SEEDS[] = { "27182", "9600629759793949339", "18446744073709551615", "1" };
static const uint64_t SEED[] = { 27182ULL, 9600629759793949339ULL, 18446744073709551615ULL, 1ULL };

// Parameters, generations, seed, digits of the integers.
//@ c26_run prop=C26 params=1,0,0,1;2,2,1,2;3,4,0,1 tparams=2,4,0..3,1..3;1,6,0,1 num=15 conc=64 time=150
HARNESS (c26_run)
{
  const int n = int (vs_param (0)), generations = int (vs_param (1)), seed = int (vs_param (2)),
            digits = int (vs_param (3));
  arbitrary_outcome (n, generations);
  Args a;
  a.add ("./prog ram");
  a.add (SEEDS[seed]);
  const uint64_t parents = a.add_digits ("parents", 1);
  const uint64_t population = a.add_digits ("population", digits);
  vs_assume (parents > 0 && population >= 2 * parents);
  const double step = vs_positive ("step"), accuracy = vs_positive ("accuracy");
  a.add_number (step);
  a.add_number (accuracy);
  const uint64_t stop = a.add_digits ("stop", digits);
  const uint64_t modulus = vs_choose ("modulus", 0, 3);
  a.add (string (1, char ('0' + modulus)));
  const string input = "# definition\nof a model\n";
  int code = -1;
  string out;
  {
    Streams s (input);
    const int count = a.argc ();
        especia::Runner runner (count, &a.argv[0]);
    code = runner.run<Mock> ();
    out = s.os.str ();
    vs_assert (s.es.str ().empty (), "no error message");
  }
  vs_assert_word (uint64_t (record.optimizations), 1, "one optimisation");
  vs_assert_word (record.n, uint64_t (n), "number of parameters");
  vs_assert_word (record.parents, parents, "parent number");
  vs_assert_word (record.population, population, "population size");
  vs_assert_word (record.stop, stop, "stop generation");
  vs_assert_eq (record.step, step, "global step size");
  vs_assert_eq (record.accuracy, accuracy, "accuracy goal");
  vs_assert (record.ascending, "the cost function is minimised");
  for (int i = 0; i < n; ++i)
    {
      vs_assert_eq (record.x[i], initial[i], "initial parameter values");
      vs_assert_eq (record.d[i], steps[i], "initial local step sizes");
      vs_assert_eq (record.set_x[i], script.x[i], "parameter values");
      vs_assert_eq (record.set_z[i], script.optimized ? script.z[i] : 0.0, "parameter uncertainties");
    }
  vs_assert (record.violated == vs_decide (initial[0] == -4711.0), "constraint of the model");
  const especia::Normal_Deviate<especia::Melg19937_64> deviate (SEED[seed]);
  for (int i = 0; i < 3; ++i)
    vs_assert_eq (record.deviates[i], deviate (), "random seed");
  vs_assert_word (uint64_t (record.parses), 1, "model parsed once");
  vs_assert_word (uint64_t (record.sets), 1, "model set once");
  vs_assert_word (uint64_t (record.puts), 1, "model written once");
  vs_assert (record.input == input, "model definition is the standard input");

  // the output
  ostringstream x;
  x << "<!DOCTYPE html>\n<html>\n<!--\n<command>\n";
  for (size_t i = 0; i < a.words.size (); ++i)
    x << " " << a.argv[i];
  x << "\n</command>\n-->\n</html>\n";
  x << "echo # definition\necho of a model\n";
  x << "<!DOCTYPE html>\n<html>\n<!--\n<log>\n";
  for (uint64_t g = 1; g <= uint64_t (generations); ++g)
    if ((modulus > 0 && g % modulus == 0) || (script.optimized && g == uint64_t (generations)))
      {
        x << string (7, ' ') << g;
        x.setf (ios_base::scientific, ios_base::floatfield);
        x.setf (ios_base::right, ios_base::adjustfield);
        x.precision (4);
        x << setw (12) << script.y[g] << setw (12) << script.lo[g] << setw (12) << script.hi[g] << "\n";
      }
  x << "</log>\n-->\n<!--\n<message>\n";
  const string head = x.str ();
  // the message is a text
  const size_t m = out.find ("<message>\n"), e = out.find ("</message>\n");
  vs_assert (m != string::npos && e != string::npos && m < e, "message in its own part");
  if (m == string::npos || e == string::npos || e < m)
    return;
  vs_assert_text (out.substr (0, m + 10), head, "command, model, log, message");
  const string message = out.substr (m + 10, e - m - 10);
  vs_assert_text (out.substr (e), "</message>\n-->\n</html>\nresult\n", "result at last");
  vs_assert ((message.find ("success") != string::npos) == script.optimized, "message of success");
  vs_assert ((message.find ("underflow") != string::npos) == script.underflow, "message of underflow");
  if (!script.optimized)
    {
      ostringstream t;
      t << generations << "\n";
      vs_assert (message.find (" " + t.str ()) != string::npos, "message of the generation");
    }
  vs_assert (code == (script.optimized ? 0 : script.underflow ? 1 : 2), "exit code");
  vs_reach ("end");
}

// Numbers of arguments.
//@ c26_usage prop=C26 params=1..12 tparams=1..20 num=15
HARNESS (c26_usage)
{
  const int argc = int (vs_param (0));
  arbitrary_outcome (1, 0);
  Args a;
  a.add ("program");
  for (int i = 1; i < argc; ++i)
    a.add (i == 2 ? "1" : "20");
  bool error = false;
  int code = -1;
  string out;
  {
    Streams s ("model\n");
    try
      {
        const int count = a.argc ();
        especia::Runner runner (count, &a.argv[0]);
        code = runner.run<Mock> ();
      }
    catch (logic_error &)
      {
        error = true;
      }
    out = s.os.str ();
  }
  if (argc == 1)
    {
      vs_assert (!error && code == 0, "usage is no error");
      vs_assert (out.find ("usage") != string::npos && out.find ("program") != string::npos, "usage");
      vs_assert (record.parses == 0 && record.optimizations == 0, "usage only");
    }
  else if (argc == 8)
    vs_assert (!error && record.puts == 1, "seven arguments");
  else
    {
      vs_assert (error, "wrong number of arguments is a logic error");
      vs_assert (record.parses == 0 && record.optimizations == 0 && record.puts == 0, "no result");
    }
  vs_reach ("end");
}

// Malformed arguments and definitions: argument replaced (8: bad definition,
// 9: unreadable data), replacement.
//@ c26_malformed prop=C26 params=1..7,0..2;8..9,0 num=15 conc=64
HARNESS (c26_malformed)
{
  const int k = int (vs_param (0)), how = int (vs_param (1));
  arbitrary_outcome (1, 1);
  Args a;
  a.add ("program");
  for (int i = 1; i < 8; ++i)
    {
      if (i != k)
        a.add (i == 2 ? "1" : "20");
      else if (how == 0)
        a.add ("");
      else
        {
          // a word that does not start like a number
          string s;
          for (int j = 0; j < how; ++j)
            {
              const uint64_t c = vs_word ("character", 8);
              vs_assume ((c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == '%' || c == '_');
              if (j == 0)
                vs_assume (c != 'i' && c != 'I' && c != 'n' && c != 'N');
              s.push_back (char (c));
            }
          a.add (s);
        }
    }
  int error = NOTHING;
  string out;
  {
    Streams s (k == 8 ? "bad\n" : k == 9 ? "worse\n" : "model\n");
    try
      {
        const int count = a.argc ();
        especia::Runner runner (count, &a.argv[0]);
        runner.run<Mock> ();
      }
    catch (logic_error &)
      {
        error = LOGIC;
      }
    catch (runtime_error &)
      {
        error = RUNTIME;
      }
    out = s.os.str ();
  }
  vs_assert (error == (k == 9 ? RUNTIME : LOGIC), "error");
  vs_assert (record.optimizations == 0 && record.puts == 0 && record.sets == 0, "no result");
  vs_assert (out.find ("<message>") == string::npos && out.find ("result") == string::npos, "no message, no result");
  vs_reach ("end");
}

// Sizes of the population for which there is no discarded candidate: digits.
//@ c26_population prop=C26 params=1;3 tparams=2;5 num=15 conc=64
HARNESS (c26_population)
{
  arbitrary_outcome (1, 1);
  Args a;
  a.add ("program");
  a.add ("27182");
  const uint64_t parents = a.add_digits ("parents", int (vs_param (0)));
  const uint64_t population = a.add_digits ("population", int (vs_param (0)));
  vs_assume (population <= parents);
  for (int i = 4; i < 8; ++i)
    a.add ("1");
  bool error = false;
  string out;
  {
    Streams s ("model\n");
    try
      {
        const int count = a.argc ();
        especia::Runner runner (count, &a.argv[0]);
        runner.run<Mock> ();
      }
    catch (logic_error &)
      {
        error = true;
      }
    out = s.os.str ();
  }
  vs_assert (error, "population without a discarded candidate is a logic error");
  vs_assert (record.optimizations == 0 && record.puts == 0, "no result");
  vs_assert (out.find ("<message>") == string::npos, "no message");
  vs_reach ("end");
}

// The programs: application, optimiser's error (4: definition is malformed, 5:
// wrong number of arguments).
static int
program (int app, int argc, char *argv[])
{
  switch (app)
    {
    case 0:
      return app_curcuma::main (argc, argv);
    case 1:
      return app_oregano::main (argc, argv);
    case 2:
      return app_azafran::main (argc, argv);
    }
  return app_mascada::main (argc, argv);
}

//@ c26_main prop=C26 params=0..3,0..5 num=15 conc=64 time=150
HARNESS (c26_main)
{
  const int app = int (vs_param (0)), error = int (vs_param (1));
  static const int COUNT[] = { 6, 7, 8, 7 };
  arbitrary_outcome (1, 1);
  script.error = error < 4 ? error : NOTHING;
  // numbers do not matter here
  script.x[0] = 10.0;
  script.z[0] = 1.0;
  script.fitness = 3.0;
  script.y.assign (2, 3.0);
  script.lo.assign (2, 1.0);
  script.hi.assign (2, 1.0);
  {
    ofstream os ("spectrum.dat");
    os << "1000.0 1.0 0.1\n1001.0 0.5 0.1\n1002.0 1.0 0.1\n";
  }
  ostringstream d;
  d << "# A model\n\n```\n{\n S spectrum.dat 900.0 1100.0 0\n 10.0 5.0 20.0 0\n";
  d << " L\n 1000.0 900.0 1100.0 0\n 0.5 0.1 1.0 0\n 0.0 -1.0 1.0 0\n 0.0 -50.0 50.0 1\n 10.0 1.0 20.0 0\n";
  for (int i = 5; i < COUNT[app]; ++i)
    d << " 2.0 1.0 3.0 0\n";
  if (error != 4)
    d << "}\n```\n";
  else
    d << " M\n 1000.0\n}\n```\n";
  Args a;
  a.add ("program");
  for (int i = 1; i < (error == 5 ? 6 : 8); ++i)
    a.add (i == 2 ? "1" : i == 1 ? "27182" : "20");
  int code = -1;
  string out, err;
  {
    Streams s (d.str ());
    const int count = a.argc ();
    code = program (app, count, &a.argv[0]);
    out = s.os.str ();
    err = s.es.str ();
  }
  const bool result = out.find ("<data>") != string::npos, message = out.find ("<message>") != string::npos;
  if (error == NOTHING)
    {
      vs_assert (code == (script.optimized ? 0 : script.underflow ? 1 : 2), "exit code of the outcome");
      vs_assert (result && message, "message and result");
      vs_assert (err.empty (), "no error message");
    }
  else
    {
      if (error == 4)
        vs_assert (code == 8 || code == 16, "exit code of a malformed definition");
      else
        vs_assert (code == (error == LOGIC || error == 5 ? 8 : error == RUNTIME ? 16 : 64), "exit code of the error");
      vs_assert (!result && !message, "no message, no result");
      vs_assert (!err.empty (), "error message");
    }
  vs_reach ("end");
}
