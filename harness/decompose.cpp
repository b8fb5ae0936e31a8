//# C25
// The wrappers of the symmetric eigenproblem solvers against the contract of
// the linear algebra library, which is replaced by a stand-in that checks the
// arguments it is given, writes everything it is entitled to write, and
// returns arbitrary values and status codes.
#include <algorithm>
#include <cmath>
#include <stdexcept>
#include <string>
#include <vector>
#include "vs.h"

#include "core/decompose.cxx"

using especia::natural;

// ------------------------------------------------------------ the library
static const double SAFE_MINIMUM = 2.2250738585072014e-308;
static int failures[8]; // status codes of the calls to come
static int calls = 0;
static int queries = 0;
static int extra = 0; // surplus of the optimal workspace

// arbitrary eigenvalues and eigenvectors of the matrix with a given triangle
static void
eigen (int n, const std::vector<double> &a, double w[], double Z[], int ldz)
{
  static const char *const EIG[] = { "w0", "w1", "w2", "w3", "w4", "w5", "w6", "w7" };
  static const char *const VEC[] = { "v0", "v1", "v2", "v3", "v4", "v5", "v6", "v7" };
  for (int j = 0; j < n; ++j)
    w[j] = vs_obj (EIG[j], int (a.size ()), &a[0]);
#ifndef VS_SYMBOLIC
  std::sort (w, w + n);
#endif
  for (int j = 1; j < n; ++j)
    vs_assume (w[j - 1] <= w[j]);
  for (int j = 0; j < n; ++j)
    for (int i = 0; i < n; ++i)
      {
        std::vector<double> b (a);
        b.push_back (i);
        Z[i + j * ldz] = vs_obj (VEC[j], int (b.size ()), &b[0]);
      }
}

static std::vector<double>
triangle (char uplo, int n, const double A[], int lda)
{
  std::vector<double> a;
  for (int j = 0; j < n; ++j)
    for (int i = 0; i <= j; ++i)
      a.push_back (uplo == 'U' || uplo == 'u' ? A[i + j * lda] : A[j + i * lda]);
  return a;
}

static bool
is (char c, char upper)
{
  return c == upper || c == upper + ('a' - 'A');
}

// The number of eigenvalues requested, all of them in one way or another.
static int
requested (const char &range, int n, int il, int iu)
{
  vs_assert (is (range, 'A') || (is (range, 'I') && il == 1 && iu == n), "all eigenvalues are requested");
  return n;
}

static void
options (const char &job, const char &uplo, int n, int lda, int dim)
{
  vs_assert (is (job, 'V'), "eigenvectors are requested");
  vs_assert (is (uplo, 'U') || is (uplo, 'L'), "valid storage option");
  vs_assert_word (uint64_t (n), uint64_t (dim), "dimension of the problem");
  vs_assert (lda >= std::max (1, n), "valid leading dimension");
}

static int dimension = 0; // expected

static void
garbage (double x[], int n)
{
  for (int i = 0; i < n; ++i)
    x[i] = -77.0;
}

static void
garbage (int x[], int n)
{
  for (int i = 0; i < n; ++i)
    x[i] = -77;
}

extern "C"
{
  double
  dlamch_ (const char &cmach)
  {
    // relative machine precision, safe minimum, ...
    switch (cmach)
      {
      case 'S': case 's':
        return SAFE_MINIMUM;
      case 'E': case 'e':
        return 1.1102230246251565e-16;
      case 'P': case 'p':
        return 2.220446049250313e-16;
      }
    return 0.0;
  }

  void
  dsyevd_ (const char &job, const char &uplo, const int &n, double A[], const int &lda, double w[], double work[],
           const int &lwork, int iwork[], const int &liwork, int &info)
  {
    const int need = n <= 1 ? 1 : 1 + 6 * n + 2 * n * n, ineed = n <= 1 ? 1 : 3 + 5 * n;
    options (job, uplo, n, lda, dimension);
    info = failures[calls++];
    if (lwork == -1 || liwork == -1)
      {
        ++queries;
        work[0] = need + extra;
        iwork[0] = ineed + extra;
        return;
      }
    vs_assert (lwork >= need, "sufficient workspace");
    vs_assert (liwork >= ineed, "sufficient integer workspace");
    const std::vector<double> a = triangle (uplo, n, A, lda);
    garbage (work, lwork);
    garbage (iwork, liwork);
    garbage (A, n * lda);
    garbage (w, n);
    if (info == 0)
      eigen (n, a, w, A, lda);
  }

  void
  dsyevr_ (const char &job, const char &range, const char &uplo, const int &n, double A[], const int &lda,
           const double &vl, const double &vu, const int &il, const int &iu, const double &abstol, int &m, double w[],
           double Z[], const int &ldz, int isupp[], double work[], const int &lwork, int iwork[], const int &liwork,
           int &info)
  {
    const int need = std::max (1, 26 * n), ineed = std::max (1, 10 * n);
    options (job, uplo, n, lda, dimension);
    info = failures[calls++];
    if (lwork == -1 || liwork == -1)
      {
        ++queries;
        work[0] = need + extra;
        iwork[0] = ineed + extra;
        return;
      }
    vs_assert (lwork >= need, "sufficient workspace");
    vs_assert (liwork >= ineed, "sufficient integer workspace");
    vs_assert (ldz >= std::max (1, n), "valid leading dimension of the eigenvectors");
    vs_assert (abstol <= 2.0 * SAFE_MINIMUM, "most accurate tolerance");
    const std::vector<double> a = triangle (uplo, n, A, lda);
    m = requested (range, n, il, iu);
    garbage (work, lwork);
    garbage (iwork, liwork);
    garbage (isupp, 2 * std::max (1, m));
    garbage (A, n * lda);
    garbage (w, n);
    garbage (Z, n * ldz);
    if (info == 0)
      eigen (n, a, w, Z, ldz);
  }

  void
  dsyevx_ (const char &job, const char &range, const char &uplo, const int &n, double A[], const int &lda,
           const double &vl, const double &vu, const int &il, const int &iu, const double &abstol, int &m, double w[],
           double Z[], const int &ldz, double work[], const int &lwork, int iwork[], int ifail[], int &info)
  {
    const int need = n <= 1 ? 1 : 8 * n;
    options (job, uplo, n, lda, dimension);
    info = failures[calls++];
    if (lwork == -1)
      {
        ++queries;
        work[0] = need + extra;
        return;
      }
    vs_assert (lwork >= need, "sufficient workspace");
    vs_assert (ldz >= std::max (1, n), "valid leading dimension of the eigenvectors");
    vs_assert (abstol <= 2.0 * SAFE_MINIMUM, "most accurate tolerance");
    const std::vector<double> a = triangle (uplo, n, A, lda);
    m = requested (range, n, il, iu);
    garbage (work, lwork);
    garbage (iwork, 5 * n);
    garbage (ifail, n);
    garbage (A, n * lda);
    garbage (w, n);
    garbage (Z, n * ldz);
    if (info == 0)
      eigen (n, a, w, Z, ldz);
  }
}

// ------------------------------------------------------------ the checks
template <class Decompose>
static void
check (int n, int times)
{
  dimension = n;
  calls = queries = 0;
  // status codes: illegal argument, success, failure of the algorithm
  int status[8];
  for (int k = 0; k <= times; ++k)
    status[k] = failures[k] = int (vs_int ("info", -20, 20));

  Decompose *d = nullptr;
  int error = 0;
  try
    {
      d = new Decompose (natural (n));
    }
  catch (std::logic_error &)
    {
      error = -1;
    }
  catch (std::runtime_error &)
    {
      error = 1;
    }
  vs_assert_word (uint64_t (queries), 1, "one workspace query");
  if (vs_decide (status[0] < 0))
    vs_assert (error == -1, "illegal argument of the query is a logic error");
  else if (vs_decide (status[0] > 0))
    vs_assert (error == 1, "failure of the query is a runtime error");
  else
    vs_assert (error == 0, "no error without a failure");
  if (d == nullptr)
    {
      vs_reach ("no workspace");
      return;
    }
  for (int k = 1; k <= times; ++k)
    {
      std::vector<double> A (n * n), Z (n * n, -1.0), w (n, -1.0);
      for (int i = 0; i < n * n; ++i)
        A[i] = vs_real ("a");
      const std::vector<double> B (A);
      error = 0;
      try
        {
          (*d) (&A[0], &Z[0], &w[0]);
        }
      catch (std::logic_error &)
        {
          error = -1;
        }
      catch (std::runtime_error &)
        {
          error = 1;
        }
      vs_assert_word (uint64_t (calls), uint64_t (k + 1), "the library is called once");
      for (int i = 0; i < n * n; ++i)
        vs_assert_eq (A[i], B[i], "matrix unchanged");
      if (vs_decide (status[k] < 0))
        vs_assert (error == -1, "illegal argument is a logic error");
      else if (vs_decide (status[k] > 0))
        vs_assert (error == 1, "failure of the algorithm is a runtime error");
      else
        {
          vs_assert (error == 0, "no error without a failure");
          // column-major, upper triangle
          std::vector<double> X (n * n), v (n);
          eigen (n, triangle ('U', n, &B[0], n), &v[0], &X[0], n);
          for (int j = 0; j < n; ++j)
            {
              vs_assert_eq (w[j], v[j], "eigenvalues in ascending order");
              for (int i = 0; i < n; ++i)
                vs_assert_eq (Z[i + n * j], X[i + n * j], "eigenvectors in columns");
            }
          vs_reach ("decomposed");
        }
    }
  delete d;
  vs_reach ("end");
}

// Dimension, decompositions, surplus of the workspace.
//@ c25_d prop=C25 params=1..4,1,0;3,2,7 tparams=5..8,1,0;1..4,2..3,3
HARNESS (c25_d)
{
  extra = int (vs_param (2));
  check<especia::D_Decompose> (int (vs_param (0)), int (vs_param (1)));
}

//@ c25_r prop=C25 params=1..4,1,0;3,2,7 tparams=5..8,1,0;1..4,2..3,3
HARNESS (c25_r)
{
  extra = int (vs_param (2));
  check<especia::R_Decompose> (int (vs_param (0)), int (vs_param (1)));
}

//@ c25_x prop=C25 params=1..4,1,0;3,2,7 tparams=5..8,1,0;1..4,2..3,3
HARNESS (c25_x)
{
  extra = int (vs_param (2));
  check<especia::X_Decompose> (int (vs_param (0)), int (vs_param (1)));
}

// The decomposition used by default.
//@ c25_default prop=C25 params=2,1,0
HARNESS (c25_default)
{
  extra = int (vs_param (2));
  check<especia::Decompose> (int (vs_param (0)), int (vs_param (1)));
}
