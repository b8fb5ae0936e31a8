// Comparison of texts written by the code under test with expected texts.
// Symbolically, numbers are tokens that carry the exact value and the format
// in effect; natively the texts are compared with a tolerance for numbers.
#ifndef VS_TEXT_H
#define VS_TEXT_H
#include "vs.h"
#include <cmath>
#include <cstdlib>
#include <string>

static inline int
vs_tok_id (const std::string &s, size_t i)
{
  int k = 0;
  for (int j = 0; j < 8; ++j)
    {
      const char c = s[i + 1 + j];
      k = k * 16 + (c <= '9' ? c - '0' : c - 'a' + 10);
    }
  return k;
}

static inline bool
vs_numeric (char c)
{
  return (c >= '0' && c <= '9') || c == '.' || c == '-' || c == '+' || c == 'e';
}

static inline void
vs_assert_text (const std::string &a, const std::string &b, const char *label)
{
  size_t i = 0, j = 0;
  if (vs_symbolic ())
    {
      for (;;)
        {
          if (i >= a.size () || j >= b.size ())
            {
              vs_assert (i >= a.size () && j >= b.size (), label);
              return;
            }
          if (a[i] == 27 && b[j] == 27)
            {
              const int m = vs_tok_id (a, i), n = vs_tok_id (b, j);
              const int F = 4 | 256, A = 16 | 32 | 128; // float field, adjustment
              vs_assert_eq (vs_tok_value (m), vs_tok_value (n), label);
              vs_assert (vs_tok_prec (m) == vs_tok_prec (n), label);
              vs_assert (vs_tok_width (m) == vs_tok_width (n), label);
              vs_assert ((vs_tok_flags (m) & F) == (vs_tok_flags (n) & F), label);
              if (vs_tok_width (m) > 0)
                vs_assert (((vs_tok_flags (m) & A) == 32) == ((vs_tok_flags (n) & A) == 32), label);
              i += 10;
              j += 10;
              continue;
            }
          if (a[i] != b[j])
            {
              vs_assert (false, label);
              return;
            }
          ++i;
          ++j;
        }
    }
  bool ok = true;
  while (ok && i < a.size () && j < b.size ())
    {
      if (((a[i] >= '0' && a[i] <= '9') || (a[i] == '-' && i + 1 < a.size () && a[i + 1] >= '0' && a[i + 1] <= '9'))
          && vs_numeric (b[j]))
        {
          size_t k = i, l = j;
          while (k < a.size () && vs_numeric (a[k]))
            ++k;
          while (l < b.size () && vs_numeric (b[l]))
            ++l;
          const std::string u (a, i, k - i), v (b, j, l - j);
          const double x = std::strtod (u.c_str (), 0), y = std::strtod (v.c_str (), 0);
          if (u != v)
            {
              const double m = std::fmax (std::fabs (x), std::fabs (y));
              // a unit in the last place written
              size_t p = u.find ('.'), e = u.find ('e');
              const int dec = p == std::string::npos ? 0 : int ((e == std::string::npos ? u.size () : e) - p - 1);
              const int ex = e == std::string::npos ? 0 : std::atoi (u.c_str () + e + 1);
              const double ulp = std::pow (10.0, ex - dec);
              size_t q = v.find ('.'), g = v.find ('e');
              const int dec2 = q == std::string::npos ? 0 : int ((g == std::string::npos ? v.size () : g) - q - 1);
              if (dec != dec2 || (e == std::string::npos) != (g == std::string::npos)
                  || std::fabs (x - y) > 1e-9 * m + 1.01 * ulp)
                ok = false;
            }
          i = k;
          j = l;
        }
      else if (a[i] == b[j])
        {
          ++i;
          ++j;
        }
      else if ((a[i] == ' ') != (b[j] == ' ') && ok)
        {
          // a sign or digit may change the padding by one place
          if (a[i] == ' ' && vs_numeric (b[j]) && i + 1 < a.size () && vs_numeric (a[i + 1]))
            ++i;
          else if (b[j] == ' ' && vs_numeric (a[i]) && j + 1 < b.size () && vs_numeric (b[j + 1]))
            ++j;
          else
            ok = false;
        }
      else
        ok = false;
    }
  vs_assert (ok && i >= a.size () && j >= b.size (), label);
}
#endif
