//# C01 C02
// The random number generators against the published algorithms.
#include <algorithm>
#include <limits>
#include <valarray>
#include <vector>
#include "core/random.h"
#include "vs.h"
using namespace especia;

// ---- reference implementations, transcribed from the published sources
// (mt19937ar.c, mt19937-64.c, dcmt 11213 parameters, melg19937-64.c,
// pcg_basic.c)
struct Mt_Params
{
  unsigned n, m, r;
  uint64_t a;
  unsigned u;
  uint64_t d;
  unsigned s;
  uint64_t b;
  unsigned t;
  uint64_t c;
  unsigned l;
};

struct Ref_Mt32
{
  Mt_Params p;
  std::vector<uint32_t> mt;
  unsigned mti;
  void
  init (uint32_t s)
  {
    mt.assign (p.n, 0);
    mt[0] = s;
    for (unsigned j = 1; j < p.n; ++j)
      mt[j] = 1812433253U * (mt[j - 1] ^ (mt[j - 1] >> 30)) + j;
    mti = p.n;
  }
  Ref_Mt32 (const Mt_Params &q, const uint64_t *key, unsigned len) : p (q)
  {
    init (19650218U);
    unsigned i = 1, j = 0;
    for (unsigned k = p.n > len ? p.n : len; k; --k)
      {
        mt[i] = (mt[i] ^ ((mt[i - 1] ^ (mt[i - 1] >> 30)) * 1664525U)) + uint32_t (key[j]) + j;
        ++i;
        ++j;
        if (i >= p.n)
          {
            mt[0] = mt[p.n - 1];
            i = 1;
          }
        if (j >= len)
          j = 0;
      }
    for (unsigned k = p.n - 1; k; --k)
      {
        mt[i] = (mt[i] ^ ((mt[i - 1] ^ (mt[i - 1] >> 30)) * 1566083941U)) - i;
        ++i;
        if (i >= p.n)
          {
            mt[0] = mt[p.n - 1];
            i = 1;
          }
      }
    mt[0] = 0x80000000U;
  }
  uint32_t
  operator() ()
  {
    if (mti >= p.n)
      {
        const uint32_t upper = 0xffffffffU << p.r, lower = ~upper, pa = p.a;
        for (unsigned k = 0; k < p.n; ++k)
          {
            const uint32_t y = (mt[k] & upper) | (mt[(k + 1) % p.n] & lower);
            mt[k] = mt[(k + p.m) % p.n] ^ (y >> 1) ^ (y & 1U ? pa : 0U);
          }
        mti = 0;
      }
    uint32_t y = mt[mti++];
    y ^= (y >> p.u) & uint32_t (p.d);
    y ^= (y << p.s) & uint32_t (p.b);
    y ^= (y << p.t) & uint32_t (p.c);
    y ^= (y >> p.l);
    return y;
  }
};

struct Ref_Mt64
{
  std::vector<uint64_t> mt;
  unsigned mti;
  Ref_Mt64 (const uint64_t *key, unsigned len) : mt (312)
  {
    const unsigned N = 312;
    mt[0] = 19650218ULL;
    for (mti = 1; mti < N; mti++)
      mt[mti] = (6364136223846793005ULL * (mt[mti - 1] ^ (mt[mti - 1] >> 62)) + mti);
    unsigned i = 1, j = 0;
    for (unsigned k = N > len ? N : len; k; --k)
      {
        mt[i] = (mt[i] ^ ((mt[i - 1] ^ (mt[i - 1] >> 62)) * 3935559000370003845ULL)) + key[j] + j;
        ++i;
        ++j;
        if (i >= N)
          {
            mt[0] = mt[N - 1];
            i = 1;
          }
        if (j >= len)
          j = 0;
      }
    for (unsigned k = N - 1; k; --k)
      {
        mt[i] = (mt[i] ^ ((mt[i - 1] ^ (mt[i - 1] >> 62)) * 2862933555777941757ULL)) - i;
        ++i;
        if (i >= N)
          {
            mt[0] = mt[N - 1];
            i = 1;
          }
      }
    mt[0] = 1ULL << 63;
    mti = N;
  }
  uint64_t
  operator() ()
  {
    const unsigned N = 312, M = 156;
    if (mti >= N)
      {
        for (unsigned k = 0; k < N; ++k)
          {
            const uint64_t x = (mt[k] & 0xFFFFFFFF80000000ULL) | (mt[(k + 1) % N] & 0x7FFFFFFFULL);
            mt[k] = mt[(k + M) % N] ^ (x >> 1) ^ (x & 1ULL ? 0xB5026F5AA96619E9ULL : 0ULL);
          }
        mti = 0;
      }
    uint64_t x = mt[mti++];
    x ^= (x >> 29) & 0x5555555555555555ULL;
    x ^= (x << 17) & 0x71D67FFFEDA60000ULL;
    x ^= (x << 37) & 0xFFF7EEE000000000ULL;
    x ^= (x >> 43);
    return x;
  }
};

struct Ref_Melg
{
  std::vector<uint64_t> melg;
  uint64_t lung;
  unsigned melgi;
  Ref_Melg (const uint64_t *key, unsigned len) : melg (311)
  {
    const unsigned NN = 311;
    melg[0] = 19650218ULL;
    for (melgi = 1; melgi < NN; melgi++)
      melg[melgi] = (6364136223846793005ULL * (melg[melgi - 1] ^ (melg[melgi - 1] >> 62)) + melgi);
    lung = (6364136223846793005ULL * (melg[melgi - 1] ^ (melg[melgi - 1] >> 62)) + melgi);
    unsigned i = 1, j = 0;
    for (unsigned k = NN > len ? NN : len; k; --k)
      {
        melg[i] = (melg[i] ^ ((melg[i - 1] ^ (melg[i - 1] >> 62)) * 3935559000370003845ULL)) + key[j] + j;
        ++i;
        ++j;
        if (i >= NN)
          {
            melg[0] = melg[NN - 1];
            i = 1;
          }
        if (j >= len)
          j = 0;
      }
    for (unsigned k = NN - 1; k; --k)
      {
        melg[i] = (melg[i] ^ ((melg[i - 1] ^ (melg[i - 1] >> 62)) * 2862933555777941757ULL)) - i;
        ++i;
        if (i >= NN)
          {
            melg[0] = melg[NN - 1];
            i = 1;
          }
      }
    lung = (lung ^ ((melg[NN - 1] ^ (melg[NN - 1] >> 62)) * 2862933555777941757ULL)) - NN;
    melg[0] |= 1ULL << 63;
    melgi = 0;
  }
  uint64_t
  operator() ()
  {
    const unsigned NN = 311, MM = 81, LAG1 = 19;
    uint64_t x = (melg[melgi] & (~0ULL << 31)) | (melg[(melgi + 1) % NN] & (~0ULL >> 33));
    lung = (x >> 1) ^ (x & 1ULL ? 0x5c32e06df730fc42ULL : 0ULL) ^ melg[(melgi + MM) % NN] ^ (lung ^ (lung << 23));
    melg[melgi] = x ^ (lung ^ (lung >> 33));
    x = melg[melgi] ^ (melg[melgi] << 16);
    x = x ^ (melg[(melgi + LAG1) % NN] & 0x6aede6fd97b338ecULL);
    melgi = (melgi + 1) % NN;
    return x;
  }
};

struct Ref_Pcg
{
  uint64_t state, inc;
  Ref_Pcg (uint64_t initstate, uint64_t initseq)
  {
    state = 0U;
    inc = (initseq << 1u) | 1u;
    (*this) ();
    state += initstate;
    (*this) ();
  }
  uint32_t
  operator() ()
  {
    const uint64_t old = state;
    state = old * 6364136223846793005ULL + inc;
    const uint32_t xorshifted = uint32_t (((old >> 18u) ^ old) >> 27u);
    const uint32_t rot = uint32_t (old >> 59u);
    return (xorshifted >> rot) | (xorshifted << ((32u - rot) & 31u));
  }
};

static const Mt_Params P11213a = { 351, 175, 19, 0xE4BD75F5ULL, 11, 0xFFFFFFFFULL, 7, 0x655E5280ULL, 15, 0xFFD58000ULL, 17 };
static const Mt_Params P11213b = { 351, 175, 19, 0xCCAB8EE7ULL, 11, 0xFFFFFFFFULL, 7, 0x31B6AB00ULL, 15, 0xFFE50000ULL, 17 };
static const Mt_Params P19937 = { 624, 397, 31, 0x9908B0DFULL, 11, 0xFFFFFFFFULL, 7, 0x9D2C5680ULL, 15, 0xEFC60000ULL, 18 };

// seeds: 0 = one 64-bit word split in two halves by the constructor
static unsigned
keys (uint64_t *key, int count, int bits)
{
  if (count == 0)
    {
      const uint64_t s = vs_word ("seed", 64);
      key[0] = s;
      return 1;
    }
  for (int i = 0; i < count; ++i)
    key[i] = i % 7 == 0 || i > count - 3 ? vs_word ("key", bits) : 0x9E3779B97F4A7C15ULL * (i + 1) >> (64 - bits);
  return count;
}

template <class G, class R>
static void
compare (const G &g, R &r, int n)
{
  for (int i = 0; i < n; ++i)
    {
      const uint64_t a = g.rand ();
      const uint64_t b = r ();
      vs_assert_word (a, b, "published output sequence");
    }
  // a copy continues the same sequence
  G h (g);
  for (int i = 0; i < 3; ++i)
    vs_assert_word (h.rand (), r (), "copy continues the sequence");
  vs_reach ("end");
}

template <class G>
static void
mt32 (const Mt_Params &p, int count, int n)
{
  uint64_t key[1024];
  const unsigned k = keys (key, count, 32);
  if (count == 0)
    {
      const uint64_t half[2] = { key[0] & 0xFFFFFFFFULL, key[0] & 0xFFFFFFFF00000000ULL };
      G g (key[0]);
      Ref_Mt32 r (p, half, 2);
      compare (g, r, n);
    }
  else
    {
      G g (k, key);
      Ref_Mt32 r (p, key, k);
      compare (g, r, n);
    }
}

//@ c01_mt11213a params=0,360;1,5;3,5;352,5 tparams=0,2200;1,800;3,5;352,400 time=100 prop=C01 merge=1
HARNESS (c01_mt11213a) { mt32<Mt11213a_32> (P11213a, vs_param (0), vs_param (1)); }
//@ c01_mt11213b params=0,360;1,5;3,5;352,5 tparams=0,2200;1,800;3,5;352,400 time=100 prop=C01 merge=1
HARNESS (c01_mt11213b) { mt32<Mt11213b_32> (P11213b, vs_param (0), vs_param (1)); }
//@ c01_mt19937 params=0,632;1,5;2,5;625,5 tparams=0,4000;1,1400;2,5;625,700 time=100 prop=C01 merge=1
HARNESS (c01_mt19937) { mt32<Mt19937_32> (P19937, vs_param (0), vs_param (1)); }

//@ c01_mt19937_64 params=0,320;1,5;4,5;313,5 tparams=0,2000;1,1000;4,5;313,400 time=100 prop=C01 merge=1
HARNESS (c01_mt19937_64)
{
  uint64_t key[1024];
  const unsigned k = keys (key, vs_param (0), 64);
  if (vs_param (0) == 0)
    {
      const uint64_t half[2] = { key[0] & 0xFFFFFFFFULL, key[0] & 0xFFFFFFFF00000000ULL };
      Mt19937_64 g (key[0]);
      Ref_Mt64 r (half, 2);
      compare (g, r, vs_param (1));
    }
  else
    {
      Mt19937_64 g (k, key);
      Ref_Mt64 r (key, k);
      compare (g, r, vs_param (1));
    }
}

//@ c01_melg params=0,330;1,5;4,5;312,5 tparams=0,2500;1,1000;4,5;312,400 time=100 prop=C01 merge=1
HARNESS (c01_melg)
{
  uint64_t key[1024];
  const unsigned k = keys (key, vs_param (0), 64);
  if (vs_param (0) == 0)
    {
      const uint64_t half[2] = { key[0] & 0xFFFFFFFFULL, key[0] & 0xFFFFFFFF00000000ULL };
      Melg19937_64 g (key[0]);
      Ref_Melg r (half, 2);
      compare (g, r, vs_param (1));
    }
  else
    {
      Melg19937_64 g (k, key);
      Ref_Melg r (key, k);
      compare (g, r, vs_param (1));
    }
}

//@ c01_pcg params=20 tparams=200 time=100 prop=C01 merge=1
HARNESS (c01_pcg)
{
  const uint64_t seed = vs_word ("seed", 64), sel = vs_word ("selector", 64);
  Pcg_32 g (seed, sel);
  Ref_Pcg r (seed, sel);
  compare (g, r, vs_param (0));
}

// the stated default seeds
//@ c01_defaults time=100 prop=C01 merge=1
HARNESS (c01_defaults)
{
  const uint64_t seed = 9600629759793949339ULL;
  const uint64_t half[2] = { seed & 0xFFFFFFFFULL, seed & 0xFFFFFFFF00000000ULL };
  Mt19937_64 g;
  Ref_Mt64 r (half, 2);
  compare (g, r, 3);
  Mt19937_32 g1;
  Ref_Mt32 r1 (P19937, half, 2);
  compare (g1, r1, 3);
  Pcg_32 g2;
  Ref_Pcg r2 (seed, 7863035247680335341ULL);
  compare (g2, r2, 3);
  vs_reach ("end");
}

// ---- the deviates: words divided by the largest word
template <class G>
static void
range ()
{
  G a (vs_word ("seed", 64));
  for (int i = 0; i < 3; ++i)
    {
      const double x = a ();
      vs_assert (x >= 0.0, "not below zero");
      vs_assert (x <= 1.0, "not above one");
    }
  vs_reach ("end");
}

template <class G>
static void
scale (double words)
{
  const uint64_t seed = vs_word ("seed", 64);
  G a (seed), b (seed);
  for (int i = 0; i < 3; ++i)
    {
      const double x = a ();
      const uint64_t w = b.rand ();
      // the word (or its 53 leading digits) divided by the largest one
      const double y = double (words > 5.0e9 ? w >> 11 : w);
      vs_assert (x * words <= y * (1.0 + 1.0e-15) && x * words >= y * (1.0 - 1.0e-15), "scaled word");
    }
  vs_reach ("end");
}

//@ c02_range mode=fp params=0..5 prop=C02 time=60 merge=1
HARNESS (c02_range)
{
  switch (vs_param (0))
    {
    case 0: range<Mt11213a_32> (); break;
    case 1: range<Mt11213b_32> (); break;
    case 2: range<Mt19937_32> (); break;
    case 3: range<Mt19937_64> (); break;
    case 4: range<Melg19937_64> (); break;
    case 5: range<Pcg_32> (); break;
    }
}

//@ c02_scale mode=real params=0..5 prop=C02 time=60 merge=1
HARNESS (c02_scale)
{
  switch (vs_param (0))
    {
    case 0: scale<Mt11213a_32> (4294967295.0); break;
    case 1: scale<Mt11213b_32> (4294967295.0); break;
    case 2: scale<Mt19937_32> (4294967295.0); break;
    case 3: scale<Mt19937_64> (9007199254740991.0); break;
    case 4: scale<Melg19937_64> (9007199254740991.0); break;
    case 5: scale<Pcg_32> (4294967295.0); break;
    }
}
