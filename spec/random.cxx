// Reference definitions: the published pseudo-random generators and the polar method for normal deviates.
#include <cmath>
#include <limits>
#include <valarray>
using namespace std;

namespace spec {

typedef unsigned long W;
typedef unsigned int V;

// MELG (Harase and Kimoto, 2018)
template <V w, V n, V m, V l, W mult1, W mult2, W mult3>
struct Melg
{
  valarray<W> state;
  V index, cycle;

  explicit Melg (W seed) : state (n + 1)
  {
    const W seeds[] = { seed & 0x00000000FFFFFFFFULL, seed & 0xFFFFFFFF00000000ULL };
    init (2, seeds);
  }

  Melg (V count, const W seeds[]) : state (n + 1) { init (count, seeds); }

  void init (V count, const W seeds[])
  {
    state[0] = 19650218ULL;
    for (V k = 1; k < n + 1; ++k)
      state[k] = (state[k - 1] ^ (state[k - 1] >> 62)) * mult1 + k;
    V i = 1, j = 0;
    for (V k = n > count ? n : count; k > 0; --k)
      {
        state[i] = (state[i] ^ ((state[i - 1] ^ (state[i - 1] >> 62)) * mult2)) + seeds[j] + j;
        ++i;
        ++j;
        if (i >= n)
          {
            state[0] = state[n - 1];
            i = 1;
          }
        if (j >= count)
          j = 0;
      }
    for (V k = n - 1; k > 0; --k)
      {
        state[i] = (state[i] ^ ((state[i - 1] ^ (state[i - 1] >> 62)) * mult3)) - i;
        ++i;
        if (i >= n)
          {
            state[0] = state[n - 1];
            i = 1;
          }
      }
    state[n] = (state[n] ^ ((state[n - 1] ^ (state[n - 1] >> 62)) * mult3)) - n;
    state[0] = state[0] | 0x8000000000000000ULL;
    index = 0;
    cycle = 1;
  }

  W rand ()
  {
    const V i = index;
    const V here = cycle == 4 ? n - 1 : i;
    const V next = cycle == 4 ? 0 : i + 1;
    const V far = cycle == 1 ? i + m : cycle == 4 ? m - 1 : i + m - n;
    const V lag = cycle == 1 || cycle == 2 ? i + l : i - (n - l);
    const W x = (state[here] & 0xFFFFFFFF80000000ULL) | (state[next] & 0x7FFFFFFFULL);
    const W lung = (x >> 1) ^ ((x & 1ULL) != 0 ? 0x5C32E06DF730FC42ULL : 0ULL) ^ state[far] ^ (state[n] ^ (state[n] << 23));
    state[n] = lung;
    state[here] = x ^ (lung ^ (lung >> 33));
    const W y = state[here];
    const W r = y ^ (y << 16) ^ (state[lag] & 0x6AEDE6FD97B338ECULL);
    if (cycle == 4)
      {
        index = 0;
        cycle = 1;
      }
    else
      {
        index = i + 1;
        cycle = cycle == 1 && i + 1 == n - m ? 2 : cycle == 2 && i + 1 == n - l ? 3 : cycle == 3 && i + 1 == n - 1 ? 4 : cycle;
      }
    return r;
  }

  double real () { return (rand () >> 11) * (1 / (double) 9007199254740991UL); }
};

template struct Melg<64, 311, 81, 19, 6364136223846793005ULL, 3935559000370003845ULL, 2862933555777941757ULL>;

// Mersenne Twister (Matsumoto and Nishimura, 1998, 2002, 2004)
template <V w, V n, V m, V r, W a, V u, W d, V s, W b, V t, W c, V l, W mult1, W mult2, W mult3>
struct Mersenne_Twister
{
  valarray<W> state;
  V index;

  static W word () { return w == 64 ? 0xFFFFFFFFFFFFFFFFULL : (1ULL << w) - 1; }
  static W lower () { return (1ULL << r) - 1; }
  static W upper () { return word () & ~lower (); }

  explicit Mersenne_Twister (W seed) : state (n)
  {
    const W seeds[] = { seed & 0x00000000FFFFFFFFULL, seed & 0xFFFFFFFF00000000ULL };
    init (2, seeds);
  }

  Mersenne_Twister (V count, const W seeds[]) : state (n) { init (count, seeds); }

  void init (V count, const W seeds[])
  {
    state[0] = 19650218ULL & word ();
    for (V k = 1; k < n; ++k)
      state[k] = ((state[k - 1] ^ (state[k - 1] >> (w - 2))) * mult1 + k) & word ();
    V i = 1, j = 0;
    for (V k = n > count ? n : count; k > 0; --k)
      {
        state[i] = ((state[i] ^ ((state[i - 1] ^ (state[i - 1] >> (w - 2))) * mult2)) + seeds[j] + j) & word ();
        ++i;
        if (i >= n)
          {
            state[0] = state[n - 1];
            i = 1;
          }
        ++j;
        if (j >= count)
          j = 0;
      }
    for (V k = n - 1; k > 0; --k)
      {
        state[i] = ((state[i] ^ ((state[i - 1] ^ (state[i - 1] >> (w - 2))) * mult3)) - i) & word ();
        ++i;
        if (i >= n)
          {
            state[0] = state[n - 1];
            i = 1;
          }
      }
    state[0] = 1ULL << (w - 1);
    index = n;
  }

  void renew (V i, V j, V k)
  {
    const W y = (state[j] & upper ()) | (state[k] & lower ());
    const W z = state[i] ^ (y >> 1);
    state[j] = (state[k] & 1ULL) == 1ULL ? z ^ a : z;
  }

  W rand ()
  {
    if (index == n)
      {
        for (V k = 0; k < n - m; ++k)
          renew (k + m, k, k + 1);
        for (V k = n - m; k < n - 1; ++k)
          renew (k + m - n, k, k + 1);
        renew (m - 1, n - 1, 0);
        index = 0;
      }
    W y = state[index];
    ++index;
    y ^= (y >> u) & d;
    y ^= (y << s) & b;
    y ^= (y << t) & c;
    y ^= y >> l;
    return y;
  }

  double real () { return w < 53 ? rand () * (1.0 / 4294967295.0) : (rand () >> (w - 53)) * (1 / (double) 9007199254740991UL); }
};

template struct Mersenne_Twister<32, 624, 397, 31, 0x9908B0DFULL, 11, 0xFFFFFFFFULL, 7, 0x9D2C5680ULL, 15, 0xEFC60000ULL, 18,
                                 1812433253ULL, 1664525ULL, 1566083941ULL>;
template struct Mersenne_Twister<64, 312, 156, 31, 0xB5026F5AA96619E9ULL, 29, 0x5555555555555555ULL, 17, 0x71D67FFFEDA60000ULL, 37,
                                 0xFFF7EEE000000000ULL, 43, 6364136223846793005ULL, 3935559000370003845ULL, 2862933555777941757ULL>;

// PCG-XSH-RR (O'Neill, 2014)
template <W mult> struct Pcg
{
  W inc, state;

  Pcg (W seed, W selector) : inc ((selector << 1) | 1)
  {
    state = 0;
    rand ();
    state = state + seed;
    rand ();
  }

  V rand ()
  {
    const W old = state;
    state = old * mult + inc;
    const V s = ((old >> 18) ^ old) >> 27;
    const V r = old >> 59;
    return (s >> r) | (s << ((-r) & 31));
  }

  double real () { return rand () / 4294967295.0; }
};

template struct Pcg<6364136223846793005ULL>;

struct Generator
{
  unsigned long position;
  double draw ();
};

// Marsaglia's polar method; two deviates from each accepted point
struct Normal
{
  Generator uniform_deviate;
  bool status;
  double x, y;

  double next ()
  {
    if (status)
      {
        status = false;
        return y;
      }
    status = true;
    double a, b, t;
    do
      {
        a = 2 * uniform_deviate.draw () - 1;
        b = 2 * uniform_deviate.draw () - 1;
        t = a * a + b * b;
      }
    while (!(t < 1 && t != 0));
    const double f = sqrt (-2 * log (t) / t);
    x = a * f;
    y = b * f;
    return x;
  }
};

}
