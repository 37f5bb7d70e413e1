// Reference definitions: columns of data files.
#include <istream>
#include <sstream>
#include <string>
#include <valarray>
#include <vector>
using namespace std;

namespace spec {

typedef unsigned natural;
typedef double real;

istream &columns2 (istream &is, valarray<real> &x, valarray<real> &y, natural skip)
{
  vector<real> u, v;
  size_t n = 0;
  string s;
  while (getline (is, s))
    {
      if (skip > 0)
        {
          --skip;
          continue;
        }
      istringstream row (s);
      real a, b;
      if (not (row >> a >> b))
        {
          is.setstate (ios_base::badbit | ios_base::failbit);
          return is;
        }
      u.push_back (a);
      v.push_back (b);
      ++n;
    }
  if (n > 0 and is.eof ())
    {
      x.resize (n);
      y.resize (n);
      for (size_t i = 0; i < n; ++i)
        {
          x[i] = u[i];
          y[i] = v[i];
        }
      is.clear (is.rdstate () & ~ios_base::failbit);
    }
  else
    is.setstate (ios_base::failbit);
  return is;
}

istream &columns3 (istream &is, valarray<real> &x, valarray<real> &y, valarray<real> &z, natural skip)
{
  vector<real> u, v, w;
  size_t n = 0;
  string s;
  while (getline (is, s))
    {
      if (skip > 0)
        {
          --skip;
          continue;
        }
      istringstream row (s);
      real a, b, c;
      if (not (row >> a >> b))
        {
          is.setstate (ios_base::badbit | ios_base::failbit);
          return is;
        }
      u.push_back (a);
      v.push_back (b);
      if (row >> c)
        w.push_back (c);
      else
        w.push_back (0.0);
      ++n;
    }
  if (n > 0 and is.eof ())
    {
      x.resize (n);
      y.resize (n);
      z.resize (n);
      for (size_t i = 0; i < n; ++i)
        {
          x[i] = u[i];
          y[i] = v[i];
          z[i] = w[i];
        }
      is.clear (is.rdstate () & ~ios_base::failbit);
    }
  else
    is.setstate (ios_base::failbit);
  return is;
}

struct Section
{
  valarray<real> wav, flx, unc;
  valarray<bool> msk;
  valarray<real> opt, atm, cat, cfl, tfl, fit, res;
  size_t n;

  // a section ends with an empty line
  istream &get (istream &is, const real a, const real b)
  {
    vector<real> x, y, z;
    vector<bool> w;
    size_t k = 0;
    string s;
    while (getline (is, s) and not s.empty ())
      {
        if (s[0] == '#' or s[0] == '%' or s[0] == '!')
          continue;
        istringstream row (s);
        real p, q, r;
        bool m;
        if (not (row >> p >> q))
          {
            is.setstate (ios_base::badbit | ios_base::failbit);
            return is;
          }
        if (a <= p and p <= b)
          {
            x.push_back (p);
            y.push_back (q);
            if (row >> r)
              z.push_back (r);
            else
              z.push_back (1.0);
            if (row >> m)
              w.push_back (m);
            else
              w.push_back (true);
            ++k;
          }
      }
    if (k > 0)
      {
        wav.resize (k);
        flx.resize (k);
        unc.resize (k);
        msk.resize (k);
        opt.resize (k, 0.0);
        atm.resize (k, 0.0);
        cat.resize (k, 0.0);
        cfl.resize (k, 0.0);
        tfl.resize (k, 0.0);
        fit.resize (k, 0.0);
        res.resize (k, 0.0);
        n = k;
        for (size_t i = 0; i < k; ++i)
          {
            wav[i] = x[i];
            flx[i] = y[i];
            unc[i] = z[i];
            msk[i] = w[i];
          }
        is.clear (is.rdstate () & ~ios_base::failbit);
      }
    else
      is.setstate (ios_base::failbit);
    return is;
  }
};

}
