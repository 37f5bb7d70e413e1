// Reference definitions: a section of a spectrum, its fitted values and their statistics.
#include <limits>
#include <algorithm>
#include <cmath>
#include <iterator>
#include <map>
#include <ostream>
#include <stdexcept>
#include <string>
#include <valarray>
#include <vector>
using namespace std;

namespace spec {

typedef unsigned natural;
typedef double real;

struct Depth { real operator() (const real &x) const { return x; } };

struct Section
{
  valarray<real> wav, flx, unc;
  valarray<bool> msk;
  valarray<real> opt, atm, cat, cfl, tfl, fit, res;
  size_t n;

  // what a row tells, whatever its format
  void rows (ostream &os, const real a, const real b) const
  {
    for (size_t i = 0; i < n; ++i)
      if (a <= wav[i] and wav[i] <= b)
        os << wav[i] << flx[i] << unc[i] << msk[i] << opt[i] << atm[i] << cat[i] << cfl[i] << tfl[i] << fit[i] << res[i] << flx[i] / cfl[i] << unc[i] / cfl[i] << '\n';
  }

  real lower () const { return n > 0 ? wav[0] : 0.0; }
  real upper () const { return n > 0 ? wav[n - 1] : 0.0; }
  real width () const { return upper () - lower (); }
  real center () const { return (lower () + upper ()) / 2; }
  size_t size () const { return n; }

  size_t counted () const
  {
    size_t k = 0;
    for (size_t i = 0; i < n; ++i)
      if (msk[i])
        ++k;
    return k;
  }

  // half the sum of squared residuals
  real stored () const
  {
    real s = 0;
    for (size_t i = 0; i < n; ++i)
      if (msk[i])
        s += res[i] * res[i];
    return s / 2;
  }

  real cost (const Depth &tau, const real r, const natural m) const
  {
    valarray<real> o (n), t (n), c (n), b (n);
    convolute (r, tau, o, t, c);
    continuum (m, c, b);
    real s = 0;
    for (size_t i = 0; i < n; ++i)
      if (msk[i])
        {
          const real d = (flx[i] - b[i] * c[i]) / unc[i];
          s += d * d;
        }
    return s / 2;
  }

  void apply (const natural m, const real r, const Depth &tau)
  {
    convolute (r, tau, opt, atm, cat);
    continuum (m, cat, cfl);
    tfl = cfl * atm;
    fit = cfl * cat;
    res = (flx - fit) / unc;
  }

  void mask (const real a, const real b)
  {
    for (size_t i = 0; i < n; ++i)
      if (a <= wav[i] and wav[i] <= b)
        msk[i] = false;
  }

  // p is the integral of the Gaussian with half width h, q that of the Gaussian times the abscissa
  static void primitive (const real &x, const real &h, real &p, real &q)
  {
    const real b = h / 0.832554611157697756353;
    const real u = x / b;
    p = erf (u) / 2;
    q = -(b / 1.77245385090551602730) * exp (-(u * u)) / 2;
  }

  static void supersample (const valarray<real> &source, const natural k, valarray<real> &target)
  {
    for (natural i = 0, t = 0; i < source.size (); ++i, t += k)
      target[t] = source[i];
    for (natural j = 1; j < k; ++j)
      for (size_t i = 0, t = j; i + 1 < source.size (); ++i, t += k)
        target[t] = source[i] + (real (j) / real (k)) * (source[i + 1] - source[i]);
  }

  // convolution of the absorption with a Gaussian of resolving power r/1000, piecewise linear between equidistant samples, cut off at four half widths
  void convolute (const real r, const Depth &tau, valarray<real> &opt, valarray<real> &atm, valarray<real> &cat) const
  {
    if (n <= 2)
      return;
    const real h = center () / (r * 1000) / 2;
    const real d = width () / (n - 1);
    const natural s = static_cast<natural> (ceil (d / h));
    const real w = d / s;
    const natural m = static_cast<natural> (4 * (h / w)) + 1;
    valarray<real> p (m), q (m);
    for (natural i = 0; i < m; ++i)
      primitive (i * w, h, p[i], q[i]);
    if (s == 1)
      {
        transform (begin (wav), end (wav), begin (opt), tau);
        atm = exp (-opt);
        for (size_t i = 0; i < n; ++i)
          cat[i] = smooth (atm, i, n, m, w, p, q);
      }
    else
      {
        const size_t ns = s * (n - 1) + 1;
        valarray<real> x (ns), o (ns), t (ns);
        supersample (wav, s, x);
        transform (begin (x), end (x), begin (o), tau);
        t = exp (-o);
        for (size_t k = 0, i = 0; i < n; k += s, ++i)
          {
            opt[i] = o[k];
            atm[i] = t[k];
            cat[i] = smooth (t, k, ns, m, w, p, q);
          }
      }
  }

  static real smooth (const valarray<real> &t, const size_t i, const size_t n, const natural m, const real w, const valarray<real> &p, const valarray<real> &q)
  {
    real a = 0, b = 0;
    for (natural j = 0; j + 1 < m; ++j)
      {
        const size_t k = (i < j + 1) ? 0 : i - j - 1;
        const size_t l = (i + j + 2 > n) ? n - 2 : i + j;
        const real c = (t[l + 1] - t[l]) - (t[k + 1] - t[k]);
        a += (p[j + 1] - p[j]) * (t[k + 1] + t[l] - real (j) * c);
        b += (q[j + 1] - q[j]) * c;
      }
    return a + b / w;
  }

  // weighted linear least squares fit of Legendre polynomials, by Cholesky decomposition of the normal equations
  void continuum (natural m, const valarray<real> &cat, valarray<real> &cfl) const
  {
    if (m == 0)
      {
        for (size_t i = 0; i < n; ++i)
          cfl[i] = 1;
        return;
      }
    valarray<real> b (0.0, m), c (0.0, m);
    valarray<valarray<real> > a (b, m), l (valarray<real> (1.0, n), m);
    if (m > 1)
      {
        l[1] = 2.0 * (wav - lower ()) / width () - 1.0;
        for (natural j = 1; j + 1 < m; ++j)
          l[j + 1] = (real (2 * j + 1) * l[1] * l[j] - real (j) * l[j - 1]) / real (j + 1);
      }
    const valarray<real> p = cat / (unc * unc);
    for (natural j = 0; j < m; ++j)
      {
        for (natural k = j; k < m; ++k)
          for (size_t i = 0; i < n; ++i)
            if (msk[i])
              a[j][k] += cat[i] * p[i] * l[j][i] * l[k][i];
        for (size_t i = 0; i < n; ++i)
          if (msk[i])
            b[j] += flx[i] * p[i] * l[j][i];
      }
    for (natural i = 0; i < m; ++i)
      for (natural j = i; j < m; ++j)
        {
          real s = a[i][j];
          for (natural k = 0; k < i; ++k)
            s -= a[i][k] * a[j][k];
          if (i < j)
            a[j][i] = s / a[i][i];
          else if (s > 0.0)
            a[i][i] = sqrt (s);
          else
            throw runtime_error ("");
        }
    for (natural i = 0; i < m; ++i)
      {
        real s = b[i];
        for (natural k = 0; k < i; ++k)
          s -= a[i][k] * c[k];
        c[i] = s / a[i][i];
      }
    for (natural i = m - 1; i + 1 > 0; --i)
      {
        real s = c[i];
        for (natural k = i + 1; k < m; ++k)
          s -= a[k][i] * c[k];
        c[i] = s / a[i][i];
      }
    cfl = c[0];
    for (natural k = 1; k < m; ++k)
      cfl += c[k] * l[k];
  }
};

// a data file of two or three columns
void columns (ostream &os, const valarray<real> &x, const valarray<real> &y, const valarray<real> &z)
{
  for (size_t i = 0; i < x.size (); ++i)
    {
      os << x[i] << y[i];
      if (z.size () > 0)
        os << z[i];
      os << '\n';
    }
}

void sections (ostream &os, const vector<Section> &s)
{
  for (size_t i = 0; i + 1 < s.size (); ++i)
    {
      s[i].rows (os, 0, numeric_limits<real>::max ());
      os << '\n';
    }
  s[s.size () - 1].rows (os, 0, numeric_limits<real>::max ());
}

void trace (ostream &os, natural g, real y, real a, real b) { os << g << y << a << b << '\n'; }

struct Report
{
  vector<Section> sections;
  valarray<natural> isc, nle, nli;
  valarray<real> val, unc;
  valarray<bool> msk;
  map<string, natural> section_name_map, profile_name_map;

  void parameter (ostream &os, natural i) const
  {
    os << val[i];
    if (msk[i])
      os << unc[i];
  }

  void table (ostream &os) const
  {
    for (map<string, natural>::const_iterator i = section_name_map.begin (); i != section_name_map.end (); ++i)
      {
        const Section &s = sections[i->second];
        const size_t k = s.counted ();
        const real c = s.stored ();
        os << i->first << s.lower () << s.upper () << nle[i->second];
        parameter (os, isc[i->second]);
        os << k << c << c / k;
      }
  }

  static real width () { return 0; }

  void lines (ostream &os, const bool alpha) const
  {
    for (map<string, natural>::const_iterator i = profile_name_map.begin (); i != profile_name_map.end (); ++i)
      {
        const natural j = i->second;
        const real c = 299792.458;
        const real x = val[j], z = val[j + 2], v = val[j + 3];
        const real a = (1 + v / c) * unc[j + 2], b = (1 + z) * unc[j + 3] / c;
        os << i->first << x * (1 + z) * (1 + v / c) << unc[j] + x * sqrt (a * a + b * b);
        parameter (os, j);
        parameter (os, j + 1);
        parameter (os, j + 2);
        parameter (os, j + 3);
        parameter (os, j + 4);
        parameter (os, j + 5);
        os << width ();
        if (alpha)
          parameter (os, j + 7);
      }
  }
};

}
