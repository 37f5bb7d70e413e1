// Reference definitions: how a model's parameters correspond to the vector of the optimizer.
#include <valarray>
#include <vector>
using namespace std;

namespace spec {

typedef unsigned natural;
typedef double real;

struct Lines { natural n; Lines (natural k, const real q[]) : n (k) {} };
struct Part { real cost (const Lines &lines, const real resolution, const natural degree) const; void apply (const natural degree, const real resolution, const Lines &lines); };

struct Bounds
{
  valarray<real> a, b;
  Bounds (const real lower[], const real upper[], natural n) : a (lower, n), b (upper, n) {}
  bool is_violated (const real x[], natural n) const
  {
    for (natural i = 0; i < n; ++i)
      if (x[i] < a[i] or b[i] < x[i])
        return true;
    return false;
  }
};

struct Table
{
  vector<Part> sections;
  valarray<natural> isc, nle, nli;
  valarray<real> val, unc, lo, up;
  valarray<bool> msk;
  valarray<natural> ind;

  natural count () const { return ind.max () + 1; }

  valarray<real> middle () const
  {
    valarray<real> x (count ());
    for (natural i = 0, j = 0; i < msk.size (); ++i)
      if (msk[i] and ind[i] == j)
        {
          x[j] = (lo[i] + up[i]) / 2;
          ++j;
        }
    return x;
  }

  valarray<real> half () const
  {
    valarray<real> x (count ());
    for (natural i = 0, j = 0; i < msk.size (); ++i)
      if (msk[i] and ind[i] == j)
        {
          x[j] = (up[i] - lo[i]) / 2;
          ++j;
        }
    return x;
  }

  Bounds bounds () const
  {
    valarray<real> a (count ()), b (count ());
    for (natural i = 0, j = 0; i < msk.size (); ++i)
      if (msk[i] and ind[i] == j)
        {
          a[j] = lo[i];
          b[j] = up[i];
          ++j;
        }
    return Bounds (&a[0], &b[0], count ());
  }

  real evaluate (const real x[], natural) const
  {
    valarray<real> v (val);
    for (natural i = 0; i < v.size (); ++i)
      if (msk[i])
        v[i] = x[ind[i]];
    real s = 0;
    for (natural k = 0; k < sections.size (); ++k)
      s += sections[k].cost (Lines (nli[k], &v[isc[k] + 1]), v[isc[k]], nle[k]);
    return s;
  }

  void store (const real x[], const real u[])
  {
    for (natural i = 0; i < val.size (); ++i)
      if (msk[i])
        {
          val[i] = x[ind[i]];
          unc[i] = u[ind[i]];
        }
      else
        unc[i] = 0;
    for (natural k = 0; k < sections.size (); ++k)
      sections[k].apply (nle[k], val[isc[k]], Lines (nli[k], &val[isc[k] + 1]));
  }
};

}
