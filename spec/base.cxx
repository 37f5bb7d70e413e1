// Reference definitions of the small numeric functions of core/base.h.
#include <cmath>
#include <stdexcept>
#include <string>
using namespace std;

namespace spec {

typedef void (&Fun) (const double &, double &, double &);

// Newton's method: every value returned has been reached by a step smaller than the accuracy goal relative to it.
double solve (Fun &f, double c, double x, double goal, unsigned limit)
{
  unsigned k = 0;
  while (k != limit)
    {
      double value, slope;
      f (x, value, slope);
      const double step = (value - c) / slope;
      const double next = x - step;
      if ((step < 0 ? -step : step) < goal * next)
        return next;
      x = next;
      ++k;
    }
  throw runtime_error ("");
}

double redshift (const double &v)
{
  const double beta = v / 299792458.0;
  return sqrt ((1 + beta) / (1 - beta)) - 1;
}

double sq (const double &x) { return x * x; }

double norm (unsigned n, const double *x)
{
  double s = 0;
  for (unsigned i = 0; i < n; ++i)
    s += x[i] * x[i];
  return sqrt (s);
}

}
