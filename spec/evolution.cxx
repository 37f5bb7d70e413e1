// Reference definition of the evolution strategy: Hansen and Ostermeier (2001), Hansen (2014), with components of a sampled vector drawn
// one after the other and each redrawn while a bound is violated.
#include <cmath>
#include <exception>
#include <limits>
#include <valarray>
#include <vector>
using namespace std;

namespace spec {

typedef unsigned natural;

struct Objective { double operator() (const double x[], natural n) const; };
struct Constraint { bool is_violated (const double x[], natural n) const; double cost (const double x[], natural n) const; };
struct Deviate { double operator() () const; };
struct Decompose { void operator() (const double A[], double Z[], double w[]) const; };
struct Tracer { bool is_tracing (natural g) const; void trace (natural g, double y, double a, double b) const; };
// the positions of the best values come first in p, in order
void select (const valarray<double> &y, valarray<natural> &p, natural best, natural all);

double length (natural n, const double x[])
{
  double s = 0;
  for (natural i = 0; i < n; ++i)
    s += x[i] * x[i];
  return sqrt (s);
}

void optimize (const Objective &f, const Constraint &constraint, natural n, natural parents, natural population, const double w[], double damping,
               double cs, double cc, double ccov, double acov, natural modulus, double accuracy, natural stop, natural &g, double xw[],
               double &step, double d[], double B[], double C[], double ps[], double pc[], double &yw, bool &optimized, bool &underflow,
               const Deviate &deviate, const Decompose &decompose, const char &less, const Tracer &tracer)
{
  const double chi = (n - 0.25 + 1.0 / (21 * n)) / sqrt (double (n));
  const double condition = 0.01 / numeric_limits<double>::epsilon ();
  double ws = 0;
  for (natural k = 0; k < parents; ++k)
    ws += w[k];
  const double cw = ws / length (parents, w);

  valarray<double> zero (n), a (n), b (n);
  valarray<valarray<double>> u (zero, population), v (zero, population), x (zero, population);
  valarray<double> y (population);
  valarray<natural> best (population);

  while (g < stop)
    {
      for (natural k = 0; k < population; ++k)
        {
          a = 0.0;
          b = 0.0;
          for (natural j = 0; j < n; ++j)
            {
              do
                {
                  const double z = deviate ();
                  for (natural i = 0; i < n; ++i)
                    {
                      v[k][i] = b[i] + B[j * n + i] * z;
                      u[k][i] = a[i] + B[j * n + i] * d[j] * z;
                      x[k][i] = xw[i] + step * u[k][i];
                    }
                }
              while (constraint.is_violated (&x[k][0], n));
              a = u[k];
              b = v[k];
            }
        }
      // every individual is evaluated, then the first failure is reported
      vector<exception_ptr> failure (population);
      for (natural k = 0; k < population; ++k)
        {
          try
            {
              y[k] = f (&x[k][0], n) + constraint.cost (&x[k][0], n);
            }
          catch (...)
            {
              failure[k] = current_exception ();
            }
        }
      for (natural k = 0; k < population; ++k)
        if (failure[k])
          rethrow_exception (failure[k]);
      for (natural k = 0; k < population; ++k)
        best[k] = k;
      select (y, best, parents, population);
      ++g;
      underflow = y[best[0]] == y[best[parents]];
      if (underflow)
        break;
      for (natural i = 0; i < n; ++i)
        {
          double su = 0, sv = 0, sx = 0;
          for (natural k = 0; k < parents; ++k)
            {
              su += w[k] * u[best[k]][i];
              sv += w[k] * v[best[k]][i];
              sx += w[k] * x[best[k]][i];
            }
          a[i] = su / ws;
          b[i] = sv / ws;
          xw[i] = sx / ws;
        }
      if (acov > 0.0 || ccov > 0.0)
        {
          for (natural j = 0; j < n; ++j)
            {
              pc[j] = (1 - cc) * pc[j] + sqrt (cc * (2 - cc)) * cw * a[j];
              for (natural i = 0; i <= j; ++i)
              {
                double z = 0;
                for (natural k = 0; k < parents; ++k)
                  z += w[k] * u[best[k]][i] * u[best[k]][j];
                const double c = C[j * n + i];
                C[j * n + i] = c + acov * (pc[i] * pc[j] - c) + ccov * (z / ws - c);
              }
            }
          if (g % modulus == 0)
            {
              decompose (C, B, d);
              const double t = d[n - 1] / condition - d[0];
              if (t > 0.0)
                for (natural i = 0; i < n; ++i)
                  {
                    C[i * n + i] += t;
                    d[i] += t;
                  }
              for (natural i = 0; i < n; ++i)
                d[i] = sqrt (d[i]);
            }
        }
      for (natural i = 0; i < n; ++i)
        ps[i] = (1 - cs) * ps[i] + sqrt (cs * (2 - cs)) * cw * b[i];
      step *= exp (cs / damping * (length (n, ps) / chi - 1));
      for (natural i = 0; i < n; ++i)
        {
          optimized = step * step * C[i * n + i] < accuracy * xw[i] * (accuracy * xw[i]) + 1 / condition;
          if (!optimized)
            break;
        }
      if (optimized || tracer.is_tracing (g))
        tracer.trace (g, f (xw, n) + constraint.cost (xw, n), step * d[0], step * d[n - 1]);
      if (optimized)
        break;
    }
  yw = f (xw, n) + constraint.cost (xw, n);
}

// standard uncertainties from the curvature of a parabola through three points along each principal axis
void postopti (const Objective &f, const Constraint &constraint, natural n, const double x[], const double d[], const double B[],
               const double C[], const double s, double z[])
{
  const double zx = f (x, n) + constraint.cost (x, n);
  valarray<double> g (s, n);
  for (natural j = 0; j < n; ++j)
    {
      double a = 0.0, b = 0.0, c = g[j];
      do
        {
          valarray<double> p (x, n), q (x, n);
          for (natural i = 0; i < n; ++i)
            {
              p[i] = x[i] + c * B[j * n + i] * d[j];
              q[i] = x[i] - c * B[j * n + i] * d[j];
            }
          double zp, zq;
          exception_ptr ep, eq;
          try
            {
              zp = f (&p[0], n) + constraint.cost (&p[0], n);
            }
          catch (...)
            {
              ep = current_exception ();
            }
          try
            {
              zq = f (&q[0], n) + constraint.cost (&q[0], n);
            }
          catch (...)
            {
              eq = current_exception ();
            }
          if (ep)
            rethrow_exception (ep);
          if (eq)
            rethrow_exception (eq);
          g[j] = c / sqrt (abs (zp + zq - 2 * zx));
          if (abs ((zp + zq) / 2 - zx) < 0.5)
            {
              a = c;
              c *= 1.618;
            }
          else
            {
              b = c;
              c *= 0.618;
            }
        }
      while (a == 0.0 || b == 0.0);
    }
  double t = 0;
  for (natural j = 0; j < n; ++j)
    t += log (g[j]);
  const double h = exp (t / n);
  for (natural i = 0; i < n; ++i)
    z[i] = h * sqrt (C[i * n + i]);
}

}
