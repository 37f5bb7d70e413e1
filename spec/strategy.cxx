// Reference definitions: the strategy parameters of the evolution strategy as functions of dimension and parent number.
#include <cmath>
#include <valarray>
using namespace std;

namespace spec {

struct Strategy
{
  unsigned n, parent_number, population_size, update_modulus;
  double accuracy_goal;
  unsigned long random_seed;
  unsigned stop_generation;
  valarray<double> weights;
  double wv, cs, cc, acov, ccov, step_size_damping;

  void derive ()
  {
    const double N = n, m = parent_number;
    valarray<double> w (parent_number);
    double s1 = 0, s2 = 0;
    for (unsigned i = 0; i < parent_number; ++i)
      {
        const double u = log ((m + 0.5) / (i + 1.0));
        w[i] = u;
        s1 += u;
        s2 += u * u;
      }
    const double v = s1 * s1 / s2;
    weights = w;
    wv = v;
    cs = (v + 2) / (N + v + 5);
    cc = (4 + v / N) / (N + 4 + 2 * v / N);
    const double a = 2 / ((N + 1.3) * (N + 1.3) + v);
    acov = a;
    const double c = 2 * (v - 2 + 1 / v) / ((N + 2) * (N + 2) + v);
    ccov = c < 1 - a ? c : 1 - a;
    const double e = sqrt ((v - 1) / (N + 1)) - 1;
    step_size_damping = 1 + 2 * (0 < e ? e : 0) + cs;
  }
};

}
