// Reference definitions of the adaptive integration.
#include <cmath>
using namespace std;

namespace spec {

struct Whole
{
  Whole ();
  void refine ();
  double error () const;
  double value () const;
};

// bisect until the error estimate is below the goal or the number of steps is used up
double integrate (const Whole &whole, double goal, unsigned limit)
{
  Whole w (whole);
  unsigned steps = 0;
  while (steps < limit && !(w.error () < goal))
    {
      w.refine ();
      ++steps;
    }
  return w.value ();
}

}
