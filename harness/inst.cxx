// Instantiates every template of the library so that the analysis sees its
// type-checked bodies; never compiled into a program and never run.
#include "core/base.h"
#include "core/dataio.h"
#include "core/decompose.h"
#include "core/deviates.h"
#include "core/equations.h"
#include "core/exitcodes.h"
#include "core/integrator.h"
#include "core/model.h"
#include "core/optimize.h"
#include "core/optimizer.h"
#include "core/profiles.h"
#include "core/random.h"
#include "core/readline.h"
#include "core/runner.h"
#include "core/section.h"
namespace especia {
template class Model<Intergalactic_Doppler>;
template class Model<Intergalactic_Voigt<Pseudo_Voigt> >;
template class Model<Intergalactic_Voigt<Extended_Pseudo_Voigt> >;
template class Model<Many_Multiplet>;
template class Superposition<Intergalactic_Doppler>;
template class Integrator<double>;
template class Normal_Deviate<Melg19937_64>;
template class No_Constraint<double>;
template class No_Tracing<double>;
}
typedef double (*vh_fn) (double);
typedef double (*vh_obj) (const double *, especia::natural);
static double vh_obj_fn (const double *, especia::natural);
void vh_instantiate (std::istream &is, std::ostream &os, char *argv[])
{
  using namespace especia;
  using std::string; using std::vector;
  string str; convert<real> (str); convert<word64> (str); convert<natural> (str);
  double xx = 1.0; norm (1, &xx); redshift (xx); sq (xx);
  solve (Equations::edlen66, 1.0, 1.0, 1.0e-8, 100);
  vector<string> s1, s2; vector<natural> n1; vector<real> r1, r2, r3; vector<size_t> u1; vector<bool> b1;
  read (is, s1, 1); read (is, r1, 1); 
  read (is, r1, r2, 1); read (is, r1, r2, r3, 1);
  read (is, s1, r1, r2, r3, 1);
  read (is, s1, r1, r2, r3, n1, 1);
  vector<real> r4;
  read (is, r1, r2, r3, r4, s1, 1);
  Melg19937_64 m (1ULL); m (); m.rand ();
  Mt19937_32 m32 (1ULL); m32 (); m32.rand ();
  Mt19937_64 m64 (1ULL); m64 (); m64.rand ();
  Pcg_32 p32 (1ULL); p32 (); p32.rand ();
  word64 seeds[2] = {1, 2};
  Melg19937_64 ma (2, seeds); Mt19937_32 mb (2, seeds); Mt19937_64 mc (2, seeds);
  Normal_Deviate<Melg19937_64> nd (1ULL), nd2 (m); nd ();
  Integrator<real> in;
  vh_fn f = 0;
  in.integrate (f, 0.0, 1.0, 1.0e-6, 100);
  in.integrate_positive_infinite (f, 1.0e-6, 100);
  in.integrate_negative_infinite (f, 1.0e-6, 100);
  in.integrate_infinite (f, 1.0e-6, 100);
  Optimizer::Builder b;
  Optimizer o = b.build ();
  valarray<real> x (1), d (1);
  o.minimize (vh_obj_fn, x, d, 1.0); o.maximize (vh_obj_fn, x, d, 1.0);
  Intergalactic_Doppler dop; Section sec;
  Superposition<Intergalactic_Doppler> sup (1, &x[0]);
  Convolutor<Integrator<real> > conv (in); 
  conv.convolute (f, f, 1.0);
  Equivalent_Width_Calculator<Integrator<real> > ew (in);
  ew.calculate (dop);
}
