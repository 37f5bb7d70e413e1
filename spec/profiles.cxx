// Reference definitions of the line profiles of core/profiles.h, in terms of the documented parameters.
#include <cmath>
using namespace std;

namespace spec {

// physical constants in SI units, as in core/base.h
const double pi = 3.141592653589793238462643383279502884197169399375;
const double c_light = 299792458.0, e_charge = 1.6021766208E-19, eps0 = 8.854187817E-12, m_e = 9.10938356E-31;
const double root_pi = 1.772453850905516027298167483341145182797549456123;
const double root_ln2 = 0.832554611157697756353164644895201047630588852264;

double gauss (double x, double w) { return exp (-(x / w) * (x / w)) / (root_pi * w); }
double lorentz (double x, double w) { return w / (pi * (w * w + x * x)); }

// central optical depth times width: (e^2 / 4 eps0 m c^2) f N lambda^2, with N in cm-2 and lambda in Angstrom
double strength (double f, double logn, double rest, double seen)
{
  return 1.0E-06 * e_charge * e_charge / (4 * eps0 * m_e * c_light * c_light) * f * pow (10.0, logn) * rest * seen;
}

double shift (double z, double v) { return (1 + z) * (1 + v / (c_light / 1000)); }

double doppler_center (const double *q) { return q[0] * shift (q[2], q[3]); }
double doppler_redshift (const double *q) { return shift (q[2], q[3]); }

double doppler (const double *q, const double &x)
{
  const double seen = q[0] * shift (q[2], q[3]);
  const double width = seen * q[4] / (c_light / 1000);
  const double dist = x - seen;
  if ((dist < 0 ? -dist : dist) < 4 * width)
    return strength (q[1], q[5], q[0], seen) * gauss (dist, width);
  return 0;
}

// the rest wavelength changes with the variation of the fine-structure constant: w = w0 + q ((alpha/alpha0)^2 - 1), in cm-1
double rest_of (const double *q)
{
  const double d = q[7] * 1.0E-06;
  return 1.0E+08 / (1.0E+08 / q[0] + q[6] * ((1 + d) * (1 + d) - 1));
}

double multiplet_center (const double *q) { return rest_of (q) * shift (q[2], q[3]); }
double multiplet_redshift (const double *q) { return shift (q[2], q[3]); }

double multiplet (const double *q, const double &x)
{
  const double rest = rest_of (q);
  const double seen = rest * shift (q[2], q[3]);
  const double width = seen * q[4] / (c_light / 1000);
  const double dist = x - seen;
  if ((dist < 0 ? -dist : dist) < 4 * width)
    return strength (q[1], q[5], rest, seen) * gauss (dist, width);
  return 0;
}

// Thompson, Cox and Hastings (1987) in terms of the half widths
double pseudo (const double &b, const double &d, const double &x)
{
  const double r = root_ln2 * b / d;
  const double h = 1 / pow (1 + 0.07842 * r + 4.47163 * r * r + 2.42843 * r * r * r + 2.69296 * r * r * r * r + r * r * r * r * r, 0.2);
  const double w = d / h;
  const double eta = 1.36603 * h - 0.47719 * h * h + 0.11116 * h * h * h;
  return eta * lorentz (x, w) + (1 - eta) * gauss (x, w / root_ln2);
}

double p6 (double r, double a, double b, double c, double d, double e, double f, double g)
{
  const double r2 = r * r, r3 = r2 * r;
  return a + b * r + c * r2 + d * r3 + e * r2 * r2 + f * r2 * r3 + g * r3 * r3;
}

// Ida, Ando and Toraya (2000)
double extended (const double &b, const double &d, const double &x)
{
  const double g = root_ln2 * b + d;
  const double r = d / g;
  const double wg = g * (1 - r * p6 (r, 0.66000, 0.15021, -1.24984, 4.74052, -9.48291, 8.48252, -2.95553)) / root_ln2;
  const double wl = g * (1 - (1 - r) * p6 (r, -0.42179, -1.25693, 10.30003, -23.45651, 29.14158, -16.50453, 3.19974));
  const double wi = g * p6 (r, 1.19913, 1.43021, -15.36331, 47.06071, -73.61822, 57.92559, -17.80614) / sqrt (pow (2.0, 2.0 / 3.0) - 1);
  const double wp = g * p6 (r, 1.10186, -0.47745, -0.68688, 2.76622, -4.55466, 4.05475, -1.26571) / log (sqrt (2.0) + 1);
  const double el = r * (1 + (1 - r) * p6 (r, -0.30165, -1.38927, 9.31550, -24.10743, 34.96491, -21.18862, 3.70290));
  const double ei = r * (1 - r) * p6 (r, 0.25437, -0.14107, 3.23653, -11.09215, 22.10544, -24.12407, 9.76947);
  const double ep = r * (1 - r) * p6 (r, 1.01579, 1.50429, -9.21815, 23.59717, -39.71134, 32.83023, -10.02142);
  const double irr = 1 / (2 * wi * pow (1 + (x / wi) * (x / wi), 1.5));
  const double ch = cosh (x / wp);
  return el * lorentz (x, wl) + ei * irr + ep / (2 * wp * ch * ch) + (1 - el - ei - ep) * gauss (x, wg);
}

double voigt_center (const double *q) { return q[0] * shift (q[2], q[3]); }
double voigt_redshift (const double *q) { return shift (q[2], q[3]); }

// damping constant in s-1, wavelengths in Angstrom
double voigt_damping (const double *q) { return q[6] * 1.0E-10 / (4 * pi * c_light) * q[0] * voigt_center (q); }
double voigt_width (const double *q) { return q[4] * voigt_center (q) / (c_light / 1000); }
double voigt_strength (const double *q) { return strength (q[1], q[5], q[0], voigt_center (q)); }

double voigt_pseudo (const double *q, const double &x)
{
  return voigt_strength (q) * pseudo (voigt_width (q), voigt_damping (q), x - voigt_center (q));
}

double voigt_extended (const double *q, const double &x)
{
  return voigt_strength (q) * extended (voigt_width (q), voigt_damping (q), x - voigt_center (q));
}

}
