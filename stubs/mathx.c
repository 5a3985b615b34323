/* exact stand-ins for C library functions the IR engine has no primitive for */
#include <math.h>
double modf(double x, double *ip) {
  double t = trunc(x);
  *ip = t;
  return x - t;
}
long lroundf(float x) { return lround((double)x); }
float ldexpf(float x, int e) { return (float)ldexp((double)x, e); }
