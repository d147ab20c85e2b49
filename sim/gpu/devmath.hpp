// Device built-ins shared by the CUDA and HIP fronts
#ifndef VSIM_DEVMATH_HPP
#define VSIM_DEVMATH_HPP
#include <cmath>
#include <cstring>
#define VSIM_CASTS(n, T, S) inline T n(S a) { T r; memcpy(&r, &a, sizeof r); return r; }
VSIM_CASTS(__float_as_int, int, float) VSIM_CASTS(__float_as_uint, unsigned, float) VSIM_CASTS(__int_as_float, float, int) VSIM_CASTS(__uint_as_float, float, unsigned)
VSIM_CASTS(__double_as_longlong, long long, double) VSIM_CASTS(__longlong_as_double, double, long long)
#undef VSIM_CASTS
inline float rsqrtf(float a) { return (float)(1.0 / std::sqrt((double)a)); }
inline double rsqrt(double a) { return 1.0 / std::sqrt(a); }
inline float cospif(float a) { return (float)std::cos(M_PI * (double)a); }
inline float sinpif(float a) { return (float)std::sin(M_PI * (double)a); }
inline double cospi(double a) { return std::cos(M_PI * a); }
inline double sinpi(double a) { return std::sin(M_PI * a); }
#endif
