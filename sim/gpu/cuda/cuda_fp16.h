#ifndef VSIM_CUDA_FP16_H
#define VSIM_CUDA_FP16_H
#include "../half.hpp"
struct __half {
  unsigned short __x;
  __half() = default;
  __half(float f) : __x(gpusim::f2h(f)) {}
  __half(double f) : __x(gpusim::d2h(f)) {}
  __half(int f) : __x(gpusim::d2h(double(f))) {}
  __half(unsigned f) : __x(gpusim::d2h(double(f))) {}
  __half(short f) : __x(gpusim::f2h(float(f))) {}
  __half(unsigned short f) : __x(gpusim::d2h(double(f))) {}
  __half(long f) : __x(gpusim::d2h(double(f))) {}
  __half(unsigned long f) : __x(gpusim::d2h(double(f))) {}
  __half(long long f) : __x(gpusim::d2h(double(f))) {}
  __half(unsigned long long f) : __x(gpusim::d2h(double(f))) {}
  operator float() const { return gpusim::h2f(__x); }
};
typedef __half half;
inline __half __float2half(float f) { return __half(f); }
inline float __half2float(__half h) { return gpusim::h2f(h.__x); }
inline __half vsim_half_bits(unsigned short u) { __half h; h.__x = u; return h; }
#define VSIM_H2(n, e) inline __half n(__half a, __half b) { float x = a, y = b; (void)x; (void)y; return e; }
#define VSIM_HC(n, e) inline bool n(__half a, __half b) { float x = a, y = b; return e; }
VSIM_H2(__hadd, __half(x + y)) VSIM_H2(__hsub, __half(x - y)) VSIM_H2(__hmul, __half(x * y)) VSIM_H2(__hdiv, __half(x / y))
VSIM_HC(__heq, x == y) VSIM_HC(__hne, x != y && x == x && y == y) VSIM_HC(__hlt, x < y) VSIM_HC(__hle, x <= y) VSIM_HC(__hgt, x > y) VSIM_HC(__hge, x >= y)
VSIM_HC(__hneu, x != y)
// the product of two halves is exact in double, one more addition rounds once:
// a double sum that is then rounded to half could round twice, so nudge it odd
inline __half __hfma(__half a, __half b, __half c) {
  double p = double(float(a)) * double(float(b)), q = double(float(c));
  double s = p + q;
  if (std::isfinite(s)) {
    double bb = s - p, err = (p - (s - bb)) + (q - bb); // exact error of the sum
    if (err != 0) {
      unsigned long u; memcpy(&u, &s, 8);
      if (!(u & 1)) { bool up = (err > 0) == (s > 0); if (s == 0) return __half(err); u += up ? 1 : -1ul; memcpy(&s, &u, 8); }
    }
  }
  return __half(s);
}
inline __half __hneg(__half a) { return vsim_half_bits((unsigned short)(a.__x ^ 0x8000)); }
inline __half __habs(__half a) { return vsim_half_bits((unsigned short)(a.__x & 0x7fff)); }
inline __half __hmin(__half a, __half b) { float x = a, y = b; if (x != x) return b; if (y != y) return a; return x < y ? a : b; }
inline __half __hmax(__half a, __half b) { float x = a, y = b; if (x != x) return b; if (y != y) return a; return x > y ? a : b; }
inline bool __hisnan(__half a) { float x = a; return x != x; }
inline short __half_as_short(__half a) { short s; memcpy(&s, &a.__x, 2); return s; }
inline unsigned short __half_as_ushort(__half a) { return a.__x; }
inline __half __short_as_half(short s) { return vsim_half_bits((unsigned short)s); }
inline __half __ushort_as_half(unsigned short s) { return vsim_half_bits(s); }
inline __half hsqrt(__half a) { return __half((float)std::sqrt((double)(float)a)); }
inline __half hrcp(__half a) { return __half(1.0f / (float)a); }
inline __half hrsqrt(__half a) { return __half((float)(1.0 / std::sqrt((double)(float)a))); }
#define VSIM_H1(n, e) inline __half n(__half a) { double x = (float)a; return __half(e); }
VSIM_H1(hsin, std::sin(x)) VSIM_H1(hcos, std::cos(x)) VSIM_H1(hexp, std::exp(x)) VSIM_H1(hexp2, std::exp2(x)) VSIM_H1(hexp10, std::pow(10.0, x))
VSIM_H1(hlog, std::log(x)) VSIM_H1(hlog2, std::log2(x)) VSIM_H1(hlog10, std::log10(x))
inline __half hceil(__half a) { return __half(std::ceil((float)a)); }
inline __half hfloor(__half a) { return __half(std::floor((float)a)); }
inline __half htrunc(__half a) { return __half(std::trunc((float)a)); }
inline __half hrint(__half a) { return __half(std::nearbyint((float)a)); }
inline __half operator+(__half a, __half b) { return __hadd(a, b); }
inline __half operator-(__half a, __half b) { return __hsub(a, b); }
inline __half operator*(__half a, __half b) { return __hmul(a, b); }
inline __half operator/(__half a, __half b) { return __hdiv(a, b); }
inline __half operator-(__half a) { return __hneg(a); }
inline bool operator==(__half a, __half b) { return __heq(a, b); }
inline bool operator!=(__half a, __half b) { return __hneu(a, b); }
inline bool operator<(__half a, __half b) { return __hlt(a, b); }
inline bool operator<=(__half a, __half b) { return __hle(a, b); }
inline bool operator>(__half a, __half b) { return __hgt(a, b); }
inline bool operator>=(__half a, __half b) { return __hge(a, b); }
#endif
