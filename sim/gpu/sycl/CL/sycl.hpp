// The part of SYCL 2020 that the code under test uses, on the simulated device.
#ifndef VSIM_SYCL_HPP
#define VSIM_SYCL_HPP
#include "../../gpusim.hpp"
#include "../../half.hpp"
#include <climits>
#include <cmath>
#include <cstdint>
#include <exception>
#include <limits>
#include <memory>
#include <stdexcept>
#include <type_traits>
#include <vector>
#define SYCL_EXTERNAL
namespace sycl {

typedef std::int8_t cl_char; typedef std::uint8_t cl_uchar; typedef std::int16_t cl_short; typedef std::uint16_t cl_ushort;
typedef std::int32_t cl_int; typedef std::uint32_t cl_uint; typedef std::int64_t cl_long; typedef std::uint64_t cl_ulong;
typedef float cl_float; typedef double cl_double;

class half {
  unsigned short x;
public:
  half() = default;
  half(float const &f) : x(gpusim::f2h(f)) {}
  operator float() const { return gpusim::h2f(x); }
  half &operator+=(half const &b) { return *this = half(float(*this) + float(b)); }
  half &operator-=(half const &b) { return *this = half(float(*this) - float(b)); }
  half &operator*=(half const &b) { return *this = half(float(*this) * float(b)); }
  half &operator/=(half const &b) { return *this = half(float(*this) / float(b)); }
  half operator-() const { half r; r.x = (unsigned short)(x ^ 0x8000); return r; }
};
inline half operator+(half a, half b) { return a += b; }
inline half operator-(half a, half b) { return a -= b; }
inline half operator*(half a, half b) { return a *= b; }
inline half operator/(half a, half b) { return a /= b; }
#define VSIM_M(op, T, R) inline R operator op(T a, half b) { return R(float(a) op float(b)); } inline R operator op(half a, T b) { return R(float(a) op float(b)); }
#define VSIM_MT(T, R) VSIM_M(+, T, R) VSIM_M(-, T, R) VSIM_M(*, T, R) VSIM_M(/, T, R) VSIM_M(==, T, bool) VSIM_M(!=, T, bool) VSIM_M(<, T, bool) VSIM_M(<=, T, bool) VSIM_M(>, T, bool) VSIM_M(>=, T, bool)
VSIM_MT(float, float) VSIM_MT(double, double) VSIM_MT(int, half) VSIM_MT(long, half)
#undef VSIM_M
#undef VSIM_MT
#define VSIM_C(op) inline bool operator op(half a, half b) { return float(a) op float(b); }
VSIM_C(==) VSIM_C(!=) VSIM_C(<) VSIM_C(<=) VSIM_C(>) VSIM_C(>=)
#undef VSIM_C

class exception : public std::exception {
  std::string w;
public:
  exception(std::string const &s = "simulated error") : w(s) {}
  const char *what() const noexcept { return w.c_str(); }
};
typedef std::vector<std::exception_ptr> exception_list;
typedef std::function<void(exception_list)> async_handler;

template <int D> struct id { size_t v; size_t get(int) const { return v; } operator size_t() const { return v; } size_t operator[](int) const { return v; } };
template <int D> struct range { size_t v; range(size_t n) : v(n) {} size_t get(int) const { return v; } size_t size() const { return v; } };
template <int D> struct nd_range { range<D> g, l; nd_range(range<D> a, range<D> b) : g(a), l(b) {} };
template <int D> struct nd_item {
  size_t gi, li, gr;
  id<D> get_global_id() const { return id<D>{gi}; }
  size_t get_global_id(int) const { return gi; }
  size_t get_global_linear_id() const { return gi; }
  id<D> get_local_id() const { return id<D>{li}; }
  size_t get_local_id(int) const { return li; }
  id<D> get_group_id() const { return id<D>{gr}; }
  size_t get_group(int) const { return gr; }
};

struct default_selector {}; struct gpu_selector {}; struct cpu_selector {};

class queue;
class event {
  friend class queue;
  unsigned long t;
  queue *q;
public:
  event() : t(0), q(0) {}
  void wait() { gpusim::Quiet qq; if (t) gpusim::Runtime::get().wait(t); }
  void wait_and_throw();
};

class queue {
  std::shared_ptr<async_handler> h; // shared by all copies of one queue
  event put(unsigned g, unsigned b, std::function<void()> f) {
    gpusim::Runtime &r = gpusim::Runtime::get();
    event e;
    e.t = r.submit(-1, g, b, f)->id; // an out-of-order queue
    e.q = this;
    return e;
  }
public:
  template <typename S> queue(S, async_handler a) : h(new async_handler(a)) {}
  template <typename S> explicit queue(S) : h(new async_handler()) {}
  queue() : h(new async_handler()) {}
  template <typename F> event parallel_for(nd_range<1> n, F f) {
    gpusim::Quiet qq;
    gpusim::Runtime &r = gpusim::Runtime::get();
    r.launches++;
    if (n.l.v == 0 || n.g.v % n.l.v) throw exception("non-uniform work-groups are not supported");
    if (n.l.v > 1024) throw exception("work-group too large");
    if (n.g.v == 0) { r.empty_launches++; return event(); }
    return put(unsigned(n.g.v / n.l.v), unsigned(n.l.v), [=]() {
      nd_item<1> i;
      i.li = gpusim::threadIdx.x; i.gr = gpusim::blockIdx.x; i.gi = size_t(gpusim::blockIdx.x) * gpusim::blockDim.x + gpusim::threadIdx.x;
      f(i);
    });
  }
  template <typename F> event parallel_for(range<1> n, F f) {
    gpusim::Quiet qq;
    gpusim::Runtime &r = gpusim::Runtime::get();
    r.launches++;
    if (n.v == 0) { r.empty_launches++; return event(); }
    return put(unsigned(n.v), 1, [=]() { f(id<1>{size_t(gpusim::blockIdx.x)}); });
  }
  event memset(void *p, int c, size_t n) {
    gpusim::Quiet qq;
    gpusim::Runtime &r = gpusim::Runtime::get();
    if (r.fails("device memset")) throw exception("memset: out of resources");
    if (n == 0) return event();
    if (!r.find(p, n)) throw exception("memset: not a device range");
    r.sets++;
    return put(0, 0, [=]() { ::memset(p, c, n); });
  }
  event memcpy(void *d, const void *s, size_t n) {
    gpusim::Quiet qq;
    gpusim::Runtime &r = gpusim::Runtime::get();
    r.copies++;
    if (n == 0) return event();
    if ((!r.find(d, n) && r.touches(d, n)) || (!r.find(s, n) && r.touches(s, n))) throw exception("memcpy: outside the allocation");
    return put(0, 0, [=]() { ::memcpy(d, s, n); });
  }
  template <typename T> event copy(const T *s, T *d, size_t n) { return memcpy(d, s, n * sizeof(T)); }
  template <typename T> event fill(void *p, T const &v, size_t n) {
    gpusim::Quiet qq;
    if (n == 0) return event();
    return put(0, 0, [=]() { for (size_t i = 0; i < n; i++) ((T *)p)[i] = v; });
  }
  void wait() { gpusim::Quiet qq; gpusim::Runtime::get().wait_all(); }
  void wait_and_throw() { wait(); }
};
inline void event::wait_and_throw() { wait(); }

namespace usm { enum class alloc { host, device, shared, unknown }; }
template <typename T> T *malloc_device(size_t n, queue const &) {
  gpusim::Quiet qq;
  gpusim::Runtime &r = gpusim::Runtime::get();
  if (r.fails("device allocation")) return 0;
  size_t b;
  if (__builtin_mul_overflow(n, sizeof(T), &b) || b > (size_t(1) << 32) || b == 0) return 0;
  return (T *)r.alloc(b);
}
inline void *malloc_device(size_t n, queue const &q) { return malloc_device<char>(n, q); }
inline void free(void *p, queue const &) {
  gpusim::Quiet qq;
  gpusim::Runtime &r = gpusim::Runtime::get();
  if (!p) return;
  // unlike cudaFree, nothing waits for work that still uses the block
  r.release(p);
}

// built-in functions
template <typename T> struct is_f_ { static const bool v = std::is_floating_point<T>::value || std::is_same<T, half>::value; };
#define VSIM_F1(n, e)                                                          \
  inline float n(float a) { return (float)(e); }                                      \
  inline double n(double a) { return (double)(e); }                                   \
  inline half n(half h) { float a = h; return half((float)(e)); }
VSIM_F1(acos, std::acos(a)) VSIM_F1(asin, std::asin(a)) VSIM_F1(atan, std::atan(a)) VSIM_F1(acosh, std::acosh(a)) VSIM_F1(asinh, std::asinh(a)) VSIM_F1(atanh, std::atanh(a))
VSIM_F1(cos, std::cos(a)) VSIM_F1(sin, std::sin(a)) VSIM_F1(tan, std::tan(a)) VSIM_F1(cosh, std::cosh(a)) VSIM_F1(sinh, std::sinh(a)) VSIM_F1(tanh, std::tanh(a))
VSIM_F1(cospi, std::cos(M_PI * a)) VSIM_F1(sinpi, std::sin(M_PI * a)) VSIM_F1(cbrt, std::cbrt(a)) VSIM_F1(ceil, std::ceil(a)) VSIM_F1(floor, std::floor(a)) VSIM_F1(trunc, std::trunc(a)) VSIM_F1(rint, std::nearbyint(a))
VSIM_F1(erf, std::erf(a)) VSIM_F1(erfc, std::erfc(a)) VSIM_F1(exp, std::exp(a)) VSIM_F1(exp2, std::exp2(a)) VSIM_F1(exp10, std::pow(10.0, (double)a)) VSIM_F1(expm1, std::expm1(a))
VSIM_F1(log, std::log(a)) VSIM_F1(log2, std::log2(a)) VSIM_F1(log10, std::log10(a)) VSIM_F1(log1p, std::log1p(a)) VSIM_F1(lgamma, std::lgamma(a)) VSIM_F1(tgamma, std::tgamma(a))
VSIM_F1(fabs, std::fabs(a)) VSIM_F1(sqrt, std::sqrt(a)) VSIM_F1(rsqrt, 1.0 / std::sqrt((double)a)) VSIM_F1(recip, 1 / a)
#define VSIM_F2(n, e)                                                          \
  inline float n(float a, float b) { return (float)(e); }                             \
  inline double n(double a, double b) { return (double)(e); }                         \
  inline half n(half x, half y) { float a = x, b = y; return half((float)(e)); }
VSIM_F2(atan2, std::atan2(a, b)) VSIM_F2(fmod, std::fmod(a, b)) VSIM_F2(hypot, std::hypot(a, b)) VSIM_F2(pow, std::pow(a, b)) VSIM_F2(remainder, std::remainder(a, b)) VSIM_F2(fmax, std::fmax(a, b)) VSIM_F2(fmin, std::fmin(a, b))
inline float fma(float a, float b, float c) { return std::fma(a, b, c); }
inline double fma(double a, double b, double c) { return std::fma(a, b, c); }
inline half fma(half a, half b, half c) {
  double p = double(float(a)) * double(float(b)), q = double(float(c)), s = p + q;
  if (std::isfinite(s)) { // round to odd, so that the final rounding is the only one
    double bb = s - p, err = (p - (s - bb)) + (q - bb);
    if (err != 0) { unsigned long u; ::memcpy(&u, &s, 8); if (!(u & 1)) { if (s == 0) s = err; else { u += ((err > 0) == (s > 0)) ? 1 : -1ul; ::memcpy(&s, &u, 8); } } }
  }
  unsigned short u = gpusim::d2h(s); half r; ::memcpy((void *)&r, &u, 2); return r;
}
#define VSIM_CMP(n, op) inline int n(float a, float b) { return a op b; } inline int n(double a, double b) { return a op b; } inline int n(half a, half b) { return float(a) op float(b); }
VSIM_CMP(isequal, ==) VSIM_CMP(isnotequal, !=) VSIM_CMP(isgreater, >) VSIM_CMP(isgreaterequal, >=) VSIM_CMP(isless, <) VSIM_CMP(islessequal, <=)
#define VSIM_REL2(n, e) inline int n(float a, float b) { return (e); } inline int n(double a, double b) { return (e); } inline int n(half x, half y) { float a = x, b = y; return (e); }
#define VSIM_REL1(n, e) inline int n(float a) { return (e); } inline int n(double a) { return (e); } inline int n(half x) { float a = x; return (e); }
VSIM_REL2(islessgreater, a < b || a > b) VSIM_REL2(isordered, a == a && b == b) VSIM_REL2(isunordered, a != a || b != b)
VSIM_REL1(isnan, a != a) VSIM_REL1(isinf, std::isinf(a)) VSIM_REL1(isfinite, std::isfinite(a)) VSIM_REL1(signbit, std::signbit(a))
#undef VSIM_REL1
#undef VSIM_REL2
template <typename T> T max(T a, T b) { return a < b ? b : a; }
template <typename T> T min(T a, T b) { return b < a ? b : a; }
template <typename T> typename std::make_unsigned<T>::type abs(T a) { typedef typename std::make_unsigned<T>::type U; return a < 0 ? U(U(0) - U(a)) : U(a); }
template <typename T> T add_sat(T a, T b) { T r; if (!__builtin_add_overflow(a, b, &r)) return r; return std::is_signed<T>::value && a < 0 ? std::numeric_limits<T>::min() : std::numeric_limits<T>::max(); }
template <typename T> T sub_sat(T a, T b) { T r; if (!__builtin_sub_overflow(a, b, &r)) return r; return !std::is_signed<T>::value ? T(0) : a < 0 ? std::numeric_limits<T>::min() : std::numeric_limits<T>::max(); }
namespace native {
VSIM_F1(recip, 1 / a) VSIM_F1(rsqrt, 1.0 / std::sqrt((double)a)) VSIM_F1(sqrt, std::sqrt(a)) VSIM_F1(cos, std::cos(a)) VSIM_F1(sin, std::sin(a)) VSIM_F1(tan, std::tan(a))
VSIM_F1(exp, std::exp(a)) VSIM_F1(exp2, std::exp2(a)) VSIM_F1(exp10, std::pow(10.0, (double)a)) VSIM_F1(log, std::log(a)) VSIM_F1(log2, std::log2(a)) VSIM_F1(log10, std::log10(a))
}
namespace half_precision = native;
#undef VSIM_F1
#undef VSIM_F2
#undef VSIM_CMP

} // namespace sycl
namespace cl { namespace sycl = ::sycl; }
#endif
