// C06: printing vectors to streams whose every write may fail, be short or be
// interrupted by another simulated thread printing elsewhere.
#include <nsimd/nsimd-all.hpp>
#include <nsimd/modules/fixed_point.hpp>
#include <cmath>
#include <new>
#include <sstream>
#include "stepsim.hpp"
#include "driver.hpp"
using namespace sim;

static long live_blocks; // operator new minus operator delete inside prints
static bool counting;
void *operator new(size_t n) { if (counting) live_blocks++; void *p = malloc(n ? n : 1); if (!p) abort(); return p; }
void *operator new[](size_t n) { return operator new(n); }
void operator delete(void *p) noexcept { if (p && counting) live_blocks--; free(p); }
void operator delete[](void *p) noexcept { operator delete(p); }
void operator delete(void *p, size_t) noexcept { operator delete(p); }
void operator delete[](void *p, size_t) noexcept { operator delete(p); }

struct Lanes { unsigned char b[64]; };
typedef nsimd::fixed_point::fp_t<8, 4> fx;
typedef nsimd::fixed_point::pack<fx> fxp;

#define CAT_(a, b) a##b
#define CAT(a, b) CAT_(a, b)
#define VSIM_SIMD NSIMD_SIMD

struct Kind {
  const char *name;
  int (*put)(FILE *, const char *, Lanes const &); // C interface, or null
  void (*os)(std::ostream &, Lanes const &);       // C++ interface, or null
  int n, groups;                                   // lanes, brace groups
  double (*val)(Lanes const &, int);
  void (*gen)(Rng &, Lanes &);
  const char *fmts[4];
  void (*one)(char *, size_t, const char *, Lanes const &, int);
  bool exact;
};

template <typename T> struct Arg { static int get(T x) { return int(x); } };
template <> struct Arg<u32> { static u32 get(u32 x) { return x; } };
template <> struct Arg<i64> { static nsimd_longlong get(i64 x) { return (nsimd_longlong)x; } };
template <> struct Arg<u64> { static nsimd_ulonglong get(u64 x) { return (nsimd_ulonglong)x; } };
template <> struct Arg<f16> { static double get(f16 x) { return (double)nsimd_f16_to_f32(x); } };
template <> struct Arg<f32> { static double get(f32 x) { return x; } };
template <> struct Arg<f64> { static double get(f64 x) { return x; } };

template <typename T> double val(Lanes const &l, int i) { T x; memcpy(&x, l.b + size_t(i) * sizeof(T), sizeof x); return double(nsimd::to_biggest(x)); }
template <typename T> void one(char *o, size_t n, const char *f, Lanes const &l, int i) { T x; memcpy(&x, l.b + size_t(i) * sizeof(T), sizeof x); snprintf(o, n, f, Arg<T>::get(x)); }
template <typename T> struct Gen {
  static void v(Rng &r, Lanes &l) {
    for (size_t i = 0; i < 64 / sizeof(T); i++) {
      T x; u64t b = r.chance(.4) ? r.next() : r.chance(.5) ? r.below(200) : ~r.below(200);
      memcpy(&x, &b, sizeof x); memcpy(l.b + i * sizeof(T), &x, sizeof x);
    }
  }
  static void lg(Rng &r, Lanes &l) { for (size_t i = 0; i < 64 / sizeof(T); i++) { T x = T(r.below(2)); memcpy(l.b + i * sizeof(T), &x, sizeof x); } }
};
template <typename T, bool half> struct GenF {
  static void v(Rng &r, Lanes &l) {
    for (size_t i = 0; i < 64 / sizeof(T); i++) {
      double d = (double(r.below(2000001)) - 1e6) * (r.chance(.5) ? 1e-3 : 1e-5);
      if (r.chance(.1)) d = r.chance(.5) ? INFINITY : -0.0;
      if (r.chance(.05)) d = NAN;
      T x = nsimd::to<T>(f32(d));
      memcpy(l.b + i * sizeof(T), &x, sizeof x);
    }
  }
  static void lg(Rng &r, Lanes &l) { for (size_t i = 0; i < 64 / sizeof(T); i++) { T x = nsimd::to<T>(f32(r.below(2))); memcpy(l.b + i * sizeof(T), &x, sizeof x); } }
};
template <> struct Gen<f16> : GenF<f16, true> {};
template <> struct Gen<f32> : GenF<f32, false> {};
template <> struct Gen<f64> : GenF<f64, false> {};

#define OSF(T)                                                                                   \
  static void osv_##T(std::ostream &os, Lanes const &l) { os << nsimd::loadu<nsimd::pack<T> >((T *)l.b); } \
  static void osl_##T(std::ostream &os, Lanes const &l) { os << nsimd::loadlu<nsimd::packl<T> >((T *)l.b); } \
  static void osv2_##T(std::ostream &os, Lanes const &l) { nsimd::pack<T, 2> p; p.car = nsimd::loadu<nsimd::pack<T> >((T *)l.b).car; p.cdr.car = p.car; os << p; } \
  static int putv_##T(FILE *f, const char *m, Lanes const &l) { return vput(f, m, vloadu((T *)l.b, T), T); } \
  static int putl_##T(FILE *f, const char *m, Lanes const &l) { return vput_l(f, m, vloadlu((T *)l.b, T), T); }
#undef vput_l
#define vput_l(out, fmt, a0, type) NSIMD_PP_CAT_4(nsimd_put_, NSIMD_SIMD, _l, type)(out, fmt, a0)
OSF(i8) OSF(u8) OSF(i16) OSF(u16) OSF(i32) OSF(u32) OSF(i64) OSF(u64) OSF(f16) OSF(f32) OSF(f64)

static double fxval(Lanes const &l, int i) { fx x; memcpy((void *)&x, l.b + size_t(i) * sizeof(fx), sizeof x); return double(float(x)); }
static void fxos(std::ostream &os, Lanes const &l) { fxp p = nsimd::fixed_point::loadu<fxp>((fx *)l.b); os << p; }
static void fxgen(Rng &r, Lanes &l) { for (size_t i = 0; i < 64 / sizeof(fx); i++) { fx x(float(r.range(-1000, 1000)) / 16); memcpy(l.b + i * sizeof(fx), (void *)&x, sizeof x); } }

static std::vector<Kind> kinds() {
  std::vector<Kind> k;
#define ADD(T, f1, f2, f3)                                                                               \
  { int n = NSIMD_MAX_LEN(T); n = vlen(T);                                                               \
    Kind a = {"put_" #T, putv_##T, 0, n, 1, val<T>, Gen<T>::v, {0, f1, f2, f3}, one<T>, false};          \
    k.push_back(a);                                                                                      \
    Kind b = {"put_l" #T, putl_##T, 0, n, 1, val<T>, Gen<T>::lg, {0, f1, f2, f3}, one<T>, false};        \
    k.push_back(b);                                                                                      \
    Kind c = {"stream_" #T, 0, osv_##T, n, 1, val<T>, Gen<T>::v, {0, 0, 0, 0}, one<T>, false};           \
    k.push_back(c);                                                                                      \
    Kind d = {"stream_l" #T, 0, osl_##T, n, 1, val<T>, Gen<T>::lg, {0, 0, 0, 0}, one<T>, false};         \
    k.push_back(d);                                                                                      \
    Kind e = {"stream_unrolled_" #T, 0, osv2_##T, n, 2, val<T>, Gen<T>::v, {0, 0, 0, 0}, one<T>, false}; \
    k.push_back(e); }
  ADD(i8, "%02x", "%+d", "<%5d>") ADD(u8, "%u", "%#x", "%%%d") ADD(i16, "%+d", "%6d", "%d\n") ADD(u16, "%u", "%04x", "%d d")
  ADD(i32, "%+d", "%12d", "%x") ADD(u32, "%x", "%012u", "%u,") ADD(i64, "%+lld", "%llx", "%24lld") ADD(u64, "%llx", "%llu;", "%030llu")
  ADD(f16, "%f", "%.2f", "%g") ADD(f32, "%f", "%a", "%10.3f") ADD(f64, "%.17g", "%a", "%.0f")
  Kind z = {"stream_fixed", 0, fxos, vlen(i16), 1, fxval, fxgen, {0, 0, 0, 0}, one<i16>, false};
  k.push_back(z);
  return k;
}

// the simulated device under a stream
struct Dev {
  std::string got;   // bytes that reached the device
  bool failed;       // an error was reported since the last reset
  struct World *w;
};
struct World {
  StepSim *S;
  Plan const *P;
  Rng frng;
  double pfail, pshort;
  unsigned point;                // ordinal of fault points
  std::vector<unsigned> fired;
  u64t hash;
  u64t calls, shorts, errors, n_stepped;
  bool yield;
  // every write to a device: may fail (fault point), be short, and is a switch point
  ssize_t write(Dev &d, const char *b, size_t n, bool partial_ok) {
    bool c = counting, st = S->cur >= 0 && S->th[S->cur]->stepping;
    if (st) S->th[S->cur]->stepping = false; // the device is not simulated code
    counting = false;
    calls++;
    if (yield && S->cur >= 0) S->point();
    unsigned k = point++;
    u64t dice = frng.next();
    bool fail = P->replay ? P->fires(k) : (double(dice >> 11) / 9007199254740992.0 < pfail);
    ssize_t r = ssize_t(n);
    if (fail) {
      fired.push_back(k);
      errors++;
      d.failed = true;
      static const int e[] = {ENOSPC, EIO, EPIPE, EAGAIN, EINTR};
      // a failing device may have taken a few bytes before
      if (partial_ok && n > 1 && (dice & 1)) d.got.append(b, size_t(1 + (dice >> 8) % (n - 1)));
      errno = e[(dice >> 4) % 5];
      r = 0;
    } else if (partial_ok && n > 1 && double((dice * 0x9e3779b97f4a7c15ull) >> 11) / 9007199254740992.0 < pshort) {
      shorts++;
      r = ssize_t(1 + (dice >> 8) % (n - 1));
      d.got.append(b, size_t(r));
    } else
      d.got.append(b, n);
    hash = mix(mix(hash, k), u64t(r) * 3 + fail);
    counting = c;
    if (st) S->th[S->cur]->stepping = true;
    return fail ? (partial_ok ? 0 : -1) : r;
  }
};
static ssize_t cookie_write(void *c, const char *b, size_t n) { Dev *d = (Dev *)c; return d->w->write(*d, b, n, true); }

struct Buf : std::streambuf {
  Dev *d;
  bool throws;
  std::streamsize xsputn(const char *s, std::streamsize n) { ssize_t r = d->w->write(*d, s, size_t(n), true); if (r < n) { d->failed = true; if (throws) throw 7; } return r; }
  int overflow(int c) { char ch = char(c); ssize_t r = d->w->write(*d, &ch, 1, false); if (r != 1 && throws) throw 7; return r == 1 ? c : EOF; }
};

static bool parse_ok(Kind const &k, std::string const &s, Lanes const &l, std::string &why) {
  std::string t = s;
  size_t p = 0;
  auto lit = [&](const char *x) { if (t.compare(p, strlen(x), x)) return false; p += strlen(x); return true; };
  for (int g = 0; g < k.groups; g++) {
    if (g && !lit(", ")) { why = "no separator between packs"; return false; }
    if (!lit("{ ")) { why = "does not open with \"{ \""; return false; }
    for (int i = 0; i < k.n; i++) {
      if (i && !lit(", ")) { why = fmt("no separator before lane %d", i); return false; }
      char *e;
      double x = strtod(t.c_str() + p, &e), v = k.val(l, i);
      if (e == t.c_str() + p) { why = fmt("lane %d is not a number", i); return false; }
      p = size_t(e - t.c_str());
      bool same = std::isnan(v) ? std::isnan(x) : std::isinf(v) ? x == v : std::fabs(x - v) <= 1e-4 * std::fabs(v);
      if (!same) { why = fmt("lane %d reads %g instead of %g", i, x, v); return false; }
    }
    if (!lit(" }")) { why = "does not close with \" }\""; return false; }
  }
  if (p != t.size()) { why = "text after the end"; return false; }
  return true;
}

struct PrintEngine : Engine {
  std::vector<Kind> K;
  PrintEngine() : K(kinds()) {}
  long ncases() { return long(K.size()); }
  bool isolated() { return true; }
  std::string case_name(long c) { return K[size_t(c)].name; }

  struct Call { unsigned kind; Lanes l; int fmt; unsigned id; };

  // fault-free text of a call: exact for caller formats, otherwise as printed
  // without faults and checked by parsing it back
  std::string expected(Kind const &k, Call const &c, std::string &why) {
    std::string s;
    if (k.put && k.fmts[c.fmt]) {
      s = "{ ";
      for (int i = 0; i < k.n; i++) { char b[600]; k.one(b, sizeof b, k.fmts[c.fmt], c.l, i); if (i) s += ", "; s += b; }
      return s + " }";
    }
    if (k.put) {
      char *m = 0; size_t n = 0;
      FILE *f = open_memstream(&m, &n);
      int r = k.put(f, 0, c.l);
      fclose(f);
      s.assign(m, n);
      free(m);
      if (r != int(s.size())) { why = fmt("RESULT: %s printed %d characters and returned %d", k.name, int(s.size()), r); return s; }
    } else {
      std::ostringstream o;
      k.os(o, c.l);
      s = o.str();
    }
    std::string w;
    if (!parse_ok(k, s, c.l, w)) why = fmt("TEXT: %s printed \"%.80s\": %s", k.name, s.c_str(), w.c_str());
    return s;
  }

  Outcome run(u64t seed, long c, Plan const &P) {
    Outcome o;
    Rng r(seed);
    int nt = r.chance(.6) ? 1 : 2;
    std::vector<std::vector<Call> > prog(nt);
    std::vector<int> mode(nt);
    unsigned id = 0;
    for (int t = 0; t < nt; t++) {
      int k = r.range(1, 4);
      mode[t] = int(r.below(4));
      for (int j = 0; j < k; j++) {
        Call x;
        x.kind = (j == 0 && t == 0) || r.chance(.7) ? unsigned(c) : unsigned(r.below(K.size()));
        K[x.kind].gen(r, x.l);
        x.fmt = int(r.below(4));
        x.id = id++;
        if (!P.dropped(x.id)) prog[t].push_back(x);
      }
    }
    o.nops = id;
    World W;
    W.P = &P; W.frng.reseed(r.next()); W.point = 0; W.hash = seed; W.calls = W.shorts = W.errors = 0;
    W.pfail = r.chance(.2) ? 0 : r.chance(.5) ? .03 : .2; W.pshort = r.chance(.5) ? .2 : 0;
    StepSim S;
    W.S = &S; W.yield = nt > 1;
    S.sch.rng.reseed(r.next());
    if (P.replay) { S.sch.mode = Scheduler::Replay; for (auto &w : P.script) S.sch.script[std::make_pair(w.t, w.at)] = w.to; }
    else { S.sch.policy = Scheduler::Bern; S.sch.p = nt > 1 ? .4 : 0; }
    // a few histories are pre-empted at every machine instruction of the print
    bool stepped = nt > 1 && r.chance(.006);
    S.step_cap = 4000000; S.max_trace = 100000;
    W.n_stepped = 0;
    if (stepped) { mode[0] = mode[1] = 0; S.sch.p = r.chance(.5) ? .01 : .1; }
    std::string bad;
    unsigned fails = 0, oks = 0;
    auto fail = [&](std::string const &s) { if (bad.empty()) bad = s; };
    for (int t = 0; t < nt; t++) {
      S.add([&, t]() {
        Dev fd, od; fd.failed = od.failed = false; fd.w = od.w = &W;
        cookie_io_functions_t io = {0, cookie_write, 0, 0};
        FILE *f = 0;
        std::string pending; // accepted by the stream, not yet on the device
        for (Call &x : prog[t]) {
          Kind const &k = K[x.kind];
          Dev &d = k.put ? fd : od;
          std::string why, e = expected(k, x, why);
          if (!why.empty()) { fail(why); return; }
          if (k.put) {
            if (!f) {
              f = fopencookie(&d, "w", io);
              if (mode[t] == 0) setvbuf(f, 0, _IONBF, 0);
              if (mode[t] == 1) setvbuf(f, 0, _IOFBF, 16);
              if (mode[t] == 2) setvbuf(f, 0, _IOLBF, 64);
              d.got.clear(); pending.clear();
            }
            d.failed = false;
            int ret;
            if (stepped && mode[t] == 0) { step_on(); ret = k.put(f, k.fmts[x.fmt], x.l); step_off(); W.n_stepped++; }
            else ret = k.put(f, k.fmts[x.fmt], x.l);
            std::string all = pending + e;
            if (ret >= 0) {
              oks++;
              if (d.failed || ferror(f)) fail(fmt("RESULT: %s returned %d although the stream failed", k.name, ret));
              else if (ret != int(e.size())) fail(fmt("RESULT: %s returned %d for %d characters", k.name, ret, int(e.size())));
              else if (mode[t] == 0 && d.got != all) fail(fmt("TEXT: %s reported success but the device holds \"%.60s\"", k.name, d.got.c_str()));
              else if (d.got.size() > all.size() || all.compare(0, d.got.size(), d.got)) fail(fmt("TEXT: %s wrote something else than its text", k.name));
              pending = all; // everything since the stream was opened
            } else {
              fails++;
              if (!d.failed && !ferror(f)) fail(fmt("RESULT: %s returned %d although the stream never failed", k.name, ret));
              // once an error was reported the C library may have dropped
              // buffered bytes, but nothing else than the text may appear
              if (all.compare(0, d.got.size(), d.got)) fail(fmt("TEXT: %s wrote \"%.60s\", which is not a prefix of its text", k.name, d.got.c_str()));
              // recover: a new stream on the same device
              bool y = W.yield; double pf = W.pfail;
              W.yield = false;
              fclose(f); f = 0; // errors here are the stream's own business
              W.yield = y; W.pfail = pf;
            }
          } else {
            Buf b; b.d = &d; b.throws = mode[t] == 3;
            d.failed = false; d.got.clear();
            std::ostream os(&b);
            bool ex = mode[t] & 1;
            long l0 = 0;
            bool threw = false;
            if (ex) os.exceptions(std::ios::badbit | std::ios::failbit);
            if (nt == 1) { live_blocks = 0; counting = true; }
            try { k.os(os, x.l); } catch (...) { threw = true; }
            if (nt == 1) { counting = false; l0 = live_blocks; }
            bool err = !os.good();
            if (threw && !d.failed) fail(fmt("RESULT: %s threw although the stream never failed", k.name));
            if (d.failed && !err) fail(fmt("RESULT: %s left the stream good although it failed", k.name));
            if (d.failed && ex && !threw) fail(fmt("RESULT: %s swallowed the exception of the failing stream", k.name));
            if (!d.failed && d.got != e) { if (!err) fail(fmt("TEXT: %s printed \"%.60s\" instead of \"%.60s\"", k.name, d.got.c_str(), e.c_str())); }
            if (e.compare(0, d.got.size(), d.got)) fail(fmt("TEXT: %s printed \"%.60s\", not a prefix of its text", k.name, d.got.c_str()));
            if (l0 > 0) fail(fmt("LEAK: %s left %ld blocks allocated%s", k.name, l0, threw ? " after the exception" : ""));
            if (d.failed) fails++; else oks++;
          }
        }
        if (f) { W.yield = false; fclose(f); W.yield = nt > 1; }
      });
    }
    bool ok = S.run();
    o.steps = S.total_steps; o.trace = S.sch.trace; o.faults = W.fired;
    o.hash = mix(mix(W.hash, S.ihash), fails * 131 + oks);
    o.inter = mix(W.hash, S.ihash);
    o.nontrivial = W.errors || W.shorts || S.switches > 2;
    o.n["prints_ok"] = oks; o.n["prints_failed"] = fails; o.n["stepped_prints"] = W.n_stepped; o.n["device_writes"] = W.calls; o.n["short_writes"] = W.shorts; o.n["device_errors"] = W.errors;
    o.text = fmt("%s, %d threads, buffering mode %d, %u prints", K[size_t(c)].name, nt, mode[0], id);
    if (!ok) { o.bad = true; o.why = S.violation; }
    else if (!bad.empty()) { o.bad = true; o.why = bad; }
    return o;
  }
};

int main(int argc, char **argv) {
  PrintEngine E;
  return drive(E, argc, argv, "printsim");
}
