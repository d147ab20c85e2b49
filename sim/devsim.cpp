// C10: device and paired memory.  Histories of allocations, fills, copies and
// frees on simulated devices, with failing host and device allocators.
#include "simheap.hpp"
#include "driver.hpp"
#include "gpu/gpusim.hpp"
#include "gpu/half.hpp"
#include <csetjmp>
#include <iostream>
static unsigned vsim_expr(size_t i, unsigned salt);
#include <nsimd/nsimd.h>
#include <nsimd/modules/memory_management.hpp>

using namespace sim;
#if defined(NSIMD_CUDA) || defined(NSIMD_ROCM) || defined(NSIMD_ONEAPI)
static const bool GPU = true;
#else
static const bool GPU = false;
#endif

static std::vector<unsigned> g_evals; // times the fill expression was evaluated, per index
static unsigned g_out;                // ... for an index that is not there
static unsigned vsim_expr(size_t i, unsigned salt) {
  if (i < g_evals.size()) g_evals[i]++; else g_out++;
  return unsigned((i * 7 + salt) % 101);
}
namespace nsimd {
nsimd_fill_dev_mem_func(fill_a, vsim_expr(size_t(i), 3))
nsimd_fill_dev_mem_func(fill_b, int(vsim_expr(size_t(i), 50)) + 2)
nsimd_fill_dev_mem_func(fill_c, i < 5 ? 1u : vsim_expr(size_t(i), 9) * (i & 1))
}
static unsigned fill_value(int f, size_t i) {
  unsigned a = unsigned((i * 7 + 3) % 101), b = unsigned((i * 7 + 50) % 101) + 2, c = i < 5 ? 1u : unsigned((i * 7 + 9) % 101) * unsigned(i & 1);
  return f == 0 ? a : f == 1 ? b : c;
}
static size_t fill_first(int f) { return f == 2 ? 5 : 0; }

static jmp_buf g_exit;
static int g_status;
static bool g_can_exit;
extern "C" void __real_exit(int) __attribute__((noreturn));
extern "C" void __wrap_exit(int s) __attribute__((noreturn));
extern "C" void __wrap_exit(int s) {
  if (!g_can_exit) __real_exit(s);
  g_status = s;
  longjmp(g_exit, 1);
}

struct NullBuf : std::streambuf { int overflow(int c) { return c; } };

template <typename T> struct Bits { static void put(T *p, int v) { *p = T(v); } };
template <> struct Bits<f16> { static void put(f16 *p, int v) { unsigned short h = gpusim::f2h(float(v)); memcpy((void *)p, &h, 2); } };

static int quiet_depth;
static bool quiet_saved;
static void quiet(bool on) {
  Heap &h = Heap::get();
  if (on) { if (quiet_depth++ == 0) { quiet_saved = h.armed; h.armed = false; } }
  else if (--quiet_depth == 0) h.armed = quiet_saved;
}

struct DevEngine : Engine {
  bool isolated() { return true; }
  double cpu_limit() { return 20; }
  long ncases() {
#ifdef NSIMD_ONEAPI
    nsimd::oneapi::default_queue();
#endif
    return 11;
  }
  static const char *const *types() { static const char *const t[] = {"i8", "u8", "i16", "u16", "i32", "u32", "i64", "u64", "f16", "f32", "f64"}; return t; }
  std::string case_name(long c) { return types()[c]; }
  Outcome run(u64t seed, long c, Plan const &P) {
    switch (c) {
    case 0: return go<i8>(seed, c, P); case 1: return go<u8>(seed, c, P); case 2: return go<i16>(seed, c, P); case 3: return go<u16>(seed, c, P);
    case 4: return go<i32>(seed, c, P); case 5: return go<u32>(seed, c, P); case 6: return go<i64>(seed, c, P); case 7: return go<u64>(seed, c, P);
    case 8: return go<f16>(seed, c, P); case 9: return go<f32>(seed, c, P); default: return go<f64>(seed, c, P);
    }
  }

  template <typename T> Outcome go(u64t seed, long c, Plan const &P) {
    Outcome o;
    Rng r(seed);
    Heap &H = Heap::get();
    H.reset(r.next());
    H.reuse = r.chance(.3);
    gpusim::Runtime &G = gpusim::Runtime::get();
    G.reset(r.next());
    G.lazy = r.pick(std::vector<double>{0, .3, .7, 1});
    gpusim::quiet_hook = quiet;
    if (GPU && r.chance(.7)) G.host_guard.push_back(std::make_pair((void *)H.base, (size_t)Heap::SIZE));
    double pf = r.pick(std::vector<double>{0, .05, .2, .5});
    Rng fr(r.next());
    unsigned point = 0, opfaults = 0;
    bool sim = false;
    auto fires = [&](const char *what) {
      if (!sim) return false;
      unsigned k = point++;
      bool f = P.replay ? P.fires(k) : fr.chance(pf);
      if (f) { o.faults.push_back(k); opfaults++; o.n[std::string("failed ") + what]++; }
      return f;
    };
    H.decide = [&](u64t) { return fires("host allocation"); };
    G.fault = [&](const char *w) { return fires(w); };

    struct Blk { bool pair; T *dev, *host; size_t n; std::vector<T> d, h; };
    std::vector<Blk> B;
    std::string bad;
    u64t h = seed;
    int nops = r.range(4, 14);
    o.nops = unsigned(nops);
    static char raw[sizeof(nsimd::paired_pointers_t<T>)];
    auto owned = [&](T *p, size_t n) { return GPU ? G.find(p, n * sizeof(T)) != 0 : H.containing(p, n * sizeof(T)) != 0; };
    auto live = [&]() { return std::make_pair(GPU ? G.live() : size_t(0), H.live_blocks()); };
    auto compare = [&](Blk &b, bool dev, const char *when) {
      if (!bad.empty()) return;
      if (dev) { G.wait_all(); G.set_open(true); }
      T *p = dev ? b.dev : b.host;
      std::vector<T> &m = dev ? b.d : b.h;
      for (size_t i = 0; i < b.n && bad.empty(); i++)
        if (memcmp((void *)(p + i), (void *)&m[i], sizeof(T))) {
          u64t x = 0, y = 0; memcpy(&x, (void *)(p + i), sizeof(T)); memcpy(&y, (void *)&m[i], sizeof(T));
          bad = fmt("CONTENT: %s, %s element %zu of %zu has bits %llx instead of %llx", when, dev ? "device" : "host", i, b.n, (unsigned long long)x, (unsigned long long)y);
        }
      if (dev) G.set_open(false);
    };
    auto snap = [&](Blk &b) { // contents nobody defined: adopt what is there
      G.wait_all(); G.set_open(true);
      b.d.assign(b.dev, b.dev + b.n);
      if (b.host) b.h.assign(b.host, b.host + b.n);
      G.set_open(false);
    };
    auto size = [&]() -> size_t {
      double e = double(r.below(1000)) / 1000;
      if (r.chance(.0002)) return size_t(r.range(65530, 67000)); // more than 16 bits count
      if (e < .04) return 0;
      if (e < .4) return size_t(r.range(1, 20));
      if (e < .7) return size_t(std::max(0, r.range(0, 4) * 128 + r.range(-1, 1)));
      return size_t(r.range(1, 700));
    };
    std::string T0 = types()[c];
    for (int k = 0; k < nops && bad.empty(); k++) {
      int op = r.range(0, 9);
      size_t n = size(), at = B.empty() ? 0 : r.below(B.size()), part = r.below(4);
      bool huge = sizeof(T) > 1 && r.chance(.03), orexit = r.chance(.35), pair = r.chance(.65), zero = r.chance(.5), raw_copy = r.chance(.3);
      int f = r.range(0, 2);
      u64t hv = r.next();
      if (P.dropped(unsigned(k))) continue;
      opfaults = 0;
      if (huge) n = (~size_t(0) / sizeof(T)) + 1 + n % 64;
      if (op <= 3 || B.empty()) {
        std::pair<size_t, size_t> before = live();
        T *dev = 0, *host = 0; size_t sz = n; bool exited = false;
        o.text += fmt(" %s_%s%s(%zu)", pair ? "pair" : "device", zero ? "calloc" : "malloc", pair && orexit ? "_or_exit" : "", n);
        sim = true; H.armed = true; g_can_exit = true; g_status = -1;
        if (setjmp(g_exit) == 0) {
          if (pair) {
            nsimd::paired_pointers_t<T> p = orexit ? (zero ? nsimd::pair_calloc_or_exit<T>(n) : nsimd::pair_malloc_or_exit<T>(n)) : (zero ? nsimd::pair_calloc<T>(n) : nsimd::pair_malloc<T>(n));
            memcpy(raw, &p, sizeof p);
          } else dev = zero ? nsimd::device_calloc<T>(n) : nsimd::device_malloc<T>(n);
        } else exited = true;
        H.armed = false; sim = false; g_can_exit = false; quiet_depth = 0;
        if (pair && !exited) { nsimd::paired_pointers_t<T> p; memcpy(&p, raw, sizeof p); dev = p.device_ptr; host = p.host_ptr; sz = p.sz; }
        bool must_fail = opfaults || huge;
        std::pair<size_t, size_t> now = live();
        h = mix(h, u64t(n) * 16 + (dev != 0) * 2 + exited);
        o.n["allocations"]++;
        if (must_fail) o.n["failing_allocations"]++;
        if (exited) {
          if (!must_fail) bad = "EXIT: the process was ended although nothing failed";
          else if (g_status == 0) bad = "EXIT: a failed allocation ended the process with status 0";
          else if (now != before) bad = fmt("LEAK: a failed allocation left %zu device and %zu host blocks behind", now.first - before.first, now.second - before.second);
          o.n["exits"]++;
          continue;
        }
        if (must_fail) {
          if (pair && orexit && n) bad = "EXIT: a failed or-exit allocation did not end the process";
          else if (dev || host) bad = fmt("FAILED-ALLOC: an allocation that failed returned a non-null %s pointer", dev ? "device" : "host");
          else if (pair && sz != 0) bad = fmt("FAILED-ALLOC: a pair that could not be allocated has size %zu", sz);
          else if (now != before) bad = fmt("LEAK: a failed allocation left %zu device and %zu host blocks behind", now.first - before.first, now.second - before.second);
          continue;
        }
        if (n == 0 && !dev) { if (now.first != before.first) bad = "LEAK: an empty allocation that returned null left a block behind"; if (host) { H.armed = true; free(host); H.armed = false; } continue; }
        if (!dev) { bad = "ALLOC: nothing failed but null was returned"; continue; }
        if (pair && sz != n) { bad = fmt("ALLOC: the pair of %zu elements has size %zu", n, sz); continue; }
        if (!owned(dev, n)) { bad = fmt("ALLOC: no room for %zu elements of %zu bytes on the device", n, sizeof(T)); continue; }
        if (pair && !H.containing(host, n * sizeof(T))) { bad = fmt("ALLOC: no room for %zu elements of %zu bytes on the host", n, sizeof(T)); continue; }
        if (pair && !GPU && host != dev) { bad = "ALLOC: the halves of a pair differ on CPU"; continue; }
        Blk b; b.pair = pair; b.dev = dev; b.host = host; b.n = n;
        snap(b);
        if (zero) {
          T z; memset((void *)&z, 0, sizeof z);
          std::vector<T> zs(n, z);
          if (n && (memcmp((void *)b.d.data(), (void *)zs.data(), n * sizeof(T)) || (host && memcmp((void *)b.h.data(), (void *)zs.data(), n * sizeof(T))))) { bad = "CLEAR: memory from a clearing allocation is not zero"; continue; }
        }
        B.push_back(b);
        continue;
      }
      Blk &b = B[at];
      if (op == 4) { // free
        o.text += fmt(" free(%zu)", b.n);
        std::pair<size_t, size_t> before = live();
        sim = H.armed = true;
        if (b.pair) { nsimd::paired_pointers_t<T> p; p.device_ptr = b.dev; p.host_ptr = b.host; p.sz = b.n; nsimd::pair_free(p); }
        else nsimd::device_free(b.dev);
        sim = H.armed = false;
        std::pair<size_t, size_t> now = live();
        size_t dh = GPU ? (b.pair ? 1 : 0) : 1;
        if (before.first - now.first != (GPU ? 1 : 0) || before.second - now.second != dh) bad = fmt("FREE: released %zu device and %zu host blocks", before.first - now.first, before.second - now.second);
        B.erase(B.begin() + long(at));
        h = mix(h, 77);
        o.n["frees"]++;
      } else if (op == 5 || op == 6) { // fill the device side, all or a part
        size_t m = part ? b.n : b.n / 2;
        o.text += fmt(" fill%d(%zu/%zu)", f, m, b.n);
        g_evals.assign(m, 0); g_out = 0;
        sim = H.armed = true;
        if (f == 0) nsimd::fill_a(b.dev, m); else if (f == 1) nsimd::fill_b(b.dev, m); else nsimd::fill_c(b.dev, m);
        sim = H.armed = false;
        for (size_t i = 0; i < m; i++) Bits<T>::put(&b.d[i], int(fill_value(f, i)));
        if (!GPU && b.pair) b.h = b.d;
        bool check = r.chance(.5);
        if (check || r.chance(.3)) compare(b, true, "after a fill");
        G.wait_all(); // so that evaluations belong to this fill
        for (size_t i = fill_first(f); i < m && bad.empty(); i++) if (g_evals[i] != 1) bad = fmt("FILL: element %zu was computed %u times", i, g_evals[i]);
        if (bad.empty() && g_out) bad = fmt("FILL: %u elements outside the array were computed", g_out);
        h = mix(h, m);
        o.n["fills"]++;
      } else if (op == 7) { // the host writes its half
        if (!b.host) continue;
        o.text += fmt(" hostwrite(%zu)", b.n);
        G.wait_all();
        Rng w(hv);
        for (size_t i = 0; i < b.n; i++) { Bits<T>::put(&b.h[i], w.range(0, 99)); b.host[i] = b.h[i]; }
        if (!GPU) b.d = b.h;
      } else if (op == 8) { // to the device
        bool any = raw_copy || !b.pair;
        std::vector<T> src(b.n + 1);
        if (any) { Rng w(hv); for (size_t i = 0; i < b.n; i++) Bits<T>::put(&src[i], w.range(0, 99)); }
        size_t m = any && !part ? b.n / 2 : b.n;
        o.text += fmt(" to_device%s(%zu/%zu)", any ? "" : "[pair]", m, b.n);
        sim = H.armed = true;
        if (any) nsimd::copy_to_device(b.dev, src.data(), m);
        else { nsimd::paired_pointers_t<T> p; p.device_ptr = b.dev; p.host_ptr = b.host; p.sz = b.n; nsimd::copy_to_device(p); }
        sim = H.armed = false;
        for (size_t i = 0; i < m; i++) b.d[i] = any ? src[i] : b.h[i];
        if (!GPU && b.pair) b.h = b.d;
        // the source may change once the call has returned
        for (size_t i = 0; i < m; i++) Bits<T>::put(&src[i], 100);
        if (!any && GPU) for (size_t i = 0; i < m; i++) { Bits<T>::put(&b.h[i], 100); G.wait_all(); b.host[i] = b.h[i]; }
        if (part & 1) compare(b, true, "after a copy to the device");
        h = mix(h, m * 3);
        o.n["copies_to_device"]++;
      } else { // to the host
        bool any = raw_copy || !b.pair;
        std::vector<T> dst(b.n + 1), exp;
        for (size_t i = 0; i < b.n; i++) Bits<T>::put(&dst[i], 99);
        exp = dst;
        size_t m = any && !part ? b.n / 2 : b.n;
        o.text += fmt(" to_host%s(%zu/%zu)", any ? "" : "[pair]", m, b.n);
        sim = H.armed = true;
        if (any) nsimd::copy_to_host(dst.data(), b.dev, m);
        else { nsimd::paired_pointers_t<T> p; p.device_ptr = b.dev; p.host_ptr = b.host; p.sz = b.n; nsimd::copy_to_host(p); }
        sim = H.armed = false;
        if (any) {
          for (size_t i = 0; i < m; i++) exp[i] = b.d[i];
          if (memcmp((void *)dst.data(), (void *)exp.data(), b.n * sizeof(T))) bad = fmt("COPY: copying %zu of %zu elements to the host gave something else", m, b.n);
        } else { b.h = b.d; compare(b, false, "after a copy to the host"); }
        h = mix(h, m * 5);
        o.n["copies_to_host"]++;
      }
      if (bad.empty()) bad = !H.error.empty() ? H.error : G.error;
    }
    o.text = T0 + ":" + o.text;
    G.wait_all();
    for (auto &b : B) { compare(b, true, "at the end"); if (b.host) compare(b, false, "at the end"); }
    H.armed = true;
    if (bad.empty()) for (auto &b : B) if (b.pair) { nsimd::paired_pointers_t<T> p; p.device_ptr = b.dev; p.host_ptr = b.host; p.sz = b.n; nsimd::pair_free(p); } else nsimd::device_free(b.dev);
    H.armed = false;
    if (bad.empty()) { G.check_zones(); H.check(); bad = !H.error.empty() ? H.error : G.error; }
    if (bad.empty() && (H.live_blocks() || G.live())) bad = fmt("LEAK: %zu device and %zu host blocks left after everything was freed", G.live(), H.live_blocks());
    o.inter = mix(h, G.hash);
    o.hash = mix(o.inter, seed);
    o.steps = G.threads + u64t(nops);
    o.nontrivial = !o.faults.empty() || G.launches + G.copies > 1;
    o.n["device_threads"] = G.threads; o.n["device_launches"] = G.launches; o.n["device_copies"] = G.copies; o.n["device_sets"] = G.sets;
    if (!bad.empty()) { o.bad = true; o.why = bad; o.hash = mix(o.hash, hash_str(bad.c_str())); }
    return o;
  }
};

int main(int argc, char **argv) {
  static NullBuf nb;
  std::cerr.rdbuf(&nb);
  DevEngine E;
  return drive(E, argc, argv, "devsim");
}
