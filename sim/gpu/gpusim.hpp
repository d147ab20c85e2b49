// A simulated device: memory of its own, streams and queues, launches that run
// later than they are submitted, device threads in a seeded order.  The CUDA,
// HIP and SYCL headers next to this file are thin fronts for it.
#ifndef VSIM_GPUSIM_HPP
#define VSIM_GPUSIM_HPP
#include <algorithm>
#include <cstddef>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <string>
#include <sys/mman.h>
#include <tuple>
#include <vector>
#include "core.hpp"

namespace gpusim {

struct dim3 { // as the vendors define it
  unsigned x, y, z;
  constexpr dim3(unsigned a = 1, unsigned b = 1, unsigned c = 1) : x(a), y(b), z(c) {}
};
inline thread_local dim3 threadIdx(0, 0, 0), blockIdx(0, 0, 0), blockDim, gridDim;

struct Task {
  u_long id;
  int stream;                 // -1: out-of-order queue
  std::vector<u_long> deps;
  unsigned grid, block;       // grid == 0: a single action (copy, set)
  std::function<void()> body; // one device thread, or the action
  std::vector<u_long> order;  // threads still to run, last first
  bool active;
};

struct Mem {
  char *map; size_t maplen;
  char *user; size_t n;
  bool live;
  u_long id;
};

typedef u_long (*FaultFn)(const char *what); // nonzero: this call fails

struct Runtime {
  enum Order { Forward, Backward, Shuffled, Strided };
  sim::Rng rng;
  std::vector<std::shared_ptr<Task> > q;
  std::map<char *, Mem> mem;
  u_long next, nmem, hash;
  bool in_order;
  int streams;
  bool on_device;
  u_long launches, threads, copies, sets, sync, overlaps, max_pending, outside, empty_launches;
  double lazy;                          // chance that nothing runs at a call
  int order;                            // -1: chosen per launch
  std::string error;                    // misuse of the runtime
  std::function<bool(const char *)> fault;
  std::function<void(std::vector<std::function<void()> > &)> parallel; // optional: run these threads interleaved
  int last_error;
  bool open;                            // device memory readable (set by the harness)
  std::vector<std::pair<void *, size_t> > host_guard; // host pages closed while device code runs

  Runtime() : rng(1) { reset(1); }
  static Runtime &get() { static Runtime r; return r; }

  void reset(u_long seed) {
    for (auto &kv : mem) munmap(kv.second.map, kv.second.maplen);
    mem.clear(); q.clear(); rng.reseed(seed);
    next = 1; nmem = 0; hash = seed; in_order = true; streams = 1; on_device = false;
    launches = threads = copies = sets = sync = overlaps = max_pending = outside = empty_launches = 0;
    lazy = .5; order = -1; error.clear(); fault = nullptr; parallel = nullptr; last_error = 0; open = false;
    host_guard.clear();
  }
  void fail(std::string const &s) { if (error.empty()) error = s; }
  bool fails(const char *what) { return fault && fault(what); }

  // ---- memory ------------------------------------------------------------
  static const size_t ZONE = 256;
  void *alloc(size_t n) {
    size_t pg = 4096, body = (ZONE + n + pg - 1) / pg * pg, len = body + 2 * pg;
    char *m = (char *)mmap(0, len, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (m == MAP_FAILED) return 0;
    mprotect(m + pg, body, PROT_READ | PROT_WRITE);
    size_t al = n % 64 == 0 ? 64 : n % 16 == 0 ? 16 : n % 8 == 0 ? 8 : n % 4 == 0 ? 4 : n % 2 == 0 ? 2 : 1;
    (void)al;
    char *u = m + pg + body - n; // ends at the closed page
    for (char *c = m + pg; c < u; c++) *c = (char)0xC7;
    for (size_t i = 0; i < n; i++) u[i] = (char)(0x5A ^ (i * 37) ^ nmem);
    Mem x = {m, len, u, n, true, nmem++};
    mem[u] = x;
    if (!on_device && !open) mprotect(m + pg, body, PROT_NONE);
    hash = sim::mix(hash, n * 7 + 1);
    return u;
  }
  Mem *find(const void *p, size_t n) {
    auto it = mem.upper_bound((char *)p);
    if (it == mem.begin()) return 0;
    --it;
    Mem &x = it->second;
    if ((char *)p < x.user || (char *)p + n > x.user + x.n || (char *)p + n < (char *)p) return 0;
    return x.live ? &x : 0;
  }
  bool touches(const void *p, size_t n) { // any device byte in the range?
    for (auto &kv : mem) if ((char *)p < kv.second.map + kv.second.maplen && (char *)p + n > kv.second.map) return true;
    return false;
  }
  void release(void *p) {
    if (!p) return;
    auto it = mem.find((char *)p);
    if (it == mem.end()) { fail("DEVICE-FREE: a pointer that is not the start of a device block was freed"); return; }
    if (!it->second.live) { fail(sim::fmt("DEVICE-FREE: device block %lu freed twice", it->second.id)); return; }
    protect(it->second, PROT_READ);
    zone(it->second);
    it->second.live = false;
    mprotect(it->second.map, it->second.maplen, PROT_NONE);
    hash = sim::mix(hash, it->second.id * 7 + 2);
  }
  void zone(Mem &x) {
    for (char *c = x.map + 4096; c < x.user; c++)
      if (*c != (char)0xC7) { fail(sim::fmt("DEVICE-BOUNDS: byte %ld before device block %lu (%zu bytes) overwritten", long(x.user - c), x.id, x.n)); break; }
  }
  void protect(Mem &x, int p) { mprotect(x.map + 4096, x.maplen - 8192, p); }
  void access(bool dev, bool kernel) {
    if (on_device == dev) return;
    on_device = dev;
    if (!open) for (auto &kv : mem) if (kv.second.live) protect(kv.second, dev ? PROT_READ | PROT_WRITE : PROT_NONE);
    if (kernel) for (auto &h : host_guard) mprotect(h.first, h.second, dev ? PROT_NONE : PROT_READ | PROT_WRITE);
  }
  void set_open(bool o) {
    if (open == o) return;
    open = o;
    if (!on_device) for (auto &kv : mem) if (kv.second.live) protect(kv.second, o ? PROT_READ | PROT_WRITE : PROT_NONE);
  }
  size_t live() const { size_t n = 0; for (auto &kv : mem) n += kv.second.live; return n; }
  void check_zones() { bool o = open; set_open(true); for (auto &kv : mem) if (kv.second.live) zone(kv.second); set_open(o); }

  // ---- work --------------------------------------------------------------
  std::shared_ptr<Task> submit(int stream, unsigned grid, unsigned block, std::function<void()> f, std::vector<u_long> deps = std::vector<u_long>()) {
    std::shared_ptr<Task> t(new Task());
    t->id = next++; t->stream = stream; t->grid = grid; t->block = block; t->body = f; t->deps = deps; t->active = false;
    q.push_back(t);
    max_pending = std::max<u_long>(max_pending, q.size());
    hash = sim::mix(hash, t->id * 31 + grid * 7 + block);
    if (!rng.chance(lazy)) progress(1 + rng.below(3));
    return t;
  }
  bool ready(size_t k) const {
    Task &t = *q[k];
    for (size_t j = 0; j < k; j++) {
      Task &o = *q[j];
      if (t.stream >= 0 && (o.stream == t.stream || o.stream == 0 || t.stream == 0)) return false;
      if (std::find(t.deps.begin(), t.deps.end(), o.id) != t.deps.end()) return false;
    }
    return true;
  }
  void start(Task &t) {
    t.active = true;
    u_long n = u_long(t.grid) * t.block;
    if (t.grid == 0) n = 1;
    for (u_long i = 0; i < n; i++) t.order.push_back(i);
    int o = order < 0 ? int(rng.below(4)) : order;
    if (o == Forward) std::reverse(t.order.begin(), t.order.end());
    if (o == Shuffled) for (size_t i = n; i > 1; i--) std::swap(t.order[i - 1], t.order[rng.below(i)]);
    if (o == Strided) { // block by block in a seeded order, threads backwards or forwards
      u_long b = std::max(1u, t.block), nb = n / b;
      std::vector<u_long> bl(nb), w;
      for (u_long i = 0; i < nb; i++) bl[i] = i;
      for (size_t i = nb; i > 1; i--) std::swap(bl[i - 1], bl[rng.below(i)]);
      for (u_long i : bl) { bool f = rng.below(2); for (u_long j = 0; j < b; j++) w.push_back(i * b + (f ? j : b - 1 - j)); }
      t.order = w;
    }
    hash = sim::mix(hash, o);
  }
  void thread(Task &t, u_long i) {
    if (t.grid) {
      threadIdx = dim3(unsigned(i % t.block), 0, 0); blockIdx = dim3(unsigned(i / t.block), 0, 0);
      blockDim = dim3(t.block); gridDim = dim3(t.grid);
    }
    t.body();
  }
  // runs some device work: `k` times, a batch of threads of one launch
  bool progress(u_long k) {
    bool any = false;
    while (k-- > 0 && !q.empty()) {
      std::vector<size_t> r;
      for (size_t i = 0; i < q.size(); i++) if (ready(i)) r.push_back(i);
      if (r.empty()) { fail("DEVICE: no work can make progress"); q.clear(); break; }
      size_t at = r[rng.below(r.size())];
      std::shared_ptr<Task> t = q[at];
      if (!t->active) start(*t);
      if (r.size() > 1) overlaps++;
      u_long left = t->order.size(), m = rng.chance(.5) ? left : 1 + rng.below(left);
      access(true, t->grid != 0);
      if (parallel && t->grid && left > 1) {
        m = std::min<u_long>(left, 16);
        std::vector<std::function<void()> > v;
        Task *tp = t.get();
        for (u_long j = 0; j < m; j++) {
          u_long i = t->order.back(); t->order.pop_back();
          v.push_back([this, tp, i]() { thread(*tp, i); });
          hash = sim::mix(hash, t->id * 4099 + i); threads++;
        }
        parallel(v);
      } else
        while (m-- > 0) {
          u_long i = t->order.back(); t->order.pop_back();
          hash = sim::mix(hash, t->id * 4099 + i);
          if (t->grid) threads++;
          thread(*t, i);
        }
      access(false, t->grid != 0);
      any = true;
      if (t->order.empty()) q.erase(std::find(q.begin(), q.end(), t));
    }
    return any;
  }
  bool pending(u_long id) const { for (auto &t : q) if (t->id == id) return true; return false; }
  void wait(u_long id) { sync++; while (pending(id)) progress(1); }
  void wait_stream(int s) { // legacy default stream waits for everything
    sync++;
    for (;;) { bool p = false; for (auto &t : q) if (s <= 0 || t->stream == s) p = true; if (!p) return; progress(1); }
  }
  void wait_all() { sync++; while (!q.empty()) progress(1); }

  // ---- launches as in CUDA and HIP ----------------------------------------
  bool launch(u_long grid, u_long block, int stream, std::function<void()> f) {
    launches++;
    if (grid == 0 || block == 0 || block > 1024 || grid > 0x7fffffffull) { empty_launches++; last_error = 9; return false; }
    submit(stream, unsigned(grid), unsigned(block), f);
    return true;
  }
};

// the runtime itself is not code under test: nothing it does is intercepted
inline void (*quiet_hook)(bool) = 0;
struct Quiet {
  Quiet() { if (quiet_hook) quiet_hook(true); }
  ~Quiet() { if (quiet_hook) quiet_hook(false); }
};

} // namespace gpusim
#endif
