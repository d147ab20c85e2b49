// A simulated system heap interposed under the code being simulated: exact
// block bounds, no accidental over-alignment, canaries, a ledger of live blocks
// and seeded failures.  Included by exactly one translation unit of a binary.
#ifndef VSIM_SIMHEAP_HPP
#define VSIM_SIMHEAP_HPP
#include "core.hpp"
#include <cerrno>
#include <functional>
#include <new>
#include <sys/mman.h>

extern "C" {
void *__libc_malloc(size_t);
void *__libc_calloc(size_t, size_t);
void *__libc_realloc(void *, size_t);
void *__libc_memalign(size_t, size_t);
void __libc_free(void *);
extern char __executable_start, etext;
}

namespace sim {

struct Heap {
  struct Blk { size_t n; size_t align; u64t id; bool live; };
  static const size_t SIZE = size_t(64) << 20, MAXBLK = size_t(1) << 20;
  char *base, *top;
  std::map<char *, Blk> blk;           // by start address
  bool armed;                          // calls from simulated code are ours
  bool reuse;
  Rng rng;
  double pfail; u64t limit;            // random failures / bytes available
  u64t calls, live_bytes, frees;
  std::function<bool(u64t)> decide;    // does call number k fail?
  std::function<bool()> active;        // is simulated code running (instead of armed)?
  std::function<void()> before, after; // around every intercepted call
  std::string error;
  Heap() : base(0), top(0), armed(false), reuse(false), pfail(0), limit(~0ull), calls(0), live_bytes(0), frees(0) {}
  static Heap &get() { static Heap *h = 0; if (!h) { h = (Heap *)__libc_malloc(sizeof(Heap)); new (h) Heap(); } return *h; }

  void reset(u64t seed) {
    if (!base) {
      base = (char *)mmap(0, SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
      if (base == (char *)MAP_FAILED) { perror("mmap"); exit(3); }
    }
    top = base + 4096;
    blk.clear(); rng.reseed(seed); calls = live_bytes = frees = 0; error.clear(); pfail = 0; limit = ~0ull; armed = false; reuse = false;
    decide = nullptr; before = nullptr; after = nullptr; active = nullptr;
  }
  bool mine(const void *p) const { return base && (char *)p >= base && (char *)p < base + SIZE; }
  void fail(std::string const &s) { if (error.empty()) error = s; }
  void canary(char *p, bool set) {
    Blk &b = blk[p];
    for (int i = 1; i <= 32; i++) { if (set) p[-i] = (char)0xC7; else if ((unsigned char)p[-i] != 0xC7) { fail(fmt("HEAP: byte %d before block %llu (%zu bytes) overwritten", i, (unsigned long long)b.id, b.n)); return; } }
    for (int i = 0; i < 64; i++) { if (set) p[b.n + i] = (char)0xC8; else if ((unsigned char)p[b.n + i] != 0xC8) { fail(fmt("HEAP: byte %d after the end of block %llu (%zu bytes) overwritten", i, (unsigned long long)b.id, b.n)); return; } }
  }
  void check() { for (auto &kv : blk) if (kv.second.live) canary(kv.first, false); }

  char *alloc(size_t align, size_t n) {
    u64t k = calls++;
    bool f = decide && decide(k);
    if (n > MAXBLK || live_bytes + n > limit) f = true;
    if (f) return 0;
    if (align < 16) align = 16;
    char *p = 0;
    if (reuse) for (auto &kv : blk) if (!kv.second.live && kv.second.n == n && kv.second.align == align) { p = kv.first; break; }
    if (!p) {
      size_t a = (size_t)top + 64;
      a = (a + align - 1) / align * align;
      if (a % (2 * align) == 0) a += align;  // never more aligned than asked for
      p = (char *)a;
      if (p + n + 4096 > base + SIZE) return 0;
      top = p + n + 64;
    }
    Blk b = {n, align, k, true};
    blk[p] = b;
    for (size_t i = 0; i < n && i < 4096; i++) p[i] = (char)(0x5A ^ (i * 37) ^ k);
    canary(p, true);
    live_bytes += n;
    return p;
  }
  void release(void *q) {
    auto it = blk.find((char *)q);
    if (it == blk.end()) { fail(fmt("HEAP: free of a pointer that is not the start of any block (offset %ld in the heap)", long((char *)q - base))); return; }
    if (!it->second.live) { fail(fmt("HEAP: block %llu freed twice", (unsigned long long)it->second.id)); return; }
    canary(it->first, false);
    it->second.live = false;
    live_bytes -= it->second.n;
    frees++;
    memset(it->first, 0xDD, std::min<size_t>(it->second.n, 4096));
  }
  // the live block containing [p, p+n), or 0
  const Blk *containing(const void *p, size_t n, char **start = 0) const {
    auto it = blk.upper_bound((char *)p);
    if (it == blk.begin()) return 0;
    --it;
    if (!it->second.live || (char *)p + n > it->first + it->second.n || (char *)p + n < (char *)p) return 0;
    if (start) *start = it->first;
    return &it->second;
  }
  size_t live_blocks() const { size_t c = 0; for (auto &kv : blk) c += kv.second.live; return c; }
};

static inline bool heap_mine(void *ra) {
  Heap &h = Heap::get();
  return (h.armed || (h.active && h.active())) && (char *)ra >= &__executable_start && (char *)ra < &etext;
}
struct HeapCall { // inside an interposed call nothing else is intercepted
  Heap &h;
  bool was, sw;
  HeapCall() : h(Heap::get()), was(h.armed), sw(h.active && h.active()) { h.armed = false; if (sw) h.before(); }
  ~HeapCall() { int e = errno; h.armed = was; if (sw) h.after(); errno = e; }
};

} // namespace sim

#define VSIM_RA __builtin_return_address(0)
extern "C" {
void *malloc(size_t n) { if (!sim::heap_mine(VSIM_RA)) return __libc_malloc(n); sim::HeapCall c; void *p = c.h.alloc(16, n); if (!p) errno = ENOMEM; return p; }
void *calloc(size_t a, size_t b) { if (!sim::heap_mine(VSIM_RA)) return __libc_calloc(a, b); sim::HeapCall c; size_t n; void *p = __builtin_mul_overflow(a, b, &n) ? 0 : c.h.alloc(16, n); if (!p) errno = ENOMEM; else memset(p, 0, n); return p; }
void *realloc(void *q, size_t n) {
  if (!sim::heap_mine(VSIM_RA) && !sim::Heap::get().mine(q)) return __libc_realloc(q, n);
  sim::HeapCall c; void *p = c.h.alloc(16, n); if (!p) { errno = ENOMEM; return 0; }
  if (q) { auto it = c.h.blk.find((char *)q); if (it != c.h.blk.end()) memcpy(p, q, it->second.n < n ? it->second.n : n); c.h.release(q); }
  return p;
}
int posix_memalign(void **out, size_t al, size_t n) {
  if (!sim::heap_mine(VSIM_RA)) { void *p = __libc_memalign(al, n); if (!p) return ENOMEM; *out = p; return 0; }
  sim::HeapCall c;
  if (al < sizeof(void *) || (al & (al - 1))) return EINVAL;
  void *p = c.h.alloc(al, n);
  if (!p) return ENOMEM;      // *out is left alone, as the system does
  *out = p;
  return 0;
}
size_t malloc_usable_size(void *p) { sim::Heap&h = sim::Heap::get(); auto it = h.blk.find((char *)p); return it != h.blk.end() && it->second.live ? it->second.n : 0; }
void *aligned_alloc(size_t al, size_t n) { if (!sim::heap_mine(VSIM_RA)) return __libc_memalign(al, n); sim::HeapCall c; void *p = (al & (al - 1)) || !al ? 0 : c.h.alloc(al, n); if (!p) errno = ENOMEM; return p; }
void *memalign(size_t al, size_t n) { if (!sim::heap_mine(VSIM_RA)) return __libc_memalign(al, n); sim::HeapCall c; void *p = c.h.alloc(al, n); if (!p) errno = ENOMEM; return p; }
void free(void *);
}
static inline void vsim_free(void *p, void *ra) {
  if (!p) return;
  if (!sim::Heap::get().mine(p)) {
    __libc_free(p); return;
  }
  sim::HeapCall c; c.h.release(p);
}
extern "C" void free(void *p) { vsim_free(p, VSIM_RA); }
static inline void *vsim_new(size_t n, size_t al, void *ra, bool nothrow) {
  void *p;
  if (!sim::heap_mine(ra)) p = al > 16 ? __libc_memalign(al, n) : __libc_malloc(n);
  else { sim::HeapCall c; p = c.h.alloc(al, n); }
  if (!p && !nothrow) throw std::bad_alloc();
  return p;
}
void *operator new(size_t n) { return vsim_new(n, 16, VSIM_RA, false); }
void *operator new[](size_t n) { return vsim_new(n, 16, VSIM_RA, false); }
void *operator new(size_t n, std::nothrow_t const &) noexcept { return vsim_new(n, 16, VSIM_RA, true); }
void *operator new[](size_t n, std::nothrow_t const &) noexcept { return vsim_new(n, 16, VSIM_RA, true); }
void *operator new(size_t n, std::align_val_t a) { return vsim_new(n, size_t(a), VSIM_RA, false); }
void *operator new[](size_t n, std::align_val_t a) { return vsim_new(n, size_t(a), VSIM_RA, false); }
void operator delete(void *p) noexcept { vsim_free(p, VSIM_RA); }
void operator delete[](void *p) noexcept { vsim_free(p, VSIM_RA); }
void operator delete(void *p, size_t) noexcept { vsim_free(p, VSIM_RA); }
void operator delete[](void *p, size_t) noexcept { vsim_free(p, VSIM_RA); }
void operator delete(void *p, std::align_val_t) noexcept { vsim_free(p, VSIM_RA); }
void operator delete[](void *p, std::align_val_t) noexcept { vsim_free(p, VSIM_RA); }
void operator delete(void *p, size_t, std::align_val_t) noexcept { vsim_free(p, VSIM_RA); }
void operator delete[](void *p, size_t, std::align_val_t) noexcept { vsim_free(p, VSIM_RA); }
#endif
