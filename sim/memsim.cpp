// Simulation of vector memory operations (properties C03 and C04): simulated
// threads run real library operations on one shared arena, pre-empted at any
// machine instruction; neighbours own every other element of the arena.
#include "stepsim.hpp"
#include <nsimd/nsimd-all.hpp>
#include <algorithm>
#include <ctime>

using namespace sim;

static const int MAXB = 4 * 64 * 3;     // bytes of one pack of unroll 3 (vectors of 64 bytes)
static const int MAXL = 64 * 3;

enum Op {
  // masked (C03)
  MaskoLoadu1, MaskzLoadu1, MaskoLoada1, MaskzLoada1, MaskStoreu1, MaskStorea1,
  MaskzLoadGenA, MaskzLoadGenU, MaskoLoadGenA, MaskoLoadGenU, MaskStoreGenA,
  MaskStoreGenU, MaskStoreOtherL, MaskzLoadOtherL, MaskoLoadOtherL,
  EndMasked,
  // others (C04)
  Loadu, Loada, Storeu, Storea, Load2u, Load3u, Load4u, Load2a, Load3a, Load4a,
  Store2u, Store3u, Store4u, Store2a, Store3a, Store4a, Loadlu, Loadla, Storelu,
  Storela, Gather, Scatter, GatherLinear, ScatterLinear, LoadGenU, LoadGenA,
  StoreGenU, StoreGenA,
  EndOther
};
static const char *op_name[] = {
  "masko_loadu1", "maskz_loadu1", "masko_loada1", "maskz_loada1", "mask_storeu1", "mask_storea1",
  "maskz_load<aligned>", "maskz_load<unaligned>", "masko_load<aligned>", "masko_load<unaligned>",
  "mask_store<aligned>", "mask_store<unaligned>", "mask_storeu(other mask type)",
  "maskz_loadu(other mask type)", "masko_loadu(other mask type)", "",
  "loadu", "loada", "storeu", "storea", "load2u", "load3u", "load4u", "load2a", "load3a", "load4a",
  "store2u", "store3u", "store4u", "store2a", "store3a", "store4a", "loadlu", "loadla", "storelu",
  "storela", "gather", "scatter", "gather_linear", "scatter_linear", "load<unaligned>",
  "load<aligned>", "store<unaligned>", "store<aligned>", ""};

static bool is_masked(int o) { return o < EndMasked; }
static bool is_store(int o) {
  switch (o) {
  case MaskStoreu1: case MaskStorea1: case MaskStoreGenA: case MaskStoreGenU: case MaskStoreOtherL:
  case Storeu: case Storea: case Store2u: case Store3u: case Store4u: case Store2a: case Store3a:
  case Store4a: case Storelu: case Storela: case Scatter: case ScatterLinear: case StoreGenU: case StoreGenA:
    return true;
  }
  return false;
}
static bool is_aligned(int o) {
  switch (o) {
  case MaskoLoada1: case MaskzLoada1: case MaskStorea1: case MaskzLoadGenA: case MaskoLoadGenA:
  case MaskStoreGenA: case Loada: case Storea: case Load2a: case Load3a: case Load4a: case Store2a:
  case Store3a: case Store4a: case Loadla: case Storela: case LoadGenA: case StoreGenA:
    return true;
  }
  return false;
}
static int degree(int o) {
  switch (o) {
  case Load2u: case Load2a: case Store2u: case Store2a: return 2;
  case Load3u: case Load3a: case Store3u: case Store3a: return 3;
  case Load4u: case Load4a: case Store4u: case Store4a: return 4;
  }
  return 1;
}

struct Call {
  int op, type, N;
  unsigned char *ptr;            // first argument
  unsigned char mask[MAXL];      // lane on?
  unsigned char in[4][MAXB];     // vector operands
  unsigned char out[4][MAXB];    // vector results
  long idx[MAXL];
  int stride;
};

typedef void (*exec_t)(Call &);
struct TypeInfo { const char *name; int size; bool flt; };
static const TypeInfo types[] = {
  {"i8", 1, 0}, {"u8", 1, 0}, {"i16", 2, 0}, {"u16", 2, 0}, {"i32", 4, 0}, {"u32", 4, 0},
  {"i64", 8, 0}, {"u64", 8, 0}, {"f16", 2, 1}, {"f32", 4, 1}, {"f64", 8, 1}};
static const int NTYPES = 11;

template <typename T> struct other_l { typedef typename nsimd::traits<T>::utype type; };
template <> struct other_l<u8> { typedef i8 type; };
template <> struct other_l<u16> { typedef i16 type; };
template <> struct other_l<u32> { typedef i32 type; };
template <> struct other_l<u64> { typedef i64 type; };

template <typename T, int N> struct X {
  typedef nsimd::pack<T, N> P;
  typedef nsimd::packl<T, N> L;
  static P in(Call &c, int k) { return nsimd::loadu<P>((T *)c.in[k]); }
  static void out(Call &c, int k, P const &p) { nsimd::storeu((T *)c.out[k], p); }
  template <typename S> static nsimd::packl<S, N> mk(Call &c) {
    S buf[MAXL];
    int l = nsimd::len(nsimd::pack<S, N>());
    for (int i = 0; i < l; i++) buf[i] = nsimd::to<S>(c.mask[i] ? 1 : 0);
    return nsimd::to_logical(nsimd::loadu<nsimd::pack<S, N> >(buf));
  }
  static void outl(Call &c, L const &l) {
    out(c, 0, nsimd::if_else(l, P(nsimd::to<T>(1)), P(nsimd::to<T>(0))));
  }
#define E(code) { step_on(); code; step_off(); }
  static __attribute__((noinline)) void run(Call &c) {
    typedef typename other_l<T>::type OL;
    T *p = (T *)c.ptr;
    switch (c.op) {
    case MaskoLoadu1: { L m = mk<T>(c); P o = in(c, 0), r; E(r = nsimd::masko_loadu1(m, (const T *)p, o)) out(c, 0, r); break; }
    case MaskzLoadu1: { L m = mk<T>(c); P r; E(r = nsimd::maskz_loadu1(m, (const T *)p)) out(c, 0, r); break; }
    case MaskoLoada1: { L m = mk<T>(c); P o = in(c, 0), r; E(r = nsimd::masko_loada1(m, (const T *)p, o)) out(c, 0, r); break; }
    case MaskzLoada1: { L m = mk<T>(c); P r; E(r = nsimd::maskz_loada1(m, (const T *)p)) out(c, 0, r); break; }
    case MaskStoreu1: { L m = mk<T>(c); P v = in(c, 0); E(nsimd::mask_storeu1(m, p, v)) break; }
    case MaskStorea1: { L m = mk<T>(c); P v = in(c, 0); E(nsimd::mask_storea1(m, p, v)) break; }
    case MaskzLoadGenA: { L m = mk<T>(c); P r; E(r = nsimd::maskz_load<nsimd::aligned>(m, (const T *)p)) out(c, 0, r); break; }
    case MaskzLoadGenU: { L m = mk<T>(c); P r; E(r = nsimd::maskz_load<nsimd::unaligned>(m, (const T *)p)) out(c, 0, r); break; }
    case MaskoLoadGenA: { L m = mk<T>(c); P o = in(c, 0), r; E(r = nsimd::masko_load<nsimd::aligned>(m, (const T *)p, o)) out(c, 0, r); break; }
    case MaskoLoadGenU: { L m = mk<T>(c); P o = in(c, 0), r; E(r = nsimd::masko_load<nsimd::unaligned>(m, (const T *)p, o)) out(c, 0, r); break; }
    case MaskStoreGenA: { L m = mk<T>(c); P v = in(c, 0); E(nsimd::mask_store<nsimd::aligned>(m, p, v)) break; }
    case MaskStoreGenU: { L m = mk<T>(c); P v = in(c, 0); E(nsimd::mask_store<nsimd::unaligned>(m, p, v)) break; }
    case MaskStoreOtherL: { nsimd::packl<OL, N> m = mk<OL>(c); P v = in(c, 0); E(nsimd::mask_storeu(m, p, v)) break; }
    case MaskzLoadOtherL: { nsimd::packl<OL, N> m = mk<OL>(c); P r; E(r = nsimd::maskz_loadu(m, (const T *)p)) out(c, 0, r); break; }
    case MaskoLoadOtherL: { nsimd::packl<OL, N> m = mk<OL>(c); P o = in(c, 0), r; E(r = nsimd::masko_loadu(m, (const T *)p, o)) out(c, 0, r); break; }
    case Loadu: { P r; E(r = nsimd::loadu<P>((const T *)p)) out(c, 0, r); break; }
    case Loada: { P r; E(r = nsimd::loada<P>((const T *)p)) out(c, 0, r); break; }
    case LoadGenU: { P r; E((r = nsimd::load<P, nsimd::unaligned>((const T *)p))) out(c, 0, r); break; }
    case LoadGenA: { P r; E((r = nsimd::load<P, nsimd::aligned>((const T *)p))) out(c, 0, r); break; }
    case Storeu: { P v = in(c, 0); E(nsimd::storeu(p, v)) break; }
    case Storea: { P v = in(c, 0); E(nsimd::storea(p, v)) break; }
    case StoreGenU: { P v = in(c, 0); E(nsimd::store<nsimd::unaligned>(p, v)) break; }
    case StoreGenA: { P v = in(c, 0); E(nsimd::store<nsimd::aligned>(p, v)) break; }
#define LD(D, S, G) { nsimd::packx##D<T, N> r; E((r = nsimd::load##D##S<nsimd::packx##D<T, N> >((const T *)p))) G break; }
    case Load2u: LD(2, u, out(c, 0, r.v0); out(c, 1, r.v1);)
    case Load2a: LD(2, a, out(c, 0, r.v0); out(c, 1, r.v1);)
    case Load3u: LD(3, u, out(c, 0, r.v0); out(c, 1, r.v1); out(c, 2, r.v2);)
    case Load3a: LD(3, a, out(c, 0, r.v0); out(c, 1, r.v1); out(c, 2, r.v2);)
    case Load4u: LD(4, u, out(c, 0, r.v0); out(c, 1, r.v1); out(c, 2, r.v2); out(c, 3, r.v3);)
    case Load4a: LD(4, a, out(c, 0, r.v0); out(c, 1, r.v1); out(c, 2, r.v2); out(c, 3, r.v3);)
#define V(k) P v##k = in(c, k);
    case Store2u: { V(0) V(1) E(nsimd::store2u(p, v0, v1)) break; }
    case Store2a: { V(0) V(1) E(nsimd::store2a(p, v0, v1)) break; }
    case Store3u: { V(0) V(1) V(2) E(nsimd::store3u(p, v0, v1, v2)) break; }
    case Store3a: { V(0) V(1) V(2) E(nsimd::store3a(p, v0, v1, v2)) break; }
    case Store4u: { V(0) V(1) V(2) V(3) E(nsimd::store4u(p, v0, v1, v2, v3)) break; }
    case Store4a: { V(0) V(1) V(2) V(3) E(nsimd::store4a(p, v0, v1, v2, v3)) break; }
    case Loadlu: { L r; E(r = nsimd::loadlu<L>((const T *)p)) outl(c, r); break; }
    case Loadla: { L r; E(r = nsimd::loadla<L>((const T *)p)) outl(c, r); break; }
    case Storelu: { L m = mk<T>(c); E(nsimd::storelu(p, m)) break; }
    case Storela: { L m = mk<T>(c); E(nsimd::storela(p, m)) break; }
    case Gather: case Scatter: gs(c, p, std::integral_constant<bool, (sizeof(T) > 1)>()); break;
    case GatherLinear: { P r; E(r = nsimd::gather_linear<P>((const T *)p, c.stride)) out(c, 0, r); break; }
    case ScatterLinear: { P v = in(c, 0); E(nsimd::scatter_linear(p, c.stride, v)) break; }
    }
  }
  static void gs(Call &c, T *p, std::true_type) {
    typedef typename nsimd::traits<T>::itype I;
    I b[MAXL];
    int l = nsimd::len(P());
    for (int i = 0; i < l; i++) b[i] = I(c.idx[i]);
    nsimd::pack<I, N> ix = nsimd::loadu<nsimd::pack<I, N> >(b);
    if (c.op == Gather) {
      P r;
      E(r = nsimd::gather((const T *)p, ix)) out(c, 0, r);
    } else {
      P v = in(c, 0);
      E(nsimd::scatter(p, ix, v))
    }
  }
  static void gs(Call &, T *, std::false_type) {}
};

template <int N> struct Tab { static exec_t get(int t) {
  switch (t) {
  case 0: return X<i8, N>::run; case 1: return X<u8, N>::run; case 2: return X<i16, N>::run;
  case 3: return X<u16, N>::run; case 4: return X<i32, N>::run; case 5: return X<u32, N>::run;
  case 6: return X<i64, N>::run; case 7: return X<u64, N>::run; case 8: return X<f16, N>::run;
  case 9: return X<f32, N>::run; case 10: return X<f64, N>::run; }
  return 0; } };
static exec_t exec_of(int t, int n) { return n == 1 ? Tab<1>::get(t) : n == 2 ? Tab<2>::get(t) : Tab<3>::get(t); }
static int lanes(int t, int n) {
  return n * nsimd::len(nsimd::pack<u8>()) / types[t].size;
}

// Which structure lane i of each vector of an interleaved load holds.  The
// library may choose any order as long as every vector uses the same one and
// the matching store undoes it, so the order is read off one probe load.
static std::vector<int> const &lane_order(int op, int t, int n) {
  static std::map<int, std::vector<int> > memo;
  static unsigned char buf[4 * MAXB] __attribute__((aligned(64)));
  static Call c;
  int d = degree(op), a = is_aligned(op);
  int key = ((d * 2 + a) * 16 + t) * 4 + n;
  if (memo.count(key)) return memo[key];
  int L = lanes(t, n), s = types[t].size;
  std::vector<int> got[4];
  for (int j = 0; j < d; j++) got[j].assign(L, 0);
  for (int half = 0; half < 2; half++) {
    memset(&c, 0, sizeof c);
    memset(buf, 0, sizeof buf);
    for (int e = 0; e < L * d; e++) {     // small positive values, exact in every type
      unsigned v = half ? e >> 6 : e & 63;
      unsigned char q[8] = {(unsigned char)v, 0, 0, 0, 0, 0, 0, 0};
      memcpy(buf + e * s, q, s);
    }
    c.op = d == 2 ? (a ? Load2a : Load2u) : d == 3 ? (a ? Load3a : Load3u) : (a ? Load4a : Load4u);
    c.type = t; c.N = n; c.ptr = buf;
    StepSim S;
    S.add([&]() { exec_of(t, n)(c); });
    S.run();
    for (int j = 0; j < d; j++) for (int i = 0; i < L; i++) got[j][i] |= int(c.out[j][i * s]) << (half ? 6 : 0);
  }
  std::vector<int> o(L, -1), used(L, 0);
  bool ok = true;
  for (int i = 0; i < L; i++) {
    for (int j = 0; j < d; j++)
      if (got[j][i] % d != j || got[j][i] / d != got[0][i] / d || got[j][i] >= L * d) ok = false;
    o[i] = got[0][i] / d;
    if (o[i] >= L || used[o[i]]++) ok = false;
  }
  if (!ok) for (int i = 0; i < L; i++) o[i] = i; // not an order at all: the runs will say so
  return memo[key] = o;
}

// ---------------------------------------------------------------------------
// arena: guard page | RW pages | guard page, inner pages may be closed too
static const int NP = 4;
static unsigned char *arena_map;       // first RW page
static unsigned char shadow[NP * 4096];
static unsigned char flux[NP * 4096];   // bytes a running operation may write
static bool closed_page[NP];

static void arena_init() {
  unsigned char *m = (unsigned char *)mmap(0, (NP + 2) * 4096, PROT_NONE,
                                           MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  if (m == MAP_FAILED) { perror("mmap"); exit(3); }
  arena_map = m + 4096;
}
static void open_pages() {
  if (mprotect(arena_map, NP * 4096, PROT_READ | PROT_WRITE)) { perror("mprotect"); exit(3); }
  for (int i = 0; i < NP; i++) closed_page[i] = false;
}
static void close_page(int i) {
  if (mprotect(arena_map + i * 4096, 4096, PROT_NONE)) { perror("mprotect"); exit(3); }
  closed_page[i] = true;
}

struct Prog {                       // one simulated run, fully determined by its seed
  std::vector<std::vector<Call> > calls;       // per vector thread
  std::vector<std::vector<std::vector<int> > > wr, rd; // byte offsets in the arena
  int neighbours, nturns, burst;
  u64t nseed;
  int policy; double p; int pctk;
  u64t sseed;
  int close;                        // closed inner page or -1
  std::string text;
};

static void gen_value(Rng &r, unsigned char *dst, int t) {
  u64t v = r.next();
  if (r.chance(0.1)) v = 0;
  int s = types[t].size;
  if (types[t].flt) {
    if (s == 2) { if ((v & 0x7c00) == 0x7c00) v ^= 0x4000; }
    if (s == 4) { if ((v & 0x7f800000u) == 0x7f800000u) v ^= 0x40000000u; }
    if (s == 8) { if ((v & 0x7ff0000000000000ull) == 0x7ff0000000000000ull) v ^= 0x4000000000000000ull; }
  }
  memcpy(dst, &v, s);
}

// elements (relative to ptr, in units of T) touched by a call
static void footprint(Call const &c, std::vector<long> &el, std::vector<int> *src = 0) {
  int l = lanes(c.type, c.N), d = degree(c.op);
  el.clear();
  for (int i = 0; i < l; i++) {
    if (is_masked(c.op)) { if (c.mask[i]) el.push_back(i); }
    else if (c.op == Gather || c.op == Scatter) el.push_back(c.idx[i]);
    else if (c.op == GatherLinear || c.op == ScatterLinear) el.push_back(long(i) * c.stride);
    else for (int j = 0; j < d; j++) el.push_back(long(i) * d + j);
  }
}

static Prog make(u64t seed, int op, int type, int N, bool fatal_pages) {
  Prog P;
  Rng r(seed);
  P.close = -1;
  int nv = r.chance(0.35) ? 2 : 1;
  P.neighbours = r.chance(0.8) ? 1 : 2;
  P.nturns = r.range(2, 60);
  P.burst = r.chance(0.5) ? 1000 : r.range(1, 4);
  P.nseed = r.next();
  P.sseed = r.next();
  P.pctk = r.range(1, 4);
  int pol = r.range(0, 9);
  P.policy = pol < 5 ? Scheduler::Every : pol < 8 ? Scheduler::Bern : Scheduler::Pct;
  static const double ps[] = {0.5, 0.25, 0.1, 0.03};
  P.p = ps[r.below(4)];
  std::vector<unsigned char> reserved(NP * 4096, 0); // 1+t: thread t
  int place = r.range(0, 3);
  P.calls.resize(nv); P.wr.resize(nv); P.rd.resize(nv);
  int sz = types[type].size, L = lanes(type, N), align = NSIMD_MAX_ALIGNMENT;
  int vecb = L / N * sz;                 // bytes of one vector
  align = vecb < 16 ? 16 : vecb;
  char tb[400];
  snprintf(tb, sizeof tb, "op=%s type=%s unroll=%d lanes=%d place=%d", op_name[op], types[type].name, N, L, place);
  P.text = tb;
  unsigned char *base0 = 0;
  for (int t = 0; t < nv; t++) {
    int nc = r.range(1, 3);
    for (int k = 0; k < nc; k++) {
      Call c;
      memset(&c, 0, sizeof c);
      c.op = op; c.type = type; c.N = N;
      bool ok = false;
      for (int attempt = 0; attempt < 12 && !ok; attempt++) {
        int mk = r.range(0, 6), cut = r.range(0, L), one = int(r.below(L));
        double dens = r.chance(0.5) ? 0.5 : 0.15;
        for (int i = 0; i < L; i++)
          c.mask[i] = mk == 0 ? i < cut : mk == 1 ? i >= cut : mk == 2 ? (i & 1) : mk == 3 ? i == one : mk == 4 ? i != one : r.chance(dens);
        if (t == 1 && is_masked(op) && is_store(op) && base0 && r.chance(0.8)) // complement of thread 0
          for (int i = 0; i < L; i++) c.mask[i] = !P.calls[0][0].mask[i] && r.chance(0.9);
        for (int j = 0; j < 4; j++) for (int i = 0; i < L; i++) gen_value(r, c.in[j] + i * sz, type);
        c.stride = r.chance(0.5) ? r.range(1, 4) : r.range(-3, 6);
        if (c.stride == 0 && op == ScatterLinear) c.stride = 1;
        if (op == Scatter) {
          std::vector<long> pool;
          int sp = L + r.range(0, L);
          for (int i = 0; i < sp; i++) pool.push_back(i - sp / 3);
          for (int i = 0; i < L; i++) { int q = i + int(r.below(sp - i)); std::swap(pool[i], pool[q]); c.idx[i] = pool[i]; }
        } else
          for (int i = 0; i < L; i++) c.idx[i] = r.range(-L, 2 * L);
        if (sz == 1) for (int i = 0; i < L; i++) c.idx[i] = 0;
        std::vector<long> el;
        footprint(c, el);
        long lo = 0, hi = is_masked(op) ? L - 1 : 0;
        for (long e : el) { lo = std::min(lo, e); hi = std::max(hi, e); }
        if (!is_masked(op) && !el.empty()) { lo = *std::min_element(el.begin(), el.end()); hi = *std::max_element(el.begin(), el.end()); }
        long bytes = (hi - lo + 1) * sz;
        // choose address of ptr
        unsigned char *a;
        if (t == 1 && is_masked(op) && base0) a = base0;
        else if (k > 0 && is_masked(op) && t == 0) a = base0;
        else if (place == 1) a = arena_map + NP * 4096 - bytes - lo * sz;
        else if (place == 2) a = arena_map - lo * sz;
        else if (place == 3 && is_masked(op) && !is_store(op) && fatal_pages) {
          // page boundary inside the vector; the closed side has its lanes off
          int b = is_aligned(op) ? (N == 1 ? 0 : r.range(1, N - 1) * (L / N)) : r.range(1, L > 1 ? L - 1 : 1);
          if (b == 0 || L == 1) a = arena_map + 4096;
          else {
            a = arena_map + 2 * 4096 - long(b) * sz;
            bool hi_off = r.chance(0.5);
            for (int i = 0; i < L; i++) if (hi_off ? i >= b : i < b) c.mask[i] = 0;
            P.close = hi_off ? 2 : 1;
          }
        } else {
          long off = 4096 + 512 + long(r.below(512)) / sz * sz;
          a = arena_map + off;
        }
        if (is_aligned(op)) {
          unsigned long d = (unsigned long)(a) % align;
          if (d) a = place == 2 ? a + (align - d) : a - d;
        }
        footprint(c, el);
        ok = true;
        std::vector<int> W, R;
        for (long e : el) for (int b = 0; b < sz; b++) {
          long o = (a - arena_map) + e * sz + b;
          if (o < 0 || o >= NP * 4096) { ok = false; continue; }
          if (P.close >= 0 && o / 4096 == P.close) { ok = false; continue; }
          if (reserved[o] && reserved[o] != 1 + t) ok = false;
          (is_store(op) ? W : R).push_back(int(o));
        }
        if (!ok) { if (P.close >= 0 && P.calls[0].empty()) P.close = -1; continue; }
        c.ptr = a;
        if (!base0) base0 = a;
        for (int o : W) reserved[o] = 1 + t;
        for (int o : R) reserved[o] = 1 + t;
        P.calls[t].push_back(c); P.wr[t].push_back(W); P.rd[t].push_back(R);
      }
    }
  }
  return P;
}

struct Result { bool bad; std::string why; std::vector<Switch> trace; u64t hash, steps, sw, inter, nwrites; size_t done_calls; };

static unsigned one_bits(int t) { return types[t].size == 2 ? 0x3C00u : 0; }

static Result run(Prog const &P0, bool replay, std::vector<Switch> const &script,
                  std::vector<std::pair<int, int> > const &drop) {
  Prog P = P0;
  Result R;
  R.bad = false; R.nwrites = 0; R.done_calls = 0;
  open_pages();
  Rng r(P.nseed);
  for (size_t i = 0; i < sizeof shadow; i += 8) { u64t v = r.next(); v &= 0xbfbfbfbfbfbfbfbfull; memcpy(shadow + i, &v, 8); }
  // sprinkle zero elements for logical loads
  for (int i = 0; i < 400; i++) { size_t o = r.below(sizeof shadow / 8) * 8; memset(shadow + o, 0, 8); }
  memcpy(arena_map, shadow, sizeof shadow);
  memset(flux, 0, sizeof flux);
  if (P.close >= 0) close_page(P.close);
  std::vector<unsigned char> reserved(NP * 4096, 0);
  int lo = NP * 4096, hi = 0;
  for (size_t t = 0; t < P.wr.size(); t++) for (size_t k = 0; k < P.wr[t].size(); k++) {
    for (int o : P.wr[t][k]) { reserved[o] = 1; lo = std::min(lo, o); hi = std::max(hi, o); }
    for (int o : P.rd[t][k]) { reserved[o] = 1; lo = std::min(lo, o); hi = std::max(hi, o); }
    // elements inside the vector whose lane is off belong to the window too
    Call &c = P.calls[t][k];
    int o = int(c.ptr - arena_map), e = o + lanes(c.type, c.N) * types[c.type].size * degree(c.op);
    lo = std::min(lo, std::max(o, 0)); hi = std::max(hi, std::min(e, NP * 4096 - 1));
  }
  lo = std::max(0, lo - 192); hi = std::min(NP * 4096 - 1, hi + 192);
  int sz = P.calls[0].empty() ? 1 : types[P.calls[0][0].type].size;
  std::vector<int> nb; // element offsets free for neighbours
  for (int o = lo / sz * sz; o + sz <= hi + 1; o += sz) {
    bool f = !(P.close >= 0 && o / 4096 == P.close);
    for (int b = 0; b < sz; b++) if (reserved[o + b]) f = false;
    if (f) nb.push_back(o);
  }
  if (!P.calls[0].empty() && degree(P.calls[0][0].op) > 1)
    lane_order(P.calls[0][0].op, P.calls[0][0].type, P.calls[0][0].N);
  u64t hash = 0x1234;
  StepSim S;
  S.sch.mode = replay ? Scheduler::Replay : Scheduler::Record;
  S.sch.policy = Scheduler::Policy(P.policy);
  S.sch.p = P.p;
  S.sch.rng.reseed(P.sseed);
  if (replay) for (auto &s : script) S.sch.script[std::make_pair(s.t, s.at)] = s.to;
  int nthreads = int(P.calls.size()) + P.neighbours;
  if (P.policy == Scheduler::Pct) {
    S.sch.pct.resize(nthreads);
    for (int t = 0; t < nthreads; t++) for (int k = 0; k < P.pctk; k++)
      S.sch.pct[t].push_back(unsigned(S.sch.rng.below(t < int(P.calls.size()) ? 150 : 20)) + 1);
  }
  auto verify = [&](const char *when) {
    for (int pg = lo / 4096; pg <= hi / 4096; pg++) {
      if (closed_page[pg]) continue;
      int a = std::max(lo, pg * 4096), b = std::min(hi + 1, (pg + 1) * 4096);
      if (!memcmp(arena_map + a, shadow + a, b - a)) continue;
      for (int o = a; o < b; o++) if (arena_map[o] != shadow[o]) {
        if (flux[o]) shadow[o] = arena_map[o];
        else if (!S.aborted) {
          S.aborted = true;
          S.violation = fmt("FOOTPRINT: byte at offset %d from the operation's address (owned by another thread%s) changed from %02x to %02x %s",
                            P.calls[0].empty() ? o : int(arena_map + o - P.calls[0][0].ptr), "", shadow[o], arena_map[o], when);
          return;
        }
      }
    }
  };
  S.on_step = [&]() { verify("while an operation was running"); };
  for (size_t t = 0; t < P.calls.size(); t++) {
    S.add([&, t]() {
      for (size_t k = 0; k < P.calls[t].size(); k++) {
        bool dropped = false;
        for (auto &d : drop) dropped |= d.first == int(t) && d.second == int(k);
        if (dropped) continue;
        Call &c = P.calls[t][k];
        int s = types[c.type].size, L = lanes(c.type, c.N), d = degree(c.op);
        // expected result
        std::vector<long> el;
        footprint(c, el);
        unsigned char exp[4][MAXB];
        memset(exp, 0, sizeof exp);
        unsigned char onev[8] = {0};
        if (types[c.type].flt) { if (s == 2) { unsigned short q = 0x3C00; memcpy(onev, &q, 2); } if (s == 4) { float q = 1; memcpy(onev, &q, 4); } if (s == 8) { double q = 1; memcpy(onev, &q, 8); } }
        else onev[0] = 1;
        std::map<int, unsigned char> wv;
        static const std::vector<int> noorder;
        std::vector<int> const &order = d > 1 ? lane_order(c.op, c.type, c.N) : noorder;
        for (int i = 0; i < L; i++) for (int j = 0; j < d; j++) {
          long e; bool on = true;
          if (is_masked(c.op)) { e = i; on = c.mask[i]; }
          else if (c.op == Gather || c.op == Scatter) e = c.idx[i];
          else if (c.op == GatherLinear || c.op == ScatterLinear) e = long(i) * c.stride;
          else e = d > 1 ? long(order[i]) * d + j : i;
          long o = (c.ptr - arena_map) + e * s;
          if (is_store(c.op)) {
            if (!on) continue;
            const unsigned char *v = (c.op == Storelu || c.op == Storela) ? (c.mask[i] ? onev : (const unsigned char *)"\0\0\0\0\0\0\0\0") : c.in[j] + i * s;
            for (int b = 0; b < s; b++) wv[int(o) + b] = v[b];
          } else if (c.op == Loadlu || c.op == Loadla) {
            bool nz = false;
            for (int b = 0; b < s; b++) if (shadow[o + b] & (types[c.type].flt && b == s - 1 ? 0x7f : 0xff)) nz = true;
            memcpy(exp[0] + i * s, nz ? onev : (const unsigned char *)"\0\0\0\0\0\0\0\0", s);
          } else if (on) memcpy(exp[j] + i * s, shadow + o, s);
          else if (c.op == MaskoLoadu1 || c.op == MaskoLoada1 || c.op == MaskoLoadGenA || c.op == MaskoLoadGenU || c.op == MaskoLoadOtherL) memcpy(exp[j] + i * s, c.in[0] + i * s, s);
        }
        for (int o : P.wr[t][k]) flux[o]++;
        exec_of(c.type, c.N)(c);
        for (int o : P.wr[t][k]) flux[o]--;
        R.done_calls++;
        for (auto &w : wv) {
          if (arena_map[w.first] != w.second)
            S.abort_run(fmt("VALUE: %s stored %02x instead of %02x at byte offset %d", op_name[c.op], arena_map[w.first], w.second, int(arena_map + w.first - c.ptr)));
          shadow[w.first] = w.second;
        }
        if (!is_store(c.op)) for (int j = 0; j < d; j++) for (int i = 0; i < L; i++)
          if (memcmp(c.out[j] + i * s, exp[j] + i * s, s)) {
            u64t got = 0, want = 0; memcpy(&got, c.out[j] + i * s, s); memcpy(&want, exp[j] + i * s, s);
            S.abort_run(fmt("VALUE: %s returned %llx instead of %llx in lane %d of vector %d", op_name[c.op], (unsigned long long)got, (unsigned long long)want, i, j));
          }
        hash = hash_bytes(hash, c.out, sizeof c.out);
        S.point();
      }
    });
  }
  for (int n = 0; n < P.neighbours; n++) {
    S.add([&, n]() {
      Rng nr(P.nseed ^ (0x77777ull * (n + 1)));
      for (int turn = 0; turn < P.nturns; turn++) {
        int cnt = std::min<int>(P.burst, int(nb.size()));
        for (int k = 0; k < cnt; k++) {
          int o = P.burst >= 1000 ? nb[k] : nb[nr.below(nb.size())];
          if (P.neighbours == 2 && (o / sz) % 2 != n) continue;
          u64t v = nr.next();
          memcpy(arena_map + o, &v, sz);
          memcpy(shadow + o, &v, sz);
          R.nwrites++;
        }
        hash = mix(hash, turn * 7 + n);
        S.point();
      }
    });
  }
  bool ok = S.run();
  if (ok) { // final history check
    verify("at the end");
    if (S.aborted) ok = false;
    for (size_t i = 0; i < sizeof shadow && ok; i++)
      if (!closed_page[i / 4096] && arena_map[i] != shadow[i]) { ok = false; S.violation = fmt("FOOTPRINT: byte %d of the arena changed although no thread owns it", int(i)); }
  }
  for (int pg = 0; pg < NP; pg++) if (!closed_page[pg]) hash = hash_bytes(hash, arena_map + pg * 4096, 4096);
  R.bad = !ok;
  R.why = S.violation;
  R.trace = S.sch.trace;
  R.hash = mix(mix(hash, S.total_steps), S.ihash);
  R.steps = S.total_steps; R.sw = S.switches; R.inter = S.ihash;
  return R;
}

static std::string klass(std::string const &why) { return why.substr(0, why.find(':')); }

int main(int argc, char **argv) {
  u64t seed = 1, one_seed = 0; long first = 0, runs = 100; double budget = 1e9;
  std::string which = "masked", script_s, drop_s; bool replay = false, have_seed = false;
  int rop = -1, rtype = -1, rn = -1; int norun_sched = 0;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto nx = [&]() { return std::string(argv[++i]); };
    if (a == "--seed") seed = strtoull(nx().c_str(), 0, 10);
    else if (a == "--first") first = atol(nx().c_str());
    else if (a == "--runs") runs = atol(nx().c_str());
    else if (a == "--budget") budget = atof(nx().c_str());
    else if (a == "--which") which = nx();
    else if (a == "--replay") { replay = true; }
    else if (a == "--run-seed") { one_seed = strtoull(nx().c_str(), 0, 10); have_seed = true; }
    else if (a == "--case") { sscanf(nx().c_str(), "%d,%d,%d", &rop, &rtype, &rn); }
    else if (a == "--script") script_s = nx();
    else if (a == "--drop") drop_s = nx();
  }
  arena_init();
  auto parse = [](std::string const &s) { std::vector<unsigned> v; size_t p = 0; while (p < s.size()) { v.push_back(unsigned(strtoul(s.c_str() + p, 0, 10))); p = s.find_first_of(",;", p); if (p == std::string::npos) break; p++; } return v; };
  std::vector<Switch> none; std::vector<std::pair<int, int> > nodrop;
  if (replay) {
    std::vector<unsigned> v = parse(script_s), d = parse(drop_s);
    std::vector<Switch> sc; std::vector<std::pair<int, int> > dr;
    for (size_t i = 0; i + 2 < v.size(); i += 3) { Switch s = {v[i], v[i + 1], v[i + 2]}; sc.push_back(s); }
    for (size_t i = 0; i + 1 < d.size(); i += 2) dr.push_back(std::make_pair(int(d[i]), int(d[i + 1])));
    Prog P = make(one_seed, rop, rtype, rn, true);
    Result R = run(P, true, sc, dr);
    printf("{\"bad\":%s,\"why\":%s,\"hash\":\"%016llx\",\"steps\":%llu,\"text\":%s}\n", R.bad ? "true" : "false", jstr(R.why).c_str(), (unsigned long long)R.hash, (unsigned long long)R.steps, jstr(P.text).c_str());
    return R.bad ? 1 : 0;
  }
  // the cases (op, type, unroll)
  struct Case { int op, t, n; };
  std::vector<Case> cases;
  int o0 = which == "masked" ? 0 : EndMasked + 1, o1 = which == "masked" ? EndMasked : EndOther;
  for (int n = 1; n <= 3; n++) for (int o = o0; o < o1; o++) for (int t = 0; t < NTYPES; t++) {
    if ((o == Gather || o == Scatter) && types[t].size == 1) continue;
    Case c = {o, t, n};
    cases.push_back(c);
  }
  Stats st; std::vector<std::string> viol, samples; std::set<std::string> seen;
  struct timespec ts; clock_gettime(CLOCK_MONOTONIC, &ts); double t0 = ts.tv_sec + ts.tv_nsec * 1e-9;
  bool trace = getenv("VSIM_TRACE") != 0;
  u64t batch = 0; bool nondet = false; std::string nd;
  for (long i = first; i < first + runs; i++) {
    if ((i & 63) == 0) { clock_gettime(CLOCK_MONOTONIC, &ts); if (ts.tv_sec + ts.tv_nsec * 1e-9 - t0 > budget) { st.add("stopped_by_time"); break; } }
    if (trace) { fprintf(stderr, "R %ld\n", i); fflush(stderr); }
    Case c = cases[i % cases.size()];
    u64t rs = mix(mix(seed, hash_str(which.c_str())), i);
    Prog P = make(rs, c.op, c.t, c.n, true);
    if (P.calls[0].empty()) { st.add("skipped"); continue; }
    Result R = run(P, false, none, nodrop);
    st.add("runs"); st.add("steps", R.steps); st.add("switches", R.sw); st.add("neighbour_writes", R.nwrites); st.add("calls", R.done_calls);
    st.distinct("interleavings", mix(R.inter, rs)); 
    if (R.sw > 1 && R.done_calls) st.distinct("nontrivial", R.inter);
    st.distinct("cases", u64t(i % long(cases.size())));
    if (P.close >= 0) st.add("closed_page_runs");
    st.add(P.policy == Scheduler::Every ? "policy_every" : P.policy == Scheduler::Bern ? "policy_bernoulli" : "policy_pct");
    batch = mix(batch, R.hash);
    if (samples.size() < 3 && i % 37 == 5) samples.push_back("{\"run\":" + std::to_string(i) + ",\"case\":" + jstr(P.text) + ",\"steps\":" + std::to_string(R.steps) + ",\"switches\":" + std::to_string(R.sw) + ",\"hash\":\"" + fmt("%016llx", (unsigned long long)R.hash) + "\"}");
    if (i % 16 == 3 || R.bad) { // determinism: the same seed twice
      Result R2 = run(P, false, none, nodrop);
      st.add("determinism_pairs");
      if (R2.hash != R.hash || R2.bad != R.bad) { nondet = true; nd = P.text; }
    }
    if (R.bad) {
      std::string key = std::string(op_name[c.op]) + "/" + types[c.t].name + "/" + std::to_string(c.n) + "/" + klass(R.why);
      if (seen.count(key)) continue;
      seen.insert(key);
      st.add("failing_keys");
      if (viol.size() >= 4) continue;
      // minimise: calls first, then switches
      std::vector<Switch> sc = R.trace; std::vector<std::pair<int, int> > dr;
      std::string k = klass(R.why);
      Result B = run(P, true, sc, dr);
      if (!B.bad || klass(B.why) != k) { nondet = true; nd = "replay: " + P.text; continue; }
      for (size_t t = 0; t < P.calls.size(); t++) for (size_t q = 0; q < P.calls[t].size(); q++) {
        auto d2 = dr; d2.push_back(std::make_pair(int(t), int(q)));
        Result Q = run(P, true, sc, d2);
        if (Q.bad && klass(Q.why) == k) { dr = d2; B = Q; }
      }
      for (size_t chunk = std::max<size_t>(1, sc.size() / 2);; chunk /= 2) {
        for (size_t pos = 0; pos < sc.size();) {
          std::vector<Switch> s2(sc.begin(), sc.begin() + pos);
          s2.insert(s2.end(), sc.begin() + std::min(sc.size(), pos + chunk), sc.end());
          Result Q = run(P, true, s2, dr);
          if (Q.bad && klass(Q.why) == k) { sc = s2; B = Q; } else pos += chunk;
        }
        if (chunk <= 1) break;
      }
      std::string s, d;
      for (auto &x : sc) s += fmt("%s%u,%u,%u", s.empty() ? "" : ";", x.t, x.at, x.to);
      for (auto &x : dr) d += fmt("%s%d,%d", d.empty() ? "" : ";", x.first, x.second);
      viol.push_back("{\"key\":" + jstr(key) + ",\"why\":" + jstr(B.why) + ",\"text\":" + jstr(P.text) + ",\"run\":" + std::to_string(i) + ",\"run_seed\":\"" + std::to_string(rs) + "\",\"case\":\"" + fmt("%d,%d,%d", c.op, c.t, c.n) + "\",\"script\":" + jstr(s) + ",\"drop\":" + jstr(d) + ",\"hash\":\"" + fmt("%016llx", (unsigned long long)B.hash) + "\",\"switches_before\":" + std::to_string(R.trace.size()) + ",\"switches_after\":" + std::to_string(sc.size()) + "}");
    }
  }
  std::string vs, ss;
  for (auto &v : viol) vs += (vs.empty() ? "" : ",") + v;
  for (auto &v : samples) ss += (ss.empty() ? "" : ",") + v;
  clock_gettime(CLOCK_MONOTONIC, &ts);
  printf("{\"stats\":%s,\"ncases\":%zu,\"batch\":\"%016llx\",\"nondet\":%s,\"nondet_what\":%s,\"wall\":%.3f,\"samples\":[%s],\"violations\":[%s]}\n", st.json().c_str(), cases.size(), (unsigned long long)batch, nondet ? "true" : "false", jstr(nd).c_str(), ts.tv_sec + ts.tv_nsec * 1e-9 - t0, ss.c_str(), vs.c_str());
  return viol.empty() ? 0 : 1;
}
