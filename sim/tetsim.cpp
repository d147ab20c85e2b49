// C09: array expressions.  Histories of assignments queued on several streams
// over guarded arrays, on the emulated CPU, the SIMD levels and simulated
// devices; every element is compared with the reference, one element at a time.
#include "stepsim.hpp"
#include "driver.hpp"
#include "gpu/gpusim.hpp"
#include "gpu/half.hpp"
#include "tetsim.hpp"

using namespace sim;
extern const TetCase *const tet_all[];
extern const int tet_is_gpu;

float vsim_h2f(unsigned short h) { return gpusim::h2f(h); }
unsigned short vsim_f2h(float f) { return gpusim::f2h(f); }

enum { OUT0, OUT1, IN0, IN1, IN2, NA };

bool zero(const char *p, long sz) {
  for (long i = 0; i < sz; i++)
    if (i == sz - 1 ? p[i] & 0x7f : p[i]) return false;
  return true;
}

struct Group { // arrays of their own, and a stream
  long total, lead, tail, total2, lead2, tail2;
  std::vector<char> mod[NA];
  std::vector<char> stored[2];
  char *dev[NA];
  int stream;
  long items(int a) const { return a == IN2 ? lead2 + total2 + tail2 : lead + total + tail; }
  long first(int a) const { return a == IN2 ? lead2 : lead; }
  long size(int a) const { return a == IN2 ? total2 : total; }
};
struct Launch {
  unsigned id; long c; int g, block, order; long lo, n, m, s0, lo2; bool swap, wait, nege; int negs;
};
struct Write { int g, arr; long at; unsigned char v[8]; };

struct TetEngine : Engine {
  std::vector<const TetCase *> cases;
  bool isolated() { return true; }
  double cpu_limit() { return 20; }
  long ncases() {
    if (cases.empty()) for (int k = 0; tet_all[k]; k++) for (const TetCase *p = tet_all[k]; p->name; p++) cases.push_back(p);
    return long(cases.size());
  }
  std::string case_name(long c) { ncases(); TetCase const &x = *cases[size_t(c)]; return fmt("%s %s x%d", x.name, x.type, x.unroll); }

  static void put(TetCase const &k, void *p, long i, int v) {
    char *q = (char *)p + i * (k.width / 8);
    if (k.type[0] == 'f') {
      if (k.width == 16) { unsigned short h = vsim_f2h(float(v)); memcpy(q, &h, 2); }
      if (k.width == 32) { float f = float(v); memcpy(q, &f, 4); }
      if (k.width == 64) { double f = double(v); memcpy(q, &f, 8); }
    } else { long long x = v; memcpy(q, &x, size_t(k.width / 8)); }
  }
  static std::string show(TetCase const &k, void const *p) {
    if (k.type[0] == 'f') {
      double d = 0; float f; unsigned short h;
      if (k.width == 16) { memcpy(&h, p, 2); d = vsim_h2f(h); }
      if (k.width == 32) { memcpy(&f, p, 4); d = f; }
      if (k.width == 64) memcpy(&d, p, 8);
      return fmt("%g", d);
    }
    long long x = 0; memcpy(&x, p, size_t(k.width / 8));
    if (k.type[0] == 'i') { int s = 64 - k.width; x = (long long)((unsigned long long)x << s) >> s; }
    return fmt("%lld", x);
  }
  int value(Rng &r, TetCase const &k) { return k.type[0] == 'u' ? r.range(0, 9) : r.range(-4, 9); }

  Outcome run(u64t seed, long c, Plan const &P) {
    Outcome o;
    Rng r(seed);
    ncases();
    TetCase const &k = *cases[size_t(c)];
    long sz = k.width / 8, lanes = 64 / sz * k.unroll;
    gpusim::Runtime &G = gpusim::Runtime::get();
    G.reset(r.next());
    G.open = true;
    G.lazy = r.pick(std::vector<double>{0, .3, .7, 1, 1});
    bool step = r.chance(.2);
    auto size = [&]() -> long {
      if (step) return r.chance(.6) ? r.range(1, 9) : r.range(1, tet_is_gpu ? 40 : int(std::min(2 * lanes + 3, 70L)));
      double e = r.unit();
      if (e < .05) return 0;
      if (e < .3) return r.range(1, 9);
      if (e < .7) return std::max(0L, r.range(0, 4) * lanes + r.range(-2, 2));
      if (e < .95) return r.range(1, 300);
      return r.range(200, 1100);
    };
    int ng = step ? 1 : r.range(1, 3), nl = step ? 1 : r.range(1, 5);
    std::vector<Group> gr(static_cast<size_t>(ng));
    for (auto &g : gr) {
      g.total = size() + r.range(0, 3); g.lead = r.range(0, 5); g.tail = r.chance(.6) ? 0 : r.range(1, 5);
      g.total2 = g.total + (r.chance(.5) ? 0 : r.range(0, 40)); g.lead2 = r.chance(.5) ? 0 : r.range(1, 5); g.tail2 = r.chance(.6) ? 0 : r.range(1, 5);
      g.stream = r.range(-1, 2);
    }
    std::vector<Launch> L;
    bool owner_ok = true;
    for (int j = 0; j < nl; j++) {
      Launch l;
      l.id = unsigned(j);
      l.g = int(r.below(u64t(ng)));
      l.c = c;
      if (j && r.chance(.5)) { // another program over the same type
        for (int q = 0; q < 40; q++) { long d = long(r.below(cases.size())); if (!strcmp(cases[size_t(d)]->type, k.type)) { l.c = d; break; } }
      }
      TetCase const &kk = *cases[size_t(l.c)];
      Group &g = gr[size_t(l.g)];
      l.n = j == 0 || r.chance(.3) ? g.total : std::min(g.total, size());
      if (kk.sliced && l.n == 0) { if (g.total) l.n = 1; else { g.total = 1; g.total2++; l.n = 1; } }
      l.lo = g.total > l.n ? long(r.below(u64t(g.total - l.n + 1))) : 0;
      l.m = l.n + (g.total2 > l.n ? long(r.below(u64t(g.total2 - l.n + 1))) : 0);
      if (r.chance(.3)) l.m = l.n;
      l.s0 = l.m > l.n ? long(r.below(u64t(l.m - l.n + 1))) : 0;
      l.lo2 = g.total2 > l.m ? long(r.below(u64t(g.total2 - l.m + 1))) : 0;
      l.negs = r.range(0, 3);
      l.nege = r.chance(.5);
      l.block = step ? r.pick(std::vector<int>{1, 3, 8, 32}) : r.pick(std::vector<int>{1, 2, 3, 7, 32, 64, 128, 256, 1000, 1024, -1});
      l.swap = r.chance(.3);
      l.wait = r.chance(.3);
      l.order = r.range(-1, 3);
      if (!kk.owner) owner_ok = false;
      L.push_back(l);
    }
    // the default stream has no order with itself alone: keep such programs on it
    for (auto &l : L) if (cases[size_t(l.c)]->plain) gr[size_t(l.g)].stream = -1;
    o.nops = unsigned(nl);
    o.text = fmt("%s%s %s:", k.type, step ? " interleaved" : "", k.name);
    for (auto &l : L) if (!P.dropped(l.id)) o.text += fmt(" {%s} n=%ld at %ld slice %ld of %ld block=%d stream=%d%s", cases[size_t(l.c)]->text, l.n, l.lo, l.s0, l.m, l.block, gr[size_t(l.g)].stream, l.wait ? " wait" : "");

    for (auto &g : gr)
      for (int a = 0; a < NA; a++) {
        long items = g.items(a);
        g.dev[a] = (char *)G.alloc(size_t(items * sz));
        g.mod[a].resize(size_t(items * sz) + 1);
        for (long i = 0; i < items; i++) put(k, &g.mod[a][0], i, i < g.first(a) || i >= g.first(a) + g.size(a) ? 15 : value(r, k));
        memcpy(g.dev[a], &g.mod[a][0], size_t(items * sz));
        if (a < 2) g.stored[a].assign(size_t(items), 0);
      }
    u64t rows = r.next(), rsch = r.next();
    double p = .002; { int e = int(r.below(7)); while (e-- > 0) p *= 2; }
    bool every = r.chance(.1);

    // reference: assignments to the same arrays are on the same stream, in order
    for (auto &l : L) {
      if (P.dropped(l.id)) continue;
      Group &g = gr[size_t(l.g)];
      int o0 = l.swap ? OUT1 : OUT0, o1 = l.swap ? OUT0 : OUT1;
      for (long i = 0; i < l.n; i++) {
        TetRef A;
        memset(&A, 0, sizeof A);
        A.i = g.lead + l.lo + i;
        A.i2 = g.lead2 + l.lo2 + l.s0 + i;
        A.out = &g.mod[o0][0]; A.out1 = &g.mod[o1][0]; A.in0 = &g.mod[IN0][0]; A.in1 = &g.mod[IN1][0]; A.in2 = &g.mod[IN2][0];
        cases[size_t(l.c)]->ref(A);
        if (A.out_w) g.stored[o0][size_t(A.i)] = 1;
        if (A.out1_w) g.stored[o1][size_t(A.i)] = 1;
      }
      o.n["items"] += u64t(l.n);
      o.n["launches"]++;
    }
    void *streams[4] = {0, 0, 0, 0};
    tet_streams(streams + 1, 3);
    auto launch = [&](Launch const &l) {
      Group &g = gr[size_t(l.g)];
      TetArg A;
      A.n = l.n; A.m = l.m;
      A.p = l.s0;
      A.s = l.negs == 0 ? l.s0 - l.m : l.s0;
      A.e = l.nege ? l.s0 + l.n - 1 - l.m : l.s0 + l.n - 1;
      A.t = l.m - (l.s0 + l.n);
      A.block = l.block;
      A.stream = streams[g.stream + 1];
      int o0 = l.swap ? OUT1 : OUT0, o1 = l.swap ? OUT0 : OUT1;
      A.a[0] = g.dev[o0] + (g.lead + l.lo) * sz; A.a[1] = g.dev[o1] + (g.lead + l.lo) * sz;
      A.a[2] = g.dev[IN0] + (g.lead + l.lo) * sz; A.a[3] = g.dev[IN1] + (g.lead + l.lo) * sz;
      A.a[4] = g.dev[IN2] + (g.lead2 + l.lo2) * sz;
      cases[size_t(l.c)]->go(A);
    };
    std::vector<Write> owner;
    std::string bad;
    u64t ih = seed, steps = 0;
    unsigned batch = 0;
    auto setup = [&](StepSim &S, unsigned group) {
      S.step_cap = 3000000; S.soft_cap = 100000; S.max_trace = 20000;
      S.sch.rng.reseed(mix(rsch, group));
      if (P.replay) {
        S.sch.mode = Scheduler::Replay;
        for (auto &w : P.script) if (w.t / 16 == group) S.sch.script[std::make_pair(w.t % 16, w.at)] = w.to;
      } else { S.sch.policy = every ? Scheduler::Every : Scheduler::Bern; S.sch.p = p; S.sch.trace.reserve(4096); }
    };
    auto after = [&](StepSim &S, unsigned group, bool ok) {
      for (auto w : S.sch.trace) { w.t += group * 16; o.trace.push_back(w); }
      ih = mix(ih, S.ihash); steps += S.total_steps;
      o.n["interleaved_groups"]++; o.n["instruction_switches"] += S.switches;
      if (!ok && bad.empty()) bad = S.violation;
    };
    auto compare = [&](Group &g, const char *when) {
      for (int a = 0; a < NA && bad.empty(); a++)
        for (long i = 0; i < g.items(a); i++) {
          char *q = g.dev[a] + i * sz, *m = &g.mod[a][size_t(i * sz)];
          if (!memcmp(q, m, size_t(sz))) continue;
          if (k.type[0] == 'f' && zero(q, sz) && zero(m, sz)) continue; // of either sign
          static const char *const nm[] = {"out", "out1", "in0", "in1", "in2"};
          bool own = false;
          for (auto &w : owner) if (w.arr == a && w.at == i) own = true;
          if (own) bad = fmt("OVERWRITTEN: %s[%ld], which no assignment stores to, holds %s instead of the %s its owner stored meanwhile", nm[a], i - g.first(a), show(k, q).c_str(), show(k, m).c_str());
          else if (i < g.first(a) || i >= g.first(a) + g.size(a)) bad = fmt("OUTSIDE: %s[%ld], outside the expression, became %s", nm[a], i - g.first(a), show(k, q).c_str());
          else bad = fmt("ELEMENT: %s[%ld] is %s instead of %s%s", nm[a], i - g.first(a), show(k, q).c_str(), show(k, m).c_str(), when);
          break;
        }
    };
    if (tet_is_gpu && step)
      G.parallel = [&](std::vector<std::function<void()> > &v) {
        unsigned group = batch++;
        StepSim S;
        setup(S, group);
        for (auto &f : v) S.add([&f]() { step_on(); f(); step_off(); });
        after(S, group, S.run());
      };
    if (!tet_is_gpu && step && owner_ok) {
      Group &g = gr[0];
      StepSim S;
      setup(S, 0);
      if (!P.dropped(0)) S.add([&]() { step_on(); launch(L[0]); step_off(); });
      Rng w(rows);
      for (int q = 0; q < 40; q++) {
        Write x;
        x.g = 0; x.arr = int(w.below(2));
        x.at = long(w.below(u64t(g.items(0))));
        if (w.chance(.3)) x.at = w.chance(.5) ? long(w.below(u64t(g.lead + 1))) : g.items(0) - 1 - long(w.below(u64t(g.tail + 1)));
        if (x.at >= g.items(0) || g.stored[x.arr][size_t(x.at)]) continue;
        int v = w.range(21, 90);
        put(k, x.v, 0, v);
        memcpy(&g.mod[x.arr][size_t(x.at * sz)], x.v, size_t(sz));
        owner.push_back(x);
      }
      S.add([&]() {
        for (auto &x : owner) {
          volatile char *q = g.dev[x.arr] + x.at * sz;
          step_on();
          if (sz == 8) *(volatile unsigned long long *)q = *(unsigned long long *)x.v;
          else if (sz == 4) *(volatile unsigned *)q = *(unsigned *)x.v;
          else if (sz == 2) *(volatile unsigned short *)q = *(unsigned short *)x.v;
          else *q = (char)x.v[0];
          for (volatile int d = 0; d < 4; d = d + 1) {}
          step_off();
        }
      });
      o.n["owner_writes"] += owner.size();
      after(S, 0, S.run());
    } else {
      G.set_open(!tet_is_gpu);
      for (auto &l : L) {
        if (P.dropped(l.id)) continue;
        G.order = l.order;
        launch(l);
        if (l.wait) G.wait_all();
      }
      // waiting for one stream is enough for what was queued on it
      std::vector<int> ord;
      for (int g = 0; g < ng; g++) ord.push_back(g);
      for (size_t q = ord.size(); q > 1; q--) std::swap(ord[q - 1], ord[r.below(q)]);
      for (int gi : ord) {
        Group &g = gr[size_t(gi)];
        tet_wait(streams[g.stream + 1]);
        if (!tet_is_gpu) continue;
        G.set_open(true);
        compare(g, " after waiting for its stream");
        G.set_open(false);
        o.n["streams_waited_for"]++;
      }
      G.wait_all();
      G.set_open(true);
    }
    if (bad.empty()) { G.check_zones(); bad = G.error; }
    for (auto &g : gr) compare(g, "");
    o.inter = mix(ih, G.hash);
    o.hash = mix(o.inter, seed);
    for (auto &g : gr) for (int a = 0; a < NA; a++) o.hash = hash_bytes(o.hash, g.dev[a], size_t(g.items(a) * sz));
    o.steps = steps + G.threads;
    o.nontrivial = o.trace.size() > 2 || G.launches > 0 || nl > 1;
    o.n["device_threads"] = G.threads; o.n["device_launches"] = G.launches;
    o.n["device_overlaps"] = G.overlaps; o.n["device_waits"] = G.sync;
    if (step) o.n["interleaved_runs"] = 1;
    if (!bad.empty()) { o.bad = true; o.why = bad; o.hash = mix(o.hash, hash_str(bad.c_str())); }
    return o;
  }
};

int main(int argc, char **argv) {
  TetEngine E;
  return drive(E, argc, argv, "tetsim");
}
