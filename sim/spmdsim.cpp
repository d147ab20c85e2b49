// C07 and C08: SPMD kernels.  Histories of launches of generated kernels over
// guarded arrays, on the emulated CPU, the SIMD levels and simulated devices;
// every array element is compared with the one-item-at-a-time reference.
#include "stepsim.hpp"
#include "driver.hpp"
#include "gpu/gpusim.hpp"
#include "gpu/half.hpp"
#include "spmdsim.hpp"

using namespace sim;
extern const SpmdCase *const spmd_all[];
extern const int spmd_is_gpu;

static u_long g_ticks, g_limit;
struct Live {};
void vsim_tick() { if (++g_ticks > g_limit) throw Live(); }
float vsim_h2f(unsigned short h) { return gpusim::h2f(h); }
unsigned short vsim_f2h(float f) { return gpusim::f2h(f); }

enum { OUT0, OUT1, OUT2, CNT, IN0, IN1, NA };

struct Launch {
  unsigned id; int c, block; long lo, n; bool flag; int map[NA]; bool wait; int order;
};
struct Write { long at; int arr; unsigned char v[8]; };

struct SpmdEngine : Engine {
  std::vector<const SpmdCase *> cases;
  bool isolated() { return true; }
  double cpu_limit() { return 20; }
  long ncases() {
    if (cases.empty()) for (int k = 0; spmd_all[k]; k++) for (const SpmdCase *p = spmd_all[k]; p->name; p++) cases.push_back(p);
    return long(cases.size());
  }
  std::string case_name(long c) { ncases(); SpmdCase const &x = *cases[size_t(c)]; return fmt("%s %s x%d", x.name, x.type, x.unroll); }

  static void put(SpmdCase const &k, void *p, long i, int v) {
    char *q = (char *)p + i * (k.width / 8);
    if (k.type[0] == 'f') {
      if (k.width == 16) { unsigned short h = vsim_f2h(float(v)); memcpy(q, &h, 2); }
      if (k.width == 32) { float f = float(v); memcpy(q, &f, 4); }
      if (k.width == 64) { double f = double(v); memcpy(q, &f, 8); }
    } else { long long x = v; memcpy(q, &x, size_t(k.width / 8)); }
  }
  static std::string show(SpmdCase const &k, void const *p) {
    if (k.type[0] == 'f') {
      double d = 0; float f; unsigned short h;
      if (k.width == 16) { memcpy(&h, p, 2); d = vsim_h2f(h); }
      if (k.width == 32) { memcpy(&f, p, 4); d = f; }
      if (k.width == 64) memcpy(&d, p, 8);
      return fmt("%g", d);
    }
    long long x = 0; memcpy(&x, p, size_t(k.width / 8));
    if (k.type[0] == 'i') { int s = 64 - k.width; x = (long long)((unsigned long long)x << s) >> s; }
    return fmt("%lld", x);
  }
  int value(Rng &r, SpmdCase const &k) { return k.type[0] == 'u' ? r.range(0, 9) : r.range(-4, 9); }

  Outcome run(u64t seed, long c, Plan const &P) {
    Outcome o;
    Rng r(seed);
    ncases();
    SpmdCase const &k = *cases[size_t(c)];
    long sz = k.width / 8, lanes = 64 / sz * k.unroll;
    gpusim::Runtime &G = gpusim::Runtime::get();
    G.reset(r.next());
    G.open = true;
    G.lazy = r.pick(std::vector<double>{0, .3, .7, 1});
    // 0: plain   1: threads interleaved at instructions
    bool step = r.chance(.2);
    bool two = !spmd_is_gpu && step && r.chance(.4);
    auto size = [&]() -> long {
      if (step) return r.chance(.6) ? r.range(1, 9) : r.range(1, spmd_is_gpu ? 40 : int(std::min(2 * lanes + 3, 70L)));
      double e = double(r.below(1000)) / 1000;
      if (e < .04) return 0;
      if (e < .3) return r.range(1, 9);
      if (e < .7) return std::max(0L, r.range(0, 4) * lanes + r.range(-2, 2));
      if (e < .95) return r.range(1, 300);
      return r.range(200, 1100);
    };
    bool huge = !step && r.chance(.001); // more items than 16 bits count
    long total = huge ? r.range(65530, 67000) : size() + r.range(0, 3), lead = r.range(0, 5), tail = r.chance(.6) ? 0 : r.range(1, 5);
    int nl = step || huge ? 1 : r.range(1, 4);
    std::vector<Launch> L;
    for (int j = 0; j < nl; j++) {
      Launch l;
      l.id = unsigned(j);
      l.c = int(c);
      l.n = j == 0 || r.chance(.3) ? total : std::min(total, size());
      l.lo = total > l.n ? long(r.below(u64t(total - l.n + 1))) : 0;
      l.block = step ? r.pick(std::vector<int>{1, 3, 8, 32}) : r.pick(std::vector<int>{1, 2, 3, 7, 32, 64, 128, 256, 1000, 1024});
      l.flag = r.below(2);
      for (int a = 0; a < NA; a++) l.map[a] = a;
      if (j) for (int a = NA; a > 1; a--) std::swap(l.map[a - 1], l.map[r.below(u64t(a))]);
      if (!step && r.chance(.25)) l.map[IN0] = l.map[r.chance(.5) ? OUT0 : OUT1];
      l.wait = r.chance(.4);
      l.order = r.range(-1, 3);
      L.push_back(l);
    }
    o.nops = unsigned(nl);
    o.text = fmt("%s%s n=%ld lead=%ld tail=%ld%s:", k.name, step ? (two ? " two-threads" : " interleaved") : "", total, lead, tail, spmd_is_gpu ? "" : fmt(" unroll=%d", k.unroll).c_str());
    o.text += fmt(" %s", k.type);
    for (auto &l : L) if (!P.dropped(l.id)) o.text += fmt(" launch[%ld,%ld)/b%d%s%s%s", l.lo, l.lo + l.n, l.block, l.flag ? "/flag" : "", l.map[IN0] == l.map[OUT0] ? "/in0=out0" : l.map[IN0] == l.map[OUT1] ? "/in0=out1" : "", l.wait ? "/wait" : "");

    // memory, with its model
    std::vector<char> mod[NA];
    char *dev[NA];
    long items = lead + total + tail;
    for (int a = 0; a < NA; a++) {
      dev[a] = (char *)G.alloc(size_t(items * sz));
      mod[a].resize(size_t(items * sz) + 1);
      for (long i = 0; i < items; i++) put(k, &mod[a][0], i, i < lead || i >= lead + total ? 15 : value(r, k));
      memcpy(dev[a], &mod[a][0], size_t(items * sz));
    }
    std::vector<Write> owner;
    u64t rows = r.next(), rsch = r.next();
    double p = .002; { int e = int(r.below(7)); while (e-- > 0) p *= 2; }
    bool every = r.chance(.1);

    // reference
    std::vector<std::vector<char> > stored(NA);
    for (int a = 0; a < NA; a++) stored[a].assign(size_t(items), 0);
    g_limit = 0;
    for (auto &l : L) {
      if (P.dropped(l.id)) continue;
      u_long t = 0;
      for (long i = 0; i < l.n; i++) {
        SpmdArg A;
        memset(&A, 0, sizeof A);
        A.i = lead + l.lo + i;
        char *b[NA];
        for (int a = 0; a < NA; a++) b[a] = &mod[l.map[a]][0];
        A.out0 = b[OUT0]; A.out1 = b[OUT1]; A.out2 = b[OUT2]; A.cnt = b[CNT]; A.in0 = b[IN0]; A.in1 = b[IN1];
        k.ref(A, l.flag);
        t += A.ticks;
        if (A.out0_w) stored[l.map[OUT0]][size_t(A.i)] = 1;
        if (A.out1_w) stored[l.map[OUT1]][size_t(A.i)] = 1;
        if (A.out2_w) stored[l.map[OUT2]][size_t(A.i)] = 1;
        if (A.cnt_w) stored[l.map[CNT]][size_t(A.i)] = 1;
      }
      o.n["items"] += u64t(l.n);
      g_limit += (t + u_long(l.n) + 16) * 256;
      o.n["launches"]++;
    }
    o.n["reference_conditions"] = g_limit / 256;
    g_ticks = 0;
    bool live = false;
    auto launch = [&](Launch const &l, long from, long to) {
      void *a[NA];
      for (int i = 0; i < NA; i++) a[i] = dev[l.map[i]] + (lead + l.lo + from) * sz;
      cases[size_t(l.c)]->launch(to - from, l.block, a, l.flag);
    };
    std::string bad;
    u64t ih = seed, steps = 0;
    unsigned batch = 0;
    auto setup = [&](StepSim &S, unsigned group) {
      S.step_cap = 3000000;
      S.soft_cap = 100000;
      S.max_trace = 20000;
      S.sch.rng.reseed(mix(rsch, group));
      if (P.replay) {
        S.sch.mode = Scheduler::Replay;
        for (auto &w : P.script) if (w.t / 16 == group) S.sch.script[std::make_pair(w.t % 16, w.at)] = w.to;
      } else { S.sch.policy = every ? Scheduler::Every : Scheduler::Bern; S.sch.p = p; S.sch.trace.reserve(4096); }
    };
    auto after = [&](StepSim &S, unsigned group, bool ok) {
      for (auto w : S.sch.trace) { w.t += group * 16; o.trace.push_back(w); }
      ih = mix(ih, S.ihash); steps += S.total_steps;
      o.n["interleaved_groups"]++; o.n["instruction_switches"] += S.switches;
      if (!ok && bad.empty()) bad = S.violation;
    };
    if (spmd_is_gpu && step)
      G.parallel = [&](std::vector<std::function<void()> > &v) {
        unsigned group = batch++;
        StepSim S;
        setup(S, group);
        for (auto &f : v) S.add([&f, &live]() { try { step_on(); f(); step_off(); } catch (Live &) { step_off(); live = true; } });
        after(S, group, S.run());
      };

    if (!spmd_is_gpu && step) {
      StepSim S;
      setup(S, 0);
      Launch const &l = L[0];
      long mid = two ? long(Rng(rows).below(u64t(l.n + 1))) : l.n;
      if (!P.dropped(l.id)) {
        S.add([&]() { try { step_on(); launch(l, 0, mid); step_off(); } catch (Live &) { step_off(); live = true; } });
        if (two) S.add([&]() { try { step_on(); launch(l, mid, l.n); step_off(); } catch (Live &) { step_off(); live = true; } });
      }
      // the owner of everything the launch does not store to
      Rng w(rows);
      for (int q = 0; q < 40; q++) {
        Write x;
        static const int outs[] = {OUT0, OUT1, OUT2, CNT};
        x.arr = outs[w.below(4)];
        x.at = long(w.below(u64t(items)));
        if (w.chance(.4)) x.at = w.chance(.5) ? long(w.below(u64t(lead + 1))) : items - 1 - long(w.below(u64t(tail + 1)));
        if (x.at >= items || stored[x.arr][size_t(x.at)]) continue;
        int v = w.range(21, 90);
        put(k, x.v, 0, v);
        memcpy(&mod[x.arr][size_t(x.at * sz)], x.v, size_t(sz));
        owner.push_back(x);
      }
      S.add([&]() {
        for (auto &x : owner) {
          volatile char *q = dev[x.arr] + x.at * sz;
          step_on();
          if (sz == 8) *(volatile unsigned long long *)q = *(unsigned long long *)x.v;
          else if (sz == 4) *(volatile unsigned *)q = *(unsigned *)x.v;
          else if (sz == 2) *(volatile unsigned short *)q = *(unsigned short *)x.v;
          else *q = (char)x.v[0];
          for (volatile int d = 0; d < 4; d = d + 1) {}
          step_off();
        }
      });
      o.n["owner_writes"] += owner.size();
      after(S, 0, S.run());
    } else {
      G.set_open(!spmd_is_gpu);
      try {
        for (auto &l : L) {
          if (P.dropped(l.id)) continue;
          G.order = l.order;
          launch(l, 0, l.n);
          if (l.wait) G.wait_all();
        }
        G.wait_all();
      } catch (Live &) { live = true; }
      G.set_open(true);
    }
    if (bad.empty() && live) bad = fmt("LIVENESS: more than %lu conditions evaluated by a launch whose items need at most %lu in sequence", g_limit, g_limit / 256);
    if (bad.empty()) { G.check_zones(); bad = G.error; }
    for (int a = 0; a < NA && bad.empty(); a++)
      for (long i = 0; i < items; i++) {
        char *q = dev[a] + i * sz, *m = &mod[a][size_t(i * sz)];
        if (!memcmp(q, m, size_t(sz))) continue;
        static const char *const nm[] = {"out0", "out1", "out2", "count", "in0", "in1"};
        bool own = false;
        for (auto &w : owner) if (w.arr == a && w.at == i) own = true;
        if (own) bad = fmt("OVERWRITTEN: %s[%ld], which no item of the launch stores to, holds %s instead of the %s its owner stored meanwhile", nm[a], i - lead, show(k, q).c_str(), show(k, m).c_str());
        else if (i < lead || i >= lead + total) bad = fmt("OUTSIDE: %s[%ld], outside the launch, became %s", nm[a], i - lead, show(k, q).c_str());
        else bad = fmt("ITEM: %s[%ld] is %s instead of %s", nm[a], i - lead, show(k, q).c_str(), show(k, m).c_str());
        break;
      }
    o.inter = mix(ih, G.hash);
    o.hash = mix(o.inter, seed);
    for (int a = 0; a < NA; a++) o.hash = hash_bytes(o.hash, dev[a], size_t(items * sz));
    o.steps = steps + G.threads;
    o.nontrivial = o.trace.size() > 2 || G.overlaps > 0 || G.launches > 0 || nl > 1;
    o.n["conditions"] = g_ticks; o.n["device_threads"] = G.threads; o.n["device_launches"] = G.launches;
    o.n["device_overlaps"] = G.overlaps; o.n["device_waits"] = G.sync;
    if (step) o.n["interleaved_runs"] = 1;
    if (!bad.empty()) { o.bad = true; o.why = bad; o.hash = mix(o.hash, hash_str(bad.c_str())); }
    return o;
  }
};

int main(int argc, char **argv) {
  SpmdEngine E;
  return drive(E, argc, argv, "spmdsim");
}
