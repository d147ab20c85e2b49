// C01 / C02: allocation histories over a simulated, failing system heap.
#include "stepsim.hpp"
#include "driver.hpp"
#include "simheap.hpp"
#include "alloc_ops.hpp"

using namespace sim;

namespace aops { void arm(bool b) { Heap::get().armed = b; } }

static void set_faults(Heap &h, Plan const &P, Outcome &o, Rng &fr, double p, int burst_from, int burst_len) {
  Plan const *pp = &P; Outcome *po = &o; Rng *pr = &fr;
  h.decide = [pp, po, pr, p, burst_from, burst_len](u64t k) {
    bool f = pp->replay ? pp->fires(unsigned(k)) : (pr->chance(p) || (burst_from >= 0 && int(k) >= burst_from && int(k) < burst_from + burst_len));
    if (f) po->faults.push_back(unsigned(k));
    return f;
  };
}

struct Slot { char *p; long long n; int kind, type; int state; u64t pat; }; // 0 free, 1 busy, 2 live

struct C01 : Engine {
  struct Op { int alloc, slot, kind, type; long long n; };
  long ncases() { return 3 * 11; }
  std::string case_name(long c) { return fmt("%s<%s>", c / 11 == 0 ? "nsimd_aligned_alloc" : c / 11 == 1 ? "nsimd::aligned_alloc" : "aligned_alloc_for", aops::name_of[c % 11]); }
  Outcome run(u64t seed, long c, Plan const &P) {
    Outcome o;
    Rng r(seed);
    int kind = int(c / 11), type = int(c % 11), sz = kind == 2 ? aops::size_of[type] : 1;
    int nt = r.range(1, 3);
    std::vector<std::vector<Op> > prog(nt);
    std::vector<std::vector<unsigned> > ids(nt);
    unsigned nops = 0;
    for (int t = 0; t < nt; t++) {
      int m = r.range(2, nt == 1 ? 14 : 7);
      for (int k = 0; k < m; k++) {
        Op q;
        q.alloc = r.chance(0.6); q.slot = int(r.below(8));
        bool own = r.chance(0.8);
        q.kind = own ? kind : r.range(0, 2); q.type = own ? type : r.range(0, 10);
        int s = q.kind == 2 ? aops::size_of[q.type] : 1;
        switch (r.range(0, 7)) {
        case 0: q.n = r.range(0, 3); break;
        case 1: q.n = r.range(1, 200); break;
        case 2: q.n = 64 * r.range(1, 20) + r.range(-1, 1); break;
        case 3: q.n = 4096 + r.range(-2, 2); break;
        case 4: q.n = (long long)(Heap::MAXBLK) / s + r.range(-1, 2); break;
        case 5: q.n = (s > 1 ? (1ll << (s == 8 ? 61 : 62)) : (1ll << 62)) + r.range(0, 40); break; // wraps for 4 and 8 byte types
        case 6: q.n = 0x7fffffffffffffffll - r.range(0, 100); break;
        default: q.n = r.range(1, 3000); break;
        }
        prog[t].push_back(q); ids[t].push_back(nops++);
      }
    }
    o.nops = nops;
    o.text = fmt("%s threads=%d ops=%u", case_name(c).c_str(), nt, nops);
    double pf = r.chance(0.3) ? 0 : r.chance(0.5) ? 0.15 : 0.5;
    int bf = r.chance(0.2) ? r.range(0, 8) : -1, bl = r.range(1, 6);
    Heap &h = Heap::get();
    h.reset(r.next());
    h.reuse = r.chance(0.4);
    Rng fr(r.next());
    set_faults(h, P, o, fr, pf, bf, bl);
    StepSim S;
    S.sch.mode = P.replay ? Scheduler::Replay : Scheduler::Record;
    int pol = r.range(0, 3);
    S.sch.policy = nt == 1 ? Scheduler::Solo : pol == 0 ? Scheduler::Every : pol == 3 ? Scheduler::Pct : Scheduler::Bern;
    S.sch.p = r.chance(0.5) ? 0.2 : 0.05;
    S.sch.rng.reseed(r.next());
    if (S.sch.policy == Scheduler::Pct) { S.sch.pct.resize(nt); for (int t = 0; t < nt; t++) for (int k = 0; k < 4; k++) S.sch.pct[t].push_back(unsigned(S.sch.rng.below(120)) + 1); }
    for (auto &s : P.script) S.sch.script[std::make_pair(s.t, s.at)] = s.to;
    S.catch_faults = true;
    std::vector<Slot> slots(8);
    for (auto &s : slots) s.state = 0;
    u64t hash = 7;
    std::vector<u64t> fails(nt, 0); // failing system calls seen inside the current operation
    h.active = [&]() { return S.cur >= 0 && S.th[S.cur]->stepping; };
    h.before = [&]() { step_off(); S.point(); };
    h.after = [&]() { S.point(); step_on(); };
    auto inner = h.decide;
    h.decide = [&, inner](u64t k) { bool f = inner(k); if (f) fails[S.cur]++; return f; };
    auto pattern = [](Slot &s, bool set) {
      long long bytes = s.n * (s.kind == 2 ? aops::size_of[s.type] : 1);
      long long lim = std::min<long long>(bytes, 2048);
      for (long long i = 0; i < bytes; i = (i == lim - 1 && bytes > 4096) ? bytes - 64 : i + 1) {
        char v = char((s.pat * 0x9E37ull + u64t(i) * 131) >> 3);
        if (set) s.p[i] = v; else if (s.p[i] != v) return false;
      }
      return true;
    };
    auto verify = [&](const char *when) {
      h.check();
      if (!h.error.empty()) S.abort_run(h.error + " " + when);
      for (auto &s : slots) if (s.state == 2 && !pattern(s, false)) S.abort_run(fmt("CONTENT: a live block of %lld element(s) changed %s", s.n, when));
    };
    for (int t = 0; t < nt; t++) S.add([&, t]() {
      for (size_t k = 0; k < prog[t].size(); k++) {
        if (P.dropped(ids[t][k])) continue;
        Op &q = prog[t][k];
        Slot &s = slots[q.slot];
        hash = mix(hash, ids[t][k]);
        if (q.alloc) {
          if (s.state != 0) continue;
          s.state = 1;
          fails[t] = 0;
          void *p;
          step_on();
          p = aops::alloc(q.kind, q.type, q.n);
          step_off();
          int es = q.kind == 2 ? aops::size_of[q.type] : 1;
          __int128 want = (__int128)q.n * es;
          hash = mix(hash, p ? u64t((char *)p - h.base) : 1);
          if (!h.error.empty()) S.abort_run(h.error + " during an allocation");
          if (p) {
            o.n["allocations"]++;
            char *start = 0;
            if ((size_t)p % aops::max_alignment) S.abort_run(fmt("ALIGNMENT: %lld element(s) of %d byte(s) returned at an address that is only %zu-byte aligned", q.n, es, (size_t)p & -(size_t)p));
            if (want > (__int128)Heap::SIZE || !h.containing(p, size_t(want), &start)) S.abort_run(fmt("SIZE: request for %lld element(s) of %d byte(s) succeeded but the block obtained from the system is shorter or not live", q.n, es));
            for (auto &x : slots) if (x.state == 2 && want && (char *)p < x.p + x.n * (x.kind == 2 ? aops::size_of[x.type] : 1) && x.p < (char *)p + (long long)want) S.abort_run("OVERLAP: two live blocks overlap");
            s.p = (char *)p; s.n = q.n; s.kind = q.kind; s.type = q.type; s.pat = h.calls * 77 + t;
            pattern(s, true);
            s.state = 2;
          } else {
            o.n["failures_reported"]++;
            if (!fails[t] && want > 0 && want <= (__int128)Heap::MAXBLK) S.abort_run(fmt("SPURIOUS: request for %lld element(s) of %d byte(s) failed although the system allocator never refused", q.n, es));
            s.state = 0;
          }
        } else {
          void *p; int kd, ty;
          if (s.state == 2) { if (!pattern(s, false)) S.abort_run("CONTENT: a live block changed before it was freed"); p = s.p; kd = s.kind; ty = s.type; s.state = 1; }
          else if (s.state == 0 && q.n % 3 == 0) { p = 0; kd = q.kind; ty = q.type; } // freeing null is allowed
          else continue;
          u64t id = 0; char *st = 0; const Heap::Blk *b = p ? h.containing(p, 0, &st) : 0;
          if (b) id = b->id;
          step_on();
          aops::release(kd, ty, p);
          step_off();
          o.n["releases"]++;
          if (!h.error.empty()) S.abort_run(h.error + " during a release");
          if (p) {
            auto it = h.blk.find(st);
            if (it != h.blk.end() && it->second.live && it->second.id == id) S.abort_run("LEAK: a released block was not given back to the system allocator");
            s.state = 0;
          }
        }
        verify("after an operation");
        S.point();
      }
    });
    bool ok = S.run();
    o.bad = !ok; o.why = S.violation;
    h.active = nullptr;
    if (ok) {
      size_t live = 0;
      for (auto &s : slots) live += s.state == 2;
      // a zero-byte request may legitimately be answered without a block
      size_t zero = 0;
      for (auto &s : slots) zero += s.state == 2 && s.n == 0;
      size_t lb = h.live_blocks();
      if (lb > live || lb + zero < live) { o.bad = true; o.why = fmt("LEAK: %zu block(s) held by the program but %zu block(s) taken from the system allocator", live, lb); }
    }
    o.trace = S.sch.trace; o.hash = mix(mix(hash, S.ihash), mix(S.total_steps, h.calls)); o.inter = mix(S.ihash, mix(hash, o.faults.size())); o.steps = S.total_steps;
    o.nontrivial = !o.faults.empty() || S.switches > 1;
    o.n["system_calls"] = h.calls;
    return o;
  }
};

struct C02 : Engine {
  std::vector<std::pair<int, int> > cs;
  C02() { for (int ct = 0; ct < aops::NCONT; ct++) if (aops::has(ct)) for (int t = 0; t < 11; t++) if (ct == 0 || t == 4 || t == 0 || t == 10) cs.push_back(std::make_pair(ct, t)); }
  long ncases() { return long(cs.size()); }
  std::string case_name(long c) { return fmt("%s<%s>", cs[c].first == 0 ? "vector" : cs[c].first == 1 ? "list" : "deque", aops::name_of[cs[c].second]); }
  struct Body : aops::Scope {
    Outcome *o; bool leave; StepSim *S; size_t elt;
    void body(void *p, size_t n, size_t e, void *copy) {
      Heap &h = Heap::get();
      if (!p) S->abort_run("NULL: a scoped buffer was constructed without memory and without an exception");
      if ((size_t)p % aops::max_alignment) S->abort_run("ALIGNMENT: scoped buffer not aligned");
      if (!h.containing(p, n * e)) S->abort_run(fmt("SIZE: scoped buffer of %zu elements does not own them", n));
      if (copy) {
        if (!h.containing(copy, n * e)) S->abort_run("SIZE: copy of a scoped buffer does not own its elements");
        if (copy == p) S->abort_run("OWNERSHIP: a copied scoped buffer shares the block of the original");
        if (memcmp(copy, p, n * e)) S->abort_run("CONTENT: a copied scoped buffer differs from the original");
      }
      memset(p, 0x3C, n * e);
      if (copy && n * e && *(unsigned char *)copy == 0x3C && !memcmp(copy, p, n * e)) S->abort_run("OWNERSHIP: writing the original changed the copy");
      h.check();
      o->n["scopes_entered"]++;
      if (leave) throw 42;
    }
  };
  Outcome run(u64t seed, long c, Plan const &P) {
    Outcome o;
    Rng r(seed);
    int ct = cs[c].first, type = cs[c].second;
    unsigned m = unsigned(r.range(3, 30));
    o.nops = m;
    double pf = r.chance(0.25) ? 0 : r.chance(0.5) ? 0.1 : 0.4;
    int bf = r.chance(0.25) ? r.range(0, 10) : -1, bl = r.range(1, 8);
    Heap &h = Heap::get();
    h.reset(r.next());
    h.reuse = r.chance(0.4);
    Rng fr(r.next());
    set_faults(h, P, o, fr, pf, bf, bl);
    u64t fails = 0;
    auto inner = h.decide;
    bool quiet = true;
    h.decide = [&, inner](u64t k) { if (quiet) return false; bool f = inner(k); if (f) fails++; return f; };
    o.text = fmt("C++%s %s ops=%u", aops::standard, case_name(c).c_str(), m);
    struct Q { int what, op, a, b, which; long v; bool huge; u64t hv; };
    std::vector<Q> prog;
    for (unsigned k = 0; k < m; k++) {
      Q q; q.what = r.range(0, 9); q.op = r.range(0, aops::OpEnd - 1); q.a = r.range(0, 40); q.b = r.range(0, 40); q.which = r.range(0, 1); q.v = r.range(1, 100); q.huge = r.chance(0.08);
      static const u64t hs[] = {~0ull - 4, 1ull << 63, 1ull << 61, (1ull << 61) + 1, (1ull << 62) + 3, (1ull << 60) + 5, 0x0fffffffffffffffull, 1ull << 32};
      q.hv = hs[r.below(8)] + r.below(3);
      prog.push_back(q);
    }
    u64t hash = 5;
    StepSim S;
    S.catch_faults = true;
    S.add([&]() {
      aops::Cont *cn[2] = {aops::make(ct, type), aops::make(ct, type)};
      quiet = false;
      std::vector<long> model[2];
      std::vector<std::pair<void *, size_t> > raw;
      size_t es = size_t(aops::size_of[type]);
      auto verify = [&](const char *when) {
        h.check();
        if (!h.error.empty()) S.abort_run(h.error + " " + when);
        for (int w = 0; w < 2; w++) {
          if (aops::size(cn[w]) != model[w].size()) S.abort_run(fmt("CONTENT: container has %zu elements instead of %zu %s", aops::size(cn[w]), model[w].size(), when));
          if (ct == 0 && !model[w].empty()) {
            const void *d = aops::data(cn[w]);
            if (!d) S.abort_run("NULL: a non-empty vector holds a null buffer");
            if ((size_t)d % aops::max_alignment) S.abort_run("ALIGNMENT: vector buffer not aligned");
            if (!h.containing(d, model[w].size() * es)) S.abort_run("SIZE: vector buffer is not a live block of its length");
          }
          for (size_t i = 0; i < model[w].size(); i++) if (aops::at(cn[w], i) != model[w][i]) S.abort_run(fmt("CONTENT: element %zu is %ld instead of %ld %s", i, aops::at(cn[w], i), model[w][i], when));
        }
      };
      for (unsigned k = 0; k < m; k++) {
        if (P.dropped(k)) continue;
        Q const &q = prog[k];
        fails = 0;
        hash = mix(hash, k);
        int st = 0;
        size_t req = 0; // bytes a successful operation needs at most (roughly)
        if (q.what <= 6) {
          std::vector<long> &M = model[q.which], &O = model[1 - q.which];
          std::vector<long> want = M, want_o = O;
          size_t a = size_t(q.a), b = size_t(q.b);
          bool huge = false;
          switch (q.op) {
          case aops::PushBack: want.push_back(q.v); break;
          case aops::PushFront: if (ct != 0) want.insert(want.begin(), q.v); break;
          case aops::PopBack: if (!want.empty()) want.pop_back(); break;
          case aops::Resize: if (q.huge && ct == 0) { a = q.hv; huge = true; } else want.resize(a, q.v); if (ct == 2 && a > M.size()) { /* strong for trailing insertions */ } break;
          case aops::Reserve: if (ct != 0) continue; if (q.huge) { a = q.hv; huge = true; } else a *= 20; break;
          case aops::InsertN: if (ct == 2) continue; b = M.empty() ? 0 : b % (M.size() + 1); if (q.huge && ct == 0) { a = q.hv; huge = true; } else want.insert(want.begin() + long(b), a, q.v); break;
          case aops::AssignN: if (ct != 0) continue; if (q.huge) { a = q.hv; huge = true; } else want.assign(a, q.v); break;
          case aops::Clear: want.clear(); break;
          case aops::EraseRange: a = M.empty() ? 0 : a % M.size(); b = std::min(b, M.size() - a); want.erase(want.begin() + long(a), want.begin() + long(a + b)); break;
          case aops::Shrink: break;
          case aops::SwapWith: want.swap(want_o); break;
          case aops::CopyFrom: want = O; break;
          }
          st = aops::apply(cn[q.which], q.op, a, b, q.v, cn[1 - q.which]);
          o.n["container_ops"]++;
          if (st == 3) S.abort_run("EXCEPTION: memory exhaustion reported by something other than std::bad_alloc");
          if (st == 0) {
            if (huge && q.op != aops::Shrink) S.abort_run(fmt("SIZE: an operation on %zu elements succeeded", a));
            M = want; O = want_o;
          } else {
            o.n["exceptions"]++;
            if (!fails && !huge) S.abort_run("SPURIOUS: an operation threw although the system allocator never refused");
          }
          (void)req;
        } else if (q.what == 7) {
          size_t n = q.huge ? size_t(q.hv) : size_t(q.a * 3 + 1);
          void *p = 0;
          st = aops::al_allocate(type, n, &p);
          o.n["allocator_calls"]++;
          bool over = n > Heap::MAXBLK / es;
          if (st == 0) {
            if (!p) S.abort_run(fmt("NULL: allocate(%zu) returned a null pointer instead of throwing", n));
            if ((size_t)p % aops::max_alignment) S.abort_run("ALIGNMENT: allocate() result not aligned");
            if (over || !h.containing(p, n * es)) S.abort_run(fmt("SIZE: allocate(%zu) returned a block shorter than requested", n));
            memset(p, 0x11, n * es);
            raw.push_back(std::make_pair(p, n));
          } else if (!fails && !over) S.abort_run("SPURIOUS: allocate() threw although the system allocator never refused");
          else if (st == 3) S.abort_run("EXCEPTION: memory exhaustion reported by something other than std::bad_alloc");
        } else if (q.what == 8) {
          if (raw.empty()) continue;
          aops::al_deallocate(type, raw.back().first, raw.back().second);
          if (h.containing(raw.back().first, 1)) S.abort_run("LEAK: deallocate() did not give the block back");
          raw.pop_back();
        } else {
          Body b; b.o = &o; b.leave = q.v & 1; b.S = &S;
          size_t n = q.huge ? size_t(q.hv) : size_t(q.a + 1);
          size_t before = h.live_blocks();
          st = aops::scoped(type, n, q.which, &b);
          o.n["scopes"]++;
          if (st == 0 && q.huge) S.abort_run("SIZE: a scoped buffer of an impossible size was constructed");
          if (st == 3 && !b.leave) S.abort_run("EXCEPTION: memory exhaustion reported by something other than std::bad_alloc");
          if ((st == 1 || st == 2) && !fails && !q.huge) S.abort_run("SPURIOUS: a scoped buffer threw although the system allocator never refused");
          if (h.live_blocks() != before) S.abort_run("LEAK: a scoped buffer outlives its scope");
        }
        hash = mix(hash, u64t(st));
        verify("after an operation");
      }
      while (!raw.empty()) { aops::al_deallocate(type, raw.back().first, raw.back().second); raw.pop_back(); }
      verify("at the end");
      aops::destroy(cn[0]);
      aops::destroy(cn[1]);
      if (!h.error.empty()) S.abort_run(h.error + " in a destructor");
      if (h.live_blocks()) S.abort_run(fmt("LEAK: %zu block(s) still held after every container was destroyed", h.live_blocks()));
    });
    bool ok = S.run();
    h.armed = false;
    o.bad = !ok; o.why = S.violation;
    o.hash = mix(mix(hash, h.calls), h.frees); o.inter = mix(hash, o.faults.size()); o.steps = h.calls;
    o.nontrivial = !o.faults.empty();
    o.n["system_calls"] = h.calls;
    return o;
  }
};

template <typename B> struct WithWhich : B { bool arg(std::string const &a, std::string const &) { return a == "--which"; } };

int main(int argc, char **argv) {
  std::string which = "C01";
  for (int i = 1; i + 1 < argc; i++) if (!strcmp(argv[i], "--which")) which = argv[i + 1];
  if (which == "C01") { WithWhich<C01> e; return drive(e, argc, argv, "C01"); }
  WithWhich<C02> e;
  return drive(e, argc, argv, "C02");
}
