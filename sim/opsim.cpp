// C05: operators interrupted by operators on other simulated threads give the
// results they give alone and leave the floating-point environment alone.
// Every run happens in a fresh process image (fork), as do the solo runs that
// serve as the oracle, so that state hidden in the library cannot carry over.
#include "stepsim.hpp"
#include "driver.hpp"
#include "opsim_ops.hpp"
#include <sys/wait.h>
using namespace sim;

#define PART(i) extern Op const vsim_ops_##i[]; extern unsigned vsim_nops_##i;
PART(0) PART(1) PART(2) PART(3)
extern Op const vsim_extra[];
extern unsigned vsim_nextra;
static std::vector<Op> ops;

struct Call { unsigned op; In in; unsigned mxcsr; unsigned short cw; };
struct After { unsigned mxcsr; unsigned short cw, tag; bool df; };
struct Res { unsigned char out[256]; After a; bool ok; };

static const unsigned MAXTRACE = 200000, MAXCALL = 16;
struct Shared {
  Res solo[MAXCALL], sim[MAXCALL];
  bool ended, aborted;
  char why[400];
  u64t steps, ihash, switches;
  unsigned ntrace, done;
  Switch trace[MAXTRACE];
};
static Shared *sh;

static void gen(Rng &r, Op const &o, In &in) {
  memset(&in, 0, sizeof in);
  for (int k = 0; k < 4; k++)
    for (int i = 0; i < 128 / o.bytes; i++) {
      unsigned char *p = in.v[k] + i * o.bytes;
      u64t x = r.next();
      if (o.kind == 'f') {
        int c = int(r.below(8));
        double d = (double(r.below(2000001)) - 1e6) * 1e-4;
        if (c == 0) d = r.chance(.5) ? 0.0 : -0.0;
        if (c == 1) d = r.chance(.5) ? 1.0 : double(r.range(-20, 20));
        if (c == 2) d *= o.bytes == 2 ? 1e-6 : o.bytes == 4 ? 1e-40 : 1e-308;
        if (c == 3) d *= o.bytes == 2 ? 600 : 1e9;
        if (c != 4) {
          if (o.bytes == 8) memcpy(&x, &d, 8);
          else { float f = float(d); unsigned u; memcpy(&u, &f, 4); x = u;
                 if (o.bytes == 2) { // truncated to half precision by hand
                   int e = int((u >> 23) & 255) - 127 + 15; unsigned m = (u >> 13) & 0x3ff;
                   x = ((u >> 16) & 0x8000) | (e <= 0 ? m : e >= 31 ? 0x7c00 : unsigned(e) << 10 | m); } }
        }
      } else if (o.special == 5) {
        int m = o.bytes == 1 ? 7 : o.bytes == 2 ? 200 : 30000;
        x = u64t((long long)(r.range(1, m)) * (r.chance(.5) ? 1 : -1));
      } else {
        if (r.chance(.3)) x = u64t((long long)(r.range(-3, 3)));
        if (o.special == 1 && k == 1) {
          u64t mask = o.bytes == 8 ? ~0ull : (1ull << (8 * o.bytes)) - 1;
          if ((x & mask) == 0 || (o.kind == 'i' && (x & mask) == mask)) x = 3;
        }
      }
      memcpy(p, &x, size_t(o.bytes));
    }
  if (o.special == 1 && o.kind == 'f') {}
  for (int k = 0; k < 3; k++) {
    if (o.special == 0 && k > 0 && (strncmp(o.name, "philox", 6) == 0)) { for (int i = 0; i < 128; i++) in.l[k][i] = (unsigned char)r.next(); continue; }
    for (int i = 0; i < 128 / o.bytes; i++) {
      u64t x = 0;
      if (r.chance(.5)) {
        double d = 1; float f = 1;
        if (o.kind != 'f') x = 1;
        else if (o.bytes == 8) memcpy(&x, &d, 8);
        else if (o.bytes == 4) memcpy(&x, &f, 4);
        else x = 0x3c00;
      }
      memcpy(in.l[k] + i * o.bytes, &x, size_t(o.bytes));
    }
  }
  in.p[0] = o.special == 2 ? int(r.below(u64t(o.bytes) * 8)) : o.special == 4 ? int(r.below(2)) : int(r.below(12));
  in.p[1] = int(r.below(40));
}

static inline void set_env(Call const &c) {
  asm volatile("ldmxcsr %0\n\tfldcw %1" ::"m"(c.mxcsr), "m"(c.cw));
}
static inline void get_env(After &a) {
  struct { unsigned short cw, r0, sw, r1, tag, r2; unsigned rest[4]; } env;
  unsigned long fl;
  unsigned def = 0x1f80;
  unsigned short dcw = 0x037f;
  asm volatile("stmxcsr %0" : "=m"(a.mxcsr));
  asm volatile("fnstenv %0" : "=m"(env));
  a.cw = env.cw; // fnstenv masks exceptions; restored below anyway
  a.tag = env.tag;
  asm volatile("pushfq\n\tpopq %0" : "=r"(fl));
  a.df = (fl >> 10) & 1;
  asm volatile("cld\n\tfninit\n\tldmxcsr %0\n\tfldcw %1" ::"m"(def), "m"(dcw));
}

static const char *env_diff(Call const &c, After const &a, std::string &t) {
  if ((a.mxcsr & 0xffc0) != (c.mxcsr & 0xffc0)) { t = fmt("MXCSR control bits %04x became %04x", c.mxcsr & 0xffc0, a.mxcsr & 0xffc0); return "mxcsr"; }
  if (a.cw != c.cw) { t = fmt("x87 control word %04x became %04x", c.cw, a.cw); return "x87"; }
  if (a.tag != 0xffff) { t = fmt("x87/MMX registers left in use (tag word %04x)", a.tag); return "x87 stack"; }
  if (a.df) { t = "direction flag left set"; return "df"; }
  return 0;
}

struct OpEngine : Engine {
  long ncases() { return long(ops.size()); }
  std::string case_name(long c) { return ops[size_t(c)].name; }

  Outcome run(u64t seed, long c, Plan const &P) {
    Outcome o;
    Rng r(seed);
    int nt = r.chance(.7) ? 2 : 3;
    std::vector<std::vector<unsigned> > prog(nt);
    std::vector<Call> calls;
    for (int t = 0; t < nt; t++) {
      int k = r.range(1, 3);
      unsigned mx = 0x1f80;
      unsigned short cw = 0x037f;
      if (r.chance(.5)) { mx |= unsigned(r.below(4)) << 13; if (r.chance(.3)) mx |= 0x8000; if (r.chance(.3)) mx |= 0x40; }
      if (r.chance(.3)) cw = (unsigned short)((cw & ~0xf00) | (unsigned(r.below(4)) << 10) | (unsigned(r.pick(std::vector<int>{0, 2, 3})) << 8));
      for (int j = 0; j < k; j++) {
        Call x;
        size_t op = size_t(c);
        if (!(t == 0 && j == 0) && !r.chance(.6)) {
          if (r.chance(.5)) { long d = long(c) + r.range(-12, 12); op = size_t(((d % ncases()) + ncases()) % ncases()); }
          else op = size_t(r.below(ops.size()));
        }
        x.op = unsigned(op);
        x.mxcsr = mx; x.cw = cw;
        gen(r, ops[op], x.in);
        // sometimes exactly the operands of an earlier call but for one lane
        if (!calls.empty() && r.chance(.15)) { Call const &y = calls[r.below(calls.size())]; if (y.op == x.op) { unsigned l = unsigned(r.below(16)); unsigned char keep[16]; memcpy(keep, x.in.v[0] + l, 16); x.in = y.in; memcpy(x.in.v[0] + l, keep, 16); if (ops[op].special == 1 || ops[op].special == 5) x.in = y.in; } }
        unsigned id = unsigned(calls.size());
        calls.push_back(x);
        if (!P.dropped(id)) prog[t].push_back(id);
      }
    }
    o.nops = unsigned(calls.size());
    for (int t = 0; t < nt; t++) { o.text += fmt("%st%d:", t ? " " : "", t); for (unsigned id : prog[t]) o.text += fmt(" %s[mx%04x]", ops[calls[id].op].name, calls[id].mxcsr); }
    // alone, each in its own pristine process
    for (int t = 0; t < nt; t++)
      for (unsigned id : prog[t]) {
        sh->solo[id].ok = false;
        pid_t pid = fork();
        if (pid == 0) {
          Call const &x = calls[id];
          Res &q = sh->solo[id];
          memset(q.out, 0, sizeof q.out);
          StepSim S; // same stack preparation as in the simulation
          S.add([&]() { set_env(x); ops[x.op].f(&x.in, q.out); get_env(q.a); q.ok = true; });
          S.run();
          _exit(0);
        }
        int st;
        while (waitpid(pid, &st, 0) < 0) {}
        if (!sh->solo[id].ok) { o.n["solo_unusable"]++; o.text += " (unusable alone)"; return o; }
      }
    double p;
    { double e = double(r.below(1000)) / 1000; p = .004; for (int k = 0; k < 7; k++) if (e > k / 7.) p *= 2; }
    bool every = r.chance(.1), solo = r.chance(.04);
    u64t rs = r.next();
    sh->ended = false; sh->why[0] = 0; sh->aborted = false; sh->ntrace = 0; sh->done = 0; sh->steps = 0;
    pid_t pid = fork();
    if (pid == 0) {
      StepSim S;
      S.step_cap = 4000000;
      S.max_trace = MAXTRACE;
      S.catch_faults = false;
      S.sch.rng.reseed(rs);
      if (P.replay) { S.sch.mode = Scheduler::Replay; for (auto &w : P.script) S.sch.script[std::make_pair(w.t, w.at)] = w.to; }
      else { S.sch.policy = solo ? Scheduler::Solo : every ? Scheduler::Every : Scheduler::Bern; S.sch.p = p; S.sch.trace.reserve(4096); }
      for (int t = 0; t < nt; t++)
        S.add([&, t]() {
          for (unsigned id : prog[t]) {
            Call const &x = calls[id];
            Res &q = sh->sim[id];
            memset(q.out, 0, sizeof q.out);
            q.ok = false;
            void (*f)(In const *, unsigned char *) = ops[x.op].f;
            set_env(x);
            step_on();
            f(&x.in, q.out);
            step_off();
            get_env(q.a);
            q.ok = true;
            sh->done++;
          }
        });
      bool ok = S.run();
      sh->aborted = !ok;
      snprintf(sh->why, sizeof sh->why, "%s", S.violation.c_str());
      sh->steps = S.total_steps; sh->ihash = S.ihash; sh->switches = S.switches;
      sh->ntrace = unsigned(S.sch.trace.size());
      for (unsigned i = 0; i < sh->ntrace; i++) sh->trace[i] = S.sch.trace[i];
      sh->ended = true;
      _exit(0);
    }
    int st;
    while (waitpid(pid, &st, 0) < 0) {}
    if (!sh->ended) { o.bad = true; o.why = fmt("CRASH: the process died with status %d", st); o.hash = 1; return o; }
    o.trace.assign(sh->trace, sh->trace + sh->ntrace);
    o.steps = sh->steps; o.inter = sh->ihash;
    o.hash = mix(seed, sh->ihash);
    o.n["calls"] = sh->done;
    o.nontrivial = sh->switches >= 4;
    if (sh->aborted) { o.bad = true; o.why = sh->why; o.hash = mix(o.hash, hash_str(sh->why)); return o; }
    for (int t = 0; t < nt; t++)
      for (unsigned id : prog[t]) {
        Res &a = sh->solo[id], &b = sh->sim[id];
        Call const &x = calls[id];
        o.hash = hash_bytes(mix(o.hash, id), b.out, sizeof b.out);
        std::string d;
        if (memcmp(a.out, b.out, sizeof a.out) && !o.bad) {
          unsigned at = 0;
          while (a.out[at] == b.out[at]) at++;
          unsigned e = at / unsigned(ops[x.op].bytes) * unsigned(ops[x.op].bytes);
          u64t va = 0, vb = 0;
          memcpy(&va, a.out + e, size_t(ops[x.op].bytes)); memcpy(&vb, b.out + e, size_t(ops[x.op].bytes));
          o.bad = true;
          o.why = fmt("RESULT: %s on thread %d (call %u) gave 0x%llx at byte %u of its result instead of 0x%llx, the value it gives alone", ops[x.op].name, t, id, (unsigned long long)vb, e, (unsigned long long)va);
        }
        if (!o.bad && env_diff(x, b.a, d)) { o.bad = true; o.why = fmt("STATE: %s on thread %d left the processor state changed: %s", ops[x.op].name, t, d.c_str()); }
      }
    return o;
  }
};

int main(int argc, char **argv) {
#define ADD(i) ops.insert(ops.end(), vsim_ops_##i, vsim_ops_##i + vsim_nops_##i);
  ADD(0) ADD(1) ADD(2) ADD(3)
  ops.insert(ops.end(), vsim_extra, vsim_extra + vsim_nextra);
  std::sort(ops.begin(), ops.end(), [](Op const &a, Op const &b) { return strcmp(a.name, b.name) < 0; });
  sh = (Shared *)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (sh == MAP_FAILED) { perror("mmap"); return 3; }
  OpEngine E;
  return drive(E, argc, argv, "opsim");
}
