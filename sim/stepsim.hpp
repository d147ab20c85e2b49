// Instruction-granular deterministic scheduler for simulated threads.
//
// Simulated threads are contexts of one OS thread.  While a simulated thread
// runs library code the x86 trap flag is set: after every machine instruction
// the SIGTRAP handler asks the seeded scheduler who runs next, so that one seed
// is one exactly repeatable interleaving.  Harness code runs with the flag off.
#ifndef VSIM_STEPSIM_HPP
#define VSIM_STEPSIM_HPP
#include "core.hpp"
#include <cerrno>
#include <csignal>
#include <functional>
#include <link.h>
#include <sys/mman.h>
#include <ucontext.h>
#include <unistd.h>

extern "C" void vsim_ctx_switch(void **save_sp, void *load_sp);
asm(R"(
.text
.globl vsim_ctx_switch
.type vsim_ctx_switch,@function
vsim_ctx_switch:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  subq $16, %rsp
  stmxcsr 8(%rsp)
  fnstcw (%rsp)
  movq %rsp, (%rdi)
  movq %rsi, %rsp
  fldcw (%rsp)
  ldmxcsr 8(%rsp)
  addq $16, %rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
)");

namespace sim {

struct Switch {       // "after thread `t` made its `at`-th step, run `to`"
  unsigned t, at, to;
};

struct Scheduler {
  enum Mode { Record, Replay } mode;
  enum Policy { Solo, Every, Bern, Pct } policy;
  double p;
  std::vector<std::vector<unsigned> > pct; // per thread: step numbers
  std::vector<Switch> trace;               // decisions taken (Record)
  std::map<std::pair<unsigned, unsigned>, unsigned> script; // Replay
  Rng rng;
  Scheduler() : mode(Record), policy(Solo), p(0) {}
};

struct Thread {
  void *sp;
  char *stack;
  size_t stack_sz;
  std::function<void()> body;
  bool done, stepping;
  unsigned steps;
  std::vector<char> tls; // its thread-local variables while it does not run
};

// thread-local variables of the program: every simulated thread has its own
struct Tls {
  char *p;
  size_t n;
  static int cb(struct dl_phdr_info *i, size_t, void *v) {
    Tls *t = (Tls *)v;
    for (int k = 0; k < i->dlpi_phnum; k++)
      if (i->dlpi_phdr[k].p_type == PT_TLS) {
        t->p = (char *)i->dlpi_tls_data;
        t->n = t->p ? i->dlpi_phdr[k].p_memsz : 0;
      }
    return 1; // the main program comes first
  }
  static Tls &get() {
    static Tls t = {0, 0};
    static bool done = false;
    if (!done) { dl_iterate_phdr(cb, &t); done = true; }
    return t;
  }
};

struct StepSim {
  static const size_t STACK = 1 << 20;
  std::vector<Thread *> th;
  Scheduler sch;
  void *main_sp;
  int cur;
  bool aborted, catch_faults;
  std::string violation;
  u64t total_steps, step_cap, ihash;
  u64t soft_cap = ~0ull; // no scheduling points beyond this step
  std::function<void()> on_step; // invariant hook, runs in the trap handler
  u64t switches, max_trace;
  std::vector<char> main_tls;

  StepSim() : main_sp(0), cur(-1), aborted(false), catch_faults(false), total_steps(0),
              step_cap(200000), ihash(0), switches(0), max_trace(~0ull) {}

  static StepSim *&self() { static StepSim *p = 0; return p; }

  static std::vector<char *> &stacks() { static std::vector<char *> v; return v; }

  static void trampoline() {
    StepSim *s = self();
    Thread *t = s->th[s->cur];
    t->body();
    t->done = true;
    s->thread_end();
    abort();
  }

  void add(std::function<void()> f) {
    Thread *t = new Thread();
    t->body = f;
    t->done = false;
    t->stepping = false;
    t->steps = 0;
    t->stack_sz = STACK;
    if (stacks().size() <= th.size()) {
      char *m = (char *)mmap(0, STACK + 4096, PROT_READ | PROT_WRITE,
                             MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
      if (m == MAP_FAILED) { perror("mmap"); exit(3); }
      mprotect(m, 4096, PROT_NONE);
      stacks().push_back(m + 4096);
    }
    t->stack = stacks()[th.size()];
    // identical stack content for every run: results that depend on
    // uninitialised memory stay reproducible
    char *top = t->stack + STACK;
    memset(top - 65536, 0xA5, 65536);
    void **sp = (void **)top;
    *--sp = 0;                    // alignment / fake return address
    *--sp = (void *)&trampoline;  // ret target; rsp = 16n+8 at function entry
    for (int i = 0; i < 6; i++) *--sp = 0;
    *--sp = (void *)0x1f80ull; // mxcsr
    *--sp = (void *)0x037full; // x87 cw
    t->sp = (void *)sp;
    Tls &x = Tls::get();
    t->tls.assign(x.p, x.p + x.n);
    th.push_back(t);
  }

  // a == -1: the simulator's own context
  void change(int a, int b) {
    Tls &x = Tls::get();
    std::vector<char> &sa = a < 0 ? main_tls : th[a]->tls, &sb = b < 0 ? main_tls : th[b]->tls;
    int e = errno;
    if (x.n) { memcpy(&sa[0], x.p, x.n); memcpy(x.p, &sb[0], x.n); }
    vsim_ctx_switch(a < 0 ? &main_sp : &th[a]->sp, b < 0 ? main_sp : th[b]->sp);
    errno = e;
  }

  int next_runnable(int from) const {
    for (size_t k = 1; k <= th.size(); k++) {
      int c = int((from + k) % th.size());
      if (!th[c]->done) return c;
    }
    return -1;
  }

  void switch_to(int to) {
    if (to == cur) return;
    int me = cur;
    cur = to;
    switches++;
    ihash = mix(ihash, u64t(me) * 1315423911u + th[me]->steps * 31 + to);
    change(me, to);
  }

  void thread_end() {
    int n = aborted ? -1 : next_runnable(cur);
    if (n < 0) {
      int me = cur;
      cur = -1;
      change(me, -1);
    } else
      switch_to(n);
  }

  void abort_run(std::string const &why) {
    if (!aborted) { aborted = true; violation = why; }
    int me = cur;
    cur = -1;
    change(me, -1);
    abort();
  }

  bool trace_room() const { return sch.trace.size() < max_trace; }

  // one scheduling point of the current thread
  void point() {
    Thread *t = th[cur];
    t->steps++;
    total_steps++;
    if (on_step) on_step();
    if (aborted) abort_run(violation);
    if (total_steps > step_cap) abort_run("LIVENESS: step budget exhausted");
    int to = -1;
    if (sch.mode == Scheduler::Replay) {
      auto it = sch.script.find(std::make_pair(unsigned(cur), t->steps));
      if (it != sch.script.end()) to = int(it->second);
    } else {
      bool sw = false;
      switch (sch.policy) {
      case Scheduler::Solo: break;
      case Scheduler::Every: sw = true; break;
      case Scheduler::Bern: sw = sch.rng.chance(sch.p); break;
      case Scheduler::Pct: {
        std::vector<unsigned> const &v = sch.pct[cur];
        for (size_t i = 0; i < v.size(); i++) sw = sw || v[i] == t->steps;
        break;
      }
      }
      if (sw && th.size() > 1 && trace_room()) {
        int c = th.size() == 2 ? 1 - cur : int(sch.rng.below(th.size()));
        if (c != cur && !th[c]->done) to = c;
      }
      if (to >= 0) {
        Switch s = {unsigned(cur), t->steps, unsigned(to)};
        sch.trace.push_back(s);
      }
    }
    if (to >= 0 && to < int(th.size()) && to != cur && !th[to]->done)
      switch_to(to);
  }

  static void on_trap(int, siginfo_t *, void *uc) {
    StepSim *s = self();
    if (!s || s->cur < 0 || !s->th[s->cur]->stepping) return;
    Thread *t = s->th[s->cur];
    if (s->total_steps >= s->soft_cap) { // go on without interruptions
      t->stepping = false;
      ((ucontext_t *)uc)->uc_mcontext.gregs[REG_EFL] &= ~0x100ll;
      return;
    }
    t->stepping = false; // the simulator itself is not simulated
    s->point();
    t->stepping = true;
  }

  // SIGSEGV / SIGBUS / SIGILL / SIGFPE inside library code is a finding
  static void on_fault(int sig, siginfo_t *si, void *uc) {
    StepSim *s = self();
    if (s && s->cur >= 0 && (s->catch_faults || s->th[s->cur]->stepping)) {
      s->th[s->cur]->stepping = false;
      s->abort_run(fmt("FAULT: signal %d (%s) in library code", sig,
                       sig == SIGSEGV ? "invalid memory access"
                                      : strsignal(sig)));
    }
    signal(sig, SIG_DFL);
    raise(sig);
  }

  static void install() {
    static bool done = false;
    if (done) return;
    done = true;
    struct sigaction sa;
    memset(&sa, 0, sizeof sa);
    sa.sa_sigaction = on_trap;
    sa.sa_flags = SA_SIGINFO | SA_NODEFER;
    sigemptyset(&sa.sa_mask);
    sigaction(SIGTRAP, &sa, 0);
    sa.sa_sigaction = on_fault;
    sigaction(SIGSEGV, &sa, 0);
    sigaction(SIGBUS, &sa, 0);
    sigaction(SIGILL, &sa, 0);
    sigaction(SIGFPE, &sa, 0);
  }

  // runs all threads to completion; returns false if aborted
  bool run() {
    install();
    self() = this;
    cur = 0;
    if (th.empty()) return true;
    main_tls.resize(Tls::get().n);
    change(-1, 0);
    self() = 0;
    for (size_t i = 0; i < th.size(); i++) delete th[i];
    th.clear();
    return !aborted;
  }
};

// bracket library code: between these two every instruction is a step
static inline __attribute__((always_inline)) void step_on() {
  StepSim::self()->th[StepSim::self()->cur]->stepping = true;
  asm volatile("leaq -128(%%rsp),%%rsp\n\tpushfq\n\torq $0x100,(%%rsp)\n\tpopfq\n\tleaq 128(%%rsp),%%rsp" ::: "memory", "cc");
}
static inline __attribute__((always_inline)) void step_off() {
  asm volatile("leaq -128(%%rsp),%%rsp\n\tpushfq\n\tandq $~0x100,(%%rsp)\n\tpopfq\n\tleaq 128(%%rsp),%%rsp" ::: "memory", "cc");
  StepSim::self()->th[StepSim::self()->cur]->stepping = false;
}

} // namespace sim
#endif
