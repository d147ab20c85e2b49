// Common frame of the simulators: seeded runs, same-seed repetition, replay of a
// recorded decision list, and minimisation of schedules, faults and operations.
#ifndef VSIM_DRIVER_HPP
#define VSIM_DRIVER_HPP
#include "core.hpp"
#include <algorithm>
#include <csignal>
#include <ctime>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

namespace sim {

#ifndef VSIM_STEPSIM_HPP
struct Switch { unsigned t, at, to; };
#endif

struct Plan {                  // what is decided from outside the seed
  bool replay;                 // schedule and faults come from the lists below
  std::vector<Switch> script;  // thread switches
  std::vector<unsigned> drop;  // operations left out
  std::vector<unsigned> faults; // ordinals of the fault points that fire
  Plan() : replay(false) {}
  bool dropped(unsigned k) const { return std::find(drop.begin(), drop.end(), k) != drop.end(); }
  bool fires(unsigned k) const { return std::find(faults.begin(), faults.end(), k) != faults.end(); }
};

struct Outcome {
  bool bad;
  std::string why, text;
  std::vector<Switch> trace;
  std::vector<unsigned> faults; // fired
  unsigned nops;                // operations that can be dropped
  u64t hash, inter, steps;
  bool nontrivial;
  std::map<std::string, u64t> n; // counters
  Outcome() : bad(false), nops(0), hash(0), inter(0), steps(0), nontrivial(false) {}
};

struct Engine {
  virtual ~Engine() {}
  virtual long ncases() = 0;
  virtual std::string case_name(long c) = 0;
  virtual Outcome run(u64t seed, long c, Plan const &p) = 0;
  virtual bool arg(std::string const &, std::string const &) { return false; }
  // true: every run happens in a fresh process image (fork), so that state
  // hidden in the code under test cannot leak from one run into the next and
  // a crash is just a bad outcome
  virtual bool isolated() { return false; }
  virtual double cpu_limit() { return 5; }
  virtual std::string klass(std::string const &why) { return why.substr(0, why.find(':')); }
};

// run in a child process; the outcome comes back through shared memory
struct Isolated {
  static const size_t SIZE = 16u << 20;
  char *m, *p;
  Isolated() : m((char *)mmap(0, SIZE, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0)), p(m) { if (m == MAP_FAILED) { perror("mmap"); exit(3); } }
  void put(const void *v, size_t n) { if (p + n > m + SIZE) _exit(9); memcpy(p, v, n); p += n; }
  void get(void *v, size_t n) { memcpy(v, p, n); p += n; }
  template <typename T> void put(T const &v) { put(&v, sizeof v); }
  template <typename T> T get() { T v; get(&v, sizeof v); return v; }
  void puts(std::string const &s) { put(s.size()); put(s.data(), s.size()); }
  std::string gets() { std::string s(get<size_t>(), 0); get(&s[0], s.size()); return s; }
  static Isolated &box() { static Isolated b; return b; }

  // The zygote: a process forked before any run and before any other state is
  // built.  It forks one child per run, so every run starts from the same
  // memory image whatever ran before and whether it is a search or a replay.
  static int &pipe_in() { static int f = -1; return f; }
  static int &pipe_out() { static int f = -1; return f; }
  static void start(Engine &E) {
    Isolated &b = box();
    int to[2], from[2];
    if (pipe(to) || pipe(from)) { perror("pipe"); exit(3); }
    fflush(0);
    pid_t pid = fork();
    if (pid < 0) { perror("fork"); exit(3); }
    if (pid) { close(to[0]); close(from[1]); pipe_in() = from[0]; pipe_out() = to[1]; return; }
    close(to[1]); close(from[0]);
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    char c;
    for (;;) {
      if (read(to[0], &c, 1) != 1) _exit(0);
      pid_t k = fork();
      if (k == 0) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        close(to[0]); close(from[1]);
        b.child(E);
      }
      int st = 0;
      if (k < 0) st = 1 << 8; else while (waitpid(k, &st, 0) < 0) {}
      if (write(from[1], &st, sizeof st) != (ssize_t)sizeof st) _exit(0);
    }
  }
  template <typename T> void putv(std::vector<T> const &v) { put(v.size()); if (!v.empty()) put(v.data(), v.size() * sizeof(T)); }
  template <typename T> void getv(std::vector<T> &v) { v.resize(get<size_t>()); if (!v.empty()) get(v.data(), v.size() * sizeof(T)); }
  void child(Engine &E) {
    p = m + 8;
    u64t seed = get<u64t>(); long c = get<long>();
    Plan P; P.replay = get<bool>(); getv(P.script); getv(P.drop); getv(P.faults);
    double cl = E.cpu_limit();
    struct itimerval it = {{0, 0}, {long(cl), long((cl - long(cl)) * 1e6)}};
    setitimer(ITIMER_PROF, &it, 0);
    it.it_value.tv_sec = 2 * long(cl) + 8; // a deadlock uses no processor time
    setitimer(ITIMER_REAL, &it, 0);
    Outcome o = E.run(seed, c, P);
    p = m + 8;
    put(o.bad); puts(o.why); puts(o.text); putv(o.trace); putv(o.faults);
    put(o.nops); put(o.hash); put(o.inter); put(o.steps); put(o.nontrivial);
    put(o.n.size());
    for (auto &kv : o.n) { puts(kv.first); put(kv.second); }
    *m = 1;
    _exit(0);
  }
  static Outcome run(Engine &E, u64t seed, long c, Plan const &P) {
    Isolated &b = box();
    *b.m = 0;
    b.p = b.m + 8;
    b.put(seed); b.put(c); b.put(P.replay); b.putv(P.script); b.putv(P.drop); b.putv(P.faults);
    int st = 0;
    if (write(pipe_out(), "r", 1) != 1 || read(pipe_in(), &st, sizeof st) != (ssize_t)sizeof st) { fprintf(stderr, "zygote lost\n"); exit(3); }
    Outcome o;
    if (*b.m != 1) {
      o.bad = true;
      o.text = E.case_name(c);
      o.why = WIFSIGNALED(st) && (WTERMSIG(st) == SIGPROF || WTERMSIG(st) == SIGALRM) ? fmt("HANG: the run did not end within %g s of processor time", E.cpu_limit())
              : WIFSIGNALED(st) ? fmt("CRASH: the process died of signal %d (%s)", WTERMSIG(st), strsignal(WTERMSIG(st)))
                                : fmt("CRASH: the process ended with status %d", WEXITSTATUS(st));
      o.hash = mix(seed, hash_str(o.why.c_str()));
      return o;
    }
    b.p = b.m + 8;
    o.bad = b.get<bool>(); o.why = b.gets(); o.text = b.gets();
    b.getv(o.trace); b.getv(o.faults);
    o.nops = b.get<unsigned>(); o.hash = b.get<u64t>(); o.inter = b.get<u64t>(); o.steps = b.get<u64t>(); o.nontrivial = b.get<bool>();
    for (size_t n = b.get<size_t>(); n > 0; n--) { std::string k = b.gets(); o.n[k] = b.get<u64t>(); }
    return o;
  }
};

template <typename T, typename F>
void shrink(std::vector<T> &v, F still_bad) {
  for (size_t chunk = std::max<size_t>(1, v.size() / 2);; chunk /= 2) {
    for (size_t pos = 0; pos < v.size();) {
      std::vector<T> w(v.begin(), v.begin() + pos);
      w.insert(w.end(), v.begin() + std::min(v.size(), pos + chunk), v.end());
      if (still_bad(w)) v = w; else pos += chunk;
    }
    if (chunk <= 1) break;
  }
}

inline int drive(Engine &E, int argc, char **argv, const char *salt) {
  u64t seed = 1, one = 0; long first = 0, runs = 100, rcase = 0; double budget = 1e9;
  bool replay = false, from_seed = false; Plan R;
  std::string extra; // forwarded engine arguments
  auto parse = [](std::string const &s) { std::vector<unsigned> v; size_t p = 0; while (p < s.size()) { v.push_back(unsigned(strtoul(s.c_str() + p, 0, 10))); p = s.find_first_of(",;", p); if (p == std::string::npos) break; p++; } return v; };
  // the engine's own arguments first, then the zygote, then the rest
  static const char *const own[] = {"--replay", "--seed", "--first", "--runs", "--budget", "--run-seed", "--case", "--script", "--from-seed", "--drop", "--faults"};
  if (E.isolated()) {
    // same addresses in every process, where the system allows it
    int per = personality(0xffffffff);
    if (per != -1 && !(per & ADDR_NO_RANDOMIZE) && !getenv("VSIM_REEXEC") && personality(per | ADDR_NO_RANDOMIZE) != -1) {
      setenv("VSIM_REEXEC", "1", 1);
      execv("/proc/self/exe", argv);
    }
    for (int i = 1; i < argc; i++) {
      bool mine = false;
      for (size_t k = 0; k < sizeof own / sizeof own[0]; k++) if (!strcmp(argv[i], own[k])) mine = true;
      if (!mine) { if (i + 1 < argc) E.arg(argv[i], argv[i + 1]); i++; }
      else if (strcmp(argv[i], "--replay")) i++;
    }
    E.ncases();
    Isolated::start(E);
  }
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    if (a == "--replay") { replay = true; continue; }
    std::string v = i + 1 < argc ? argv[i + 1] : "";
    i++;
    if (a == "--seed") seed = strtoull(v.c_str(), 0, 10);
    else if (a == "--first") first = atol(v.c_str());
    else if (a == "--runs") runs = atol(v.c_str());
    else if (a == "--budget") budget = atof(v.c_str());
    else if (a == "--run-seed") one = strtoull(v.c_str(), 0, 10);
    else if (a == "--case") rcase = atol(v.c_str());
    else if (a == "--script") { std::vector<unsigned> w = parse(v); for (size_t k = 0; k + 2 < w.size(); k += 3) { Switch s = {w[k], w[k + 1], w[k + 2]}; R.script.push_back(s); } }
    else if (a == "--from-seed") from_seed = true;
    else if (a == "--drop") R.drop = parse(v);
    else if (a == "--faults") R.faults = parse(v);
    else if (E.arg(a, v)) { extra += (extra.empty() ? "" : ",") + jstr(a) + "," + jstr(v); }
    else { fprintf(stderr, "unknown argument %s\n", a.c_str()); return 3; }
  }
  auto RUN = [&](u64t sd, long c, Plan const &p) { return E.isolated() ? Isolated::run(E, sd, c, p) : E.run(sd, c, p); };
  if (replay) {
    R.replay = !from_seed;
    Outcome o = RUN(one, rcase, R);
    printf("{\"bad\":%s,\"why\":%s,\"hash\":\"%016llx\",\"steps\":%llu,\"text\":%s}\n", o.bad ? "true" : "false", jstr(o.why).c_str(), (unsigned long long)o.hash, (unsigned long long)o.steps, jstr(o.text).c_str());
    return o.bad ? 1 : 0;
  }
  auto now = []() { struct timespec ts; clock_gettime(CLOCK_MONOTONIC, &ts); return ts.tv_sec + ts.tv_nsec * 1e-9; };
  double t0 = now();
  bool trace = getenv("VSIM_TRACE") != 0, nondet = false;
  Stats st; std::vector<std::string> viol, samples; std::set<std::string> seen; std::string nd;
  u64t batch = 0; long nc = E.ncases();
  for (long i = first; i < first + runs; i++) {
    if (now() - t0 > budget) { st.add("stopped_by_time"); break; }
    if (trace) { fprintf(stderr, "R %ld\n", i); fflush(stderr); }
    long c = i % nc;
    u64t rs = mix(mix(seed, hash_str(salt)), u64t(i));
    Plan P;
    Outcome o = RUN(rs, c, P);
    st.add("runs"); st.add("steps", o.steps); st.add("switches", o.trace.size()); st.add("faults", o.faults.size());
    for (auto &kv : o.n) st.add(kv.first, kv.second);
    st.distinct("histories", o.hash);
    if (o.nontrivial) st.distinct("nontrivial", mix(o.inter, u64t(c)));
    st.distinct("cases", u64t(c));
    batch = mix(batch, o.hash);
    if (samples.size() < 3 && i % 37 == 5) samples.push_back("{\"run\":" + std::to_string(i) + ",\"case\":" + jstr(o.text) + ",\"faults\":" + std::to_string(o.faults.size()) + ",\"switches\":" + std::to_string(o.trace.size()) + ",\"hash\":\"" + fmt("%016llx", (unsigned long long)o.hash) + "\"}");
    if (i % 16 == 3 || o.bad) {
      Outcome o2 = RUN(rs, c, P);
      st.add("determinism_pairs");
      if (o2.hash != o.hash || o2.bad != o.bad) { nondet = true; nd = o.text + " / " + o.why + " / " + o2.why; }
    }
    if (!o.bad) continue;
    std::string k = E.klass(o.why), key = E.case_name(c) + "/" + k;
    if (!seen.insert(key).second) continue;
    st.add("failing_keys");
    if (viol.size() >= (getenv("VSIM_MANY") ? 1000u : 3u)) continue;
    if (o.trace.empty() && o.faults.empty() && (k == "CRASH" || k == "HANG") && E.isolated()) {
      viol.push_back("{\"key\":" + jstr(key) + ",\"why\":" + jstr(o.why) + ",\"text\":" + jstr(o.text) + ",\"run\":" + std::to_string(i) + ",\"argv\":[\"--replay\",\"--from-seed\",\"1\",\"--run-seed\",\"" + std::to_string(rs) + "\",\"--case\",\"" + std::to_string(c) + "\"" + (extra.empty() ? "" : "," + extra) + "],\"hash\":\"" + fmt("%016llx", (unsigned long long)o.hash) + "\"}");
      continue;
    }
    Plan Q; Q.replay = true; Q.script = o.trace; Q.faults = o.faults;
    Outcome b = RUN(rs, c, Q);
    if (!b.bad || E.klass(b.why) != k) { nondet = true; nd = "replay: " + o.text + " / " + o.why + " / " + b.why; continue; }
    double tm = now();
    auto bad = [&](Plan const &p) { if (now() - tm > 20) return false; Outcome x = RUN(rs, c, p); if (x.bad && E.klass(x.why) == k) { b = x; return true; } return false; };
    // drop operations: try to keep as few as possible
    { std::vector<unsigned> keep; for (unsigned q = 0; q < o.nops; q++) keep.push_back(q);
      auto drops = [&](std::vector<unsigned> const &kp) { std::vector<unsigned> d; for (unsigned q = 0; q < o.nops; q++) if (std::find(kp.begin(), kp.end(), q) == kp.end()) d.push_back(q); return d; };
      shrink(keep, [&](std::vector<unsigned> const &w) { Plan p = Q; p.drop = drops(w); return bad(p); });
      Q.drop = drops(keep); }
    { std::vector<unsigned> f = Q.faults; shrink(f, [&](std::vector<unsigned> const &w) { Plan p = Q; p.faults = w; return bad(p); }); Q.faults = f; }
    { std::vector<Switch> s = Q.script; shrink(s, [&](std::vector<Switch> const &w) { Plan p = Q; p.script = w; return bad(p); }); Q.script = s; }
    b = RUN(rs, c, Q);
    std::string s, d, f;
    for (auto &x : Q.script) s += fmt("%s%u,%u,%u", s.empty() ? "" : ";", x.t, x.at, x.to);
    for (auto x : Q.drop) d += fmt("%s%u", d.empty() ? "" : ",", x);
    for (auto x : Q.faults) f += fmt("%s%u", f.empty() ? "" : ",", x);
    std::string av = "[\"--replay\",\"--run-seed\",\"" + std::to_string(rs) + "\",\"--case\",\"" + std::to_string(c) + "\"" + (extra.empty() ? "" : "," + extra);
    if (!s.empty()) av += ",\"--script\"," + jstr(s);
    if (!d.empty()) av += ",\"--drop\"," + jstr(d);
    if (!f.empty()) av += ",\"--faults\"," + jstr(f);
    viol.push_back("{\"key\":" + jstr(key) + ",\"why\":" + jstr(b.why) + ",\"text\":" + jstr(b.text) + ",\"run\":" + std::to_string(i) + ",\"argv\":" + av + "],\"hash\":\"" + fmt("%016llx", (unsigned long long)b.hash) + "\",\"switches_before\":" + std::to_string(o.trace.size()) + ",\"switches_after\":" + std::to_string(Q.script.size()) + ",\"ops_before\":" + std::to_string(o.nops) + ",\"ops_after\":" + std::to_string(o.nops - Q.drop.size()) + ",\"faults_after\":" + std::to_string(Q.faults.size()) + "}");
  }
  std::string vs, ss;
  for (auto &v : viol) vs += (vs.empty() ? "" : ",") + v;
  for (auto &v : samples) ss += (ss.empty() ? "" : ",") + v;
  printf("{\"stats\":%s,\"ncases\":%ld,\"batch\":\"%016llx\",\"nondet\":%s,\"nondet_what\":%s,\"wall\":%.3f,\"samples\":[%s],\"violations\":[%s]}\n", st.json().c_str(), nc, (unsigned long long)batch, nondet ? "true" : "false", jstr(nd).c_str(), now() - t0, ss.c_str(), vs.c_str());
  return viol.empty() ? 0 : 1;
}

} // namespace sim
#endif
