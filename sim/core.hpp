// Deterministic simulation core: PRNG, hashing, JSON-ish output helpers.
#ifndef VSIM_CORE_HPP
#define VSIM_CORE_HPP
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <set>
#include <string>
#include <vector>

namespace sim {

typedef uint64_t u64t;

// splitmix64 / xoshiro256**: every decision of a run comes from one instance
struct Rng {
  u64t s[4];
  explicit Rng(u64t seed = 1) { reseed(seed); }
  void reseed(u64t x) {
    for (int i = 0; i < 4; i++) {
      x += 0x9e3779b97f4a7c15ull;
      u64t z = x;
      z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
      z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
      s[i] = z ^ (z >> 31);
    }
  }
  static u64t rotl(u64t x, int k) { return (x << k) | (x >> (64 - k)); }
  u64t next() {
    u64t r = rotl(s[1] * 5, 7) * 9, t = s[1] << 17;
    s[2] ^= s[0];
    s[3] ^= s[1];
    s[1] ^= s[2];
    s[0] ^= s[3];
    s[2] ^= t;
    s[3] = rotl(s[3], 45);
    return r;
  }
  // uniform in [0, n)
  u64t below(u64t n) { return n ? next() % n : 0; }
  int range(int a, int b) { return a + int(below(u64t(b - a + 1))); }
  double unit() { return double(next() >> 11) * (1.0 / 9007199254740992.0); }
  bool chance(double p) { return unit() < p; }
  template <typename T> T const &pick(std::vector<T> const &v) {
    return v[below(v.size())];
  }
};

inline u64t mix(u64t h, u64t v) {
  h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
  h *= 0xff51afd7ed558ccdull;
  return h ^ (h >> 32);
}
inline u64t hash_bytes(u64t h, const void *p, size_t n) {
  const unsigned char *c = (const unsigned char *)p;
  for (size_t i = 0; i < n; i++) h = (h ^ c[i]) * 0x100000001b3ull;
  return h;
}
inline u64t hash_str(const char *s) { return hash_bytes(0xcbf29ce484222325ull, s, strlen(s)); }

inline std::string jstr(std::string const &s) {
  std::string r = "\"";
  for (size_t i = 0; i < s.size(); i++) {
    char c = s[i];
    if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if (c == '\n') r += "\\n";
    else if ((unsigned char)c < 32 || (unsigned char)c >= 127) {
      char b[8]; snprintf(b, sizeof b, "\\u%04x", (unsigned char)c); r += b;
    } else r += c;
  }
  return r + "\"";
}

template <typename... A> std::string fmt(const char *f, A... a) {
  char b[2048];
  snprintf(b, sizeof b, f, a...);
  return b;
}
inline std::string fmt(const char *f) { return f; }

// bounded sample set + distinct counters
struct Stats {
  std::map<std::string, u64t> n;
  std::map<std::string, std::set<u64t> > d;
  void add(std::string const &k, u64t v = 1) { n[k] += v; }
  void distinct(std::string const &k, u64t h) { d[k].insert(h); }
  std::string json() const {
    std::string r = "{";
    bool first = true;
    for (auto &kv : n) {
      r += (first ? "" : ",") + jstr(kv.first) + ":" + std::to_string(kv.second);
      first = false;
    }
    for (auto &kv : d) {
      r += (first ? "" : ",") + jstr("distinct:" + kv.first) + ":" + std::to_string(kv.second.size());
      first = false;
    }
    return r + "}";
  }
};

} // namespace sim
#endif
