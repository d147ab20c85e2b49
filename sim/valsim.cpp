// C11: the values of kernels and array expressions.  Histories of launches of
// generated kernels on the emulated CPU, the SIMD levels and simulated devices;
// every item is compared with the engine's own arithmetic.
#include "driver.hpp"
#include "gpu/gpusim.hpp"
#include "gpu/half.hpp"
#include "valsim.hpp"
#include <cmath>

using namespace sim;
extern const ValCase *const val_all[];
extern const int val_is_gpu;

enum Op { LEAF, LIT, SEL, NEG, ABS, NOTB, CEIL, FLOOR, TRUNC, RTE, SQRT, REC, ADD, SUB, MUL, DIV, MIN, MAX, ADDS, SUBS, ORB, ANDB, ANDNOTB, XORB,
          FMA, FNMA, FMS, FNMS, EQ, NE, GT, GE, LT, LE, ORL, ANDL, ANDNOTL, XORL, NOTL, TO_MASK, TO_LOGICAL, SHL, SHR, SHRA, REINT, CVT };
static const struct { const char *n; Op o; } NAMES[] = {
  {"sel", SEL}, {"neg", NEG}, {"abs", ABS}, {"notb", NOTB}, {"ceil", CEIL}, {"floor", FLOOR}, {"trunc", TRUNC}, {"round_to_even", RTE}, {"sqrt", SQRT}, {"rec", REC},
  {"add", ADD}, {"sub", SUB}, {"mul", MUL}, {"div", DIV}, {"min", MIN}, {"max", MAX}, {"adds", ADDS}, {"subs", SUBS}, {"orb", ORB}, {"andb", ANDB}, {"andnotb", ANDNOTB}, {"xorb", XORB},
  {"fma", FMA}, {"fnma", FNMA}, {"fms", FMS}, {"fnms", FNMS}, {"eq", EQ}, {"ne", NE}, {"gt", GT}, {"ge", GE}, {"lt", LT}, {"le", LE},
  {"orl", ORL}, {"andl", ANDL}, {"andnotl", ANDNOTL}, {"xorl", XORL}, {"notl", NOTL}, {"to_mask", TO_MASK}, {"to_logical", TO_LOGICAL},
  {"shl", SHL}, {"shr", SHR}, {"shra", SHRA}, {"reinterpret", REINT}, {"cvt", CVT}, {"lit", LIT}};

struct Type {
  char k; int w;
  explicit Type(const char *s = "i8") : k(s[0]), w(atoi(s + 1)) {}
};
static u64t mask_of(int w) { return w == 64 ? ~u64t(0) : (u64t(1) << w) - 1; }
typedef __int128 Big;
static Big ival(Type t, u64t b) { return t.k == 'i' ? Big((long long)(b << (64 - t.w)) >> (64 - t.w)) : Big(b); }
static double fval(Type t, u64t b) {
  if (t.w == 16) return gpusim::h2f((unsigned short)b);
  if (t.w == 32) { float f; unsigned u = unsigned(b); memcpy(&f, &u, 4); return f; }
  double d; memcpy(&d, &b, 8); return d;
}
static u64t fbits(Type t, double d) { // correctly rounded from double
  if (t.w == 16) return gpusim::d2h(d);
  if (t.w == 32) { float f = float(d); unsigned u; memcpy(&u, &f, 4); return u; }
  u64t b; memcpy(&b, &d, 8); return b;
}

struct Val { u64t b; bool known, vague; }; // vague: a NaN of unspecified bits
struct Tok { Op op; Type t; int arg; };

static bool is_nan(Type t, u64t b) { return t.k == 'f' && std::isnan(fval(t, b)); }

// exact: an inexact result of a half operation is not rounded alike by all
// levels when it is used further, so it only counts as a final result
static Val arith(Tok const &k, Type in, Val const *a, int n, int shift, bool final) {
  Val r; r.b = 0; r.known = true; r.vague = false;
  for (int i = 0; i < n; i++) if (!a[i].known) { r.known = false; return r; }
  Type t = k.t;
  bool f = in.k == 'f';
  u64t M = mask_of(in.w);
  switch (k.op) {
  case ORB: case ANDB: case ANDNOTB: case XORB: case NOTB:
    for (int i = 0; i < n; i++) if (a[i].vague) r.known = false;
    r.b = k.op == ORB ? a[0].b | a[1].b : k.op == ANDB ? a[0].b & a[1].b : k.op == ANDNOTB ? a[0].b & ~a[1].b & M : k.op == XORB ? a[0].b ^ a[1].b : ~a[0].b & M;
    return r;
  case ORL: r.b = a[0].b || a[1].b; return r;
  case ANDL: r.b = a[0].b && a[1].b; return r;
  case ANDNOTL: r.b = a[0].b && !a[1].b; return r;
  case XORL: r.b = a[0].b != a[1].b; return r;
  case NOTL: r.b = !a[0].b; return r;
  case TO_MASK: r.b = a[0].b ? M : 0; if (f && a[0].b) r.vague = false; return r;
  case TO_LOGICAL: r.b = a[0].b != 0; return r;
  case SHL: r.b = (a[0].b << shift) & M; return r;
  case SHR: r.b = a[0].b >> shift; return r;
  case SHRA: r.b = u64t((long long)(ival(in, a[0].b) >> shift)) & M; return r;
  case REINT: r.b = a[0].b; if (a[0].vague) r.known = false; if (t.k == 'f' && in.k == 'f') r.vague = a[0].vague; return r;
  default: break;
  }
  if (k.op == CVT) {
    if (!f && t.k != 'f') { r.b = a[0].b; return r; }
    if (!f) {
      if (t.w == 64) { double d = in.k == 'i' ? double((long long)ival(in, a[0].b)) : double(a[0].b); r.b = fbits(t, d); }
      else if (t.w == 32) { float d = in.k == 'i' ? float((long long)ival(in, a[0].b)) : float(a[0].b); unsigned u; memcpy(&u, &d, 4); r.b = u; }
      else r.b = fbits(t, double((long long)ival(in, a[0].b)));
      if (t.w == 16 && !final && (Big)fval(t, r.b) != ival(in, a[0].b)) r.known = false;
      return r;
    }
    double d = fval(in, a[0].b);
    double lo = t.k == 'i' ? -std::ldexp(1.0, t.w - 1) : 0, hi = std::ldexp(1.0, t.k == 'i' ? t.w - 1 : t.w);
    if (t.k == 'f') { r.b = a[0].b; r.vague = a[0].vague; return r; }
    if (!(std::trunc(d) >= lo && std::trunc(d) < hi) || (t.k == 'u' && d < 0)) { r.known = false; return r; }
    r.b = (t.k == 'i' ? u64t((long long)d) : u64t(d)) & mask_of(t.w);
    return r;
  }
  if (!f) {
    Big x = ival(in, a[0].b), y = n > 1 ? ival(in, a[1].b) : 0, z = n > 2 ? ival(in, a[2].b) : 0, v = 0;
    Big mx = in.k == 'i' ? Big(M >> 1) : Big(M), mn = in.k == 'i' ? -mx - 1 : Big(0);
    switch (k.op) {
    case NEG: v = -x; break;
    case ABS: if (in.k == 'i' && x == mn) r.known = false; v = x < 0 ? -x : x; break;
    case CEIL: case FLOOR: case TRUNC: case RTE: v = x; break;
    case ADD: v = x + y; break;
    case SUB: v = x - y; break;
    case MUL: v = Big(u64t(x) * u64t(y)); break;
    case DIV: if (y == 0 || (x == mn && y == -1)) r.known = false; else v = x / y; break;
    case MIN: v = x < y ? x : y; break;
    case MAX: v = x > y ? x : y; break;
    case ADDS: v = x + y; v = v > mx ? mx : v < mn ? mn : v; break;
    case SUBS: v = x - y; v = v > mx ? mx : v < mn ? mn : v; break;
    case FMA: v = Big(u64t(x) * u64t(y) + u64t(z)); break;
    case FNMA: v = Big(u64t(z) - u64t(x) * u64t(y)); break;
    case FMS: v = Big(u64t(x) * u64t(y) - u64t(z)); break;
    case FNMS: v = Big(u64t(0) - u64t(x) * u64t(y) - u64t(z)); break;
    case EQ: v = x == y; break; case NE: v = x != y; break;
    case GT: v = x > y; break; case GE: v = x >= y; break;
    case LT: v = x < y; break; case LE: v = x <= y; break;
    default: r.known = false;
    }
    r.b = u64t(v) & M;
    return r;
  }
  double x = fval(in, a[0].b), y = n > 1 ? fval(in, a[1].b) : 0, z = n > 2 ? fval(in, a[2].b) : 0, v = 0;
  bool inexact = false;
  switch (k.op) {
  case EQ: r.b = x == y; return r; case NE: r.b = !(x == y); return r;
  case GT: r.b = x > y; return r; case GE: r.b = x >= y; return r;
  case LT: r.b = x < y; return r; case LE: r.b = x <= y; return r;
  case NEG: case ABS:
    r.b = k.op == NEG ? a[0].b ^ (u64t(1) << (in.w - 1)) : a[0].b & ~(u64t(1) << (in.w - 1));
    r.vague = std::isnan(x);
    return r;
  case MIN: case MAX:
    if (std::isnan(x) || std::isnan(y) || (x == 0 && y == 0 && a[0].b != a[1].b)) { r.known = false; return r; }
    r.b = (k.op == MIN ? x < y : x > y) ? a[0].b : a[1].b;
    return r;
  case CEIL: v = std::ceil(x); break;
  case FLOOR: v = std::floor(x); break;
  case TRUNC: v = std::trunc(x); break;
  case RTE: v = std::nearbyint(x); break;
  // in double these are exact, or innocuous to round twice, for f16 and f32
  case ADD: case ADDS: v = in.w == 32 ? double(float(x) + float(y)) : x + y; break;
  case SUB: case SUBS: v = in.w == 32 ? double(float(x) - float(y)) : x - y; break;
  case MUL: v = in.w == 32 ? double(float(x) * float(y)) : x * y; break;
  case DIV: v = in.w == 32 ? double(float(x) / float(y)) : x / y; inexact = true; break;
  case SQRT: v = in.w == 32 ? double(std::sqrt(float(x))) : std::sqrt(x); inexact = true; break;
  case REC: v = in.w == 32 ? double(1.0f / float(x)) : 1.0 / x; inexact = true; break;
  case FMA: case FNMA: case FMS: case FNMS: {
    // only where one rounding and two give the same: the product is exact
    double p = x * y;
    if (std::isfinite(p) ? std::fma(x, y, -p) != 0 || fval(in, fbits(in, p)) != p || (p != 0 && std::fabs(p) < 1e-290) || (p == 0 && x != 0 && y != 0)
                         : std::isfinite(x) && std::isfinite(y)) { r.known = false; return r; }
    if (k.op == FNMA || k.op == FNMS) p = -p;
    if (k.op == FMS || k.op == FNMS) z = -z;
    // a zero result of opposite signs is a matter of how the sign is applied
    v = p + z;
    if (v == 0 && (p != 0 || z != 0 || std::signbit(p) != std::signbit(z)) && !(p != 0)) r.known = k.op == FMA || p != 0 || z != 0 ? r.known : false;
    if (in.w == 32) v = double(float(p) + float(z));
    break;
  }
  default: r.known = false; return r;
  }
  r.b = fbits(in, v);
  r.vague = std::isnan(v);
  if (in.w == 16 && !final && !std::isnan(v)) {
    if (fval(in, r.b) != v) r.known = false;
    if (inexact) { // could still be inexact in double
      bool ex = k.op == DIV ? std::fma(v, y, -x) == 0 : k.op == SQRT ? std::fma(v, v, -x) == 0 : std::fma(v, x, -1.0) == 0;
      if (std::isfinite(v) && !ex) r.known = false;
    }
  }
  return r;
}

struct ValEngine : Engine {
  std::vector<const ValCase *> cases;
  std::vector<std::vector<Tok> > prog;
  bool isolated() { return true; }
  double cpu_limit() { return 20; }
  long ncases() {
    if (cases.empty())
      for (int k = 0; val_all[k]; k++)
        for (const ValCase *p = val_all[k]; p->text; p++) {
          cases.push_back(p);
          std::vector<Tok> v;
          std::string s = p->post;
          for (size_t at = 0; at < s.size();) {
            size_t sp = s.find(' ', at), co = s.find(':', at);
            std::string n = s.substr(at, co - at), a = s.substr(co + 1, sp - co - 1);
            Tok t; t.op = LEAF; t.arg = 0;
            if (n.size() == 1) t.arg = n[0] - 'a';
            else for (auto &x : NAMES) if (n == x.n) t.op = x.o;
            if (t.op == LIT) { size_t c2 = a.find('/'); t.arg = atoi(a.c_str()); t.t = Type(a.substr(c2 + 1).c_str()); }
            else t.t = Type(a.c_str());
            v.push_back(t);
            at = sp + 1;
          }
          prog.push_back(v);
        }
    return long(cases.size());
  }
  std::string case_name(long c) { ncases(); return fmt("%s %s", cases[size_t(c)]->type, cases[size_t(c)]->text); }

  static int arity(Op o) {
    if (o == LEAF || o == LIT) return 0;
    if (o >= FMA && o <= FNMS) return 3;
    if ((o >= ADD && o <= XORB) || (o >= EQ && o <= XORL)) return 2;
    return 1;
  }
  static Val eval(std::vector<Tok> const &p, u64t const *leaf, int shift) {
    std::vector<Val> st; std::vector<Type> ty;
    for (size_t i = 0; i < p.size(); i++) {
      Tok const &k = p[i];
      bool final = i + 1 == p.size();
      Val v; v.b = 0; v.known = true; v.vague = false;
      Type t = k.t;
      if (k.op == LEAF) { v.b = leaf[k.arg]; }
      else if (k.op == LIT) v.b = t.k == 'f' ? fbits(t, k.arg) : u64t(k.arg) & mask_of(t.w);
      else if (k.op == SEL) { Val c = st.back(); st.pop_back(); ty.pop_back(); v = c; v.b = c.b ? leaf[0] : leaf[1]; }
      else {
        int n = arity(k.op);
        Val a[3]; Type in = ty[ty.size() - size_t(n)];
        for (int j = n - 1; j >= 0; j--) { a[j] = st.back(); st.pop_back(); ty.pop_back(); }
        // bits of a half that is a NaN are not kept where halves are emulated
        bool bits = k.op == REINT || k.op == NOTB || (k.op >= ORB && k.op <= XORB);
        if (bits && in.k == 'f' && in.w == 16) for (int j = 0; j < n; j++) if (is_nan(in, a[j].b)) a[j].vague = true;
        v = arith(k, in, a, n, shift, final);
        // the library's own words: halves are emulated, bits in between differ
        if (bits && k.op != REINT && in.k == 'f' && in.w == 16) v.known = false;
      }
      st.push_back(v); ty.push_back(t);
    }
    return st.back();
  }

  static u64t value(Rng &r, Type t, bool divisor) {
    u64t M = mask_of(t.w);
    if (t.k == 'f') {
      double e = r.unit();
      if (e < .35) return fbits(t, r.range(-9, 9));
      if (e < .5) return fbits(t, r.range(-40, 40) / 4.0);
      if (e < .6) { static const double s[] = {0.0, -0.0, INFINITY, -INFINITY, NAN, .5, -.5, 1.5, -1.5, 2.5, -2.5, 65504, 1e30, 3.0e-5, -6e-8, 1e-310}; return fbits(t, s[r.below(16)]); }
      if (e < .7) return fbits(t, std::ldexp(double(r.range(-4096, 4096)), r.range(-20, 60)));
      if (e < .8) return fbits(t, double(r.range(-70000, 70000)) / 2);
      return r.next() & M;
    }
    double e = r.unit();
    u64t v;
    if (e < .3) v = u64t((long long)r.range(-9, 9));
    else if (e < .5) { static const long long d[] = {-2, -1, 0, 1, 2}; u64t b[] = {0, M, M >> 1, (M >> 1) + 1, u64t(1) << r.below(u64t(t.w))}; v = b[r.below(5)] + u64t(d[r.below(5)]); }
    else if (e < .6) v = r.next() >> r.below(64);
    else v = r.next();
    v &= M;
    if (divisor) { if (t.k == 'i') v &= M >> 1; if (v == 0) v = 1 + r.below(9); }
    return v;
  }
  static std::string show(Type t, u64t b) {
    if (t.k == 'f') return fmt("%.17g(0x%llx)", fval(t, b), (unsigned long long)b);
    return t.k == 'i' ? fmt("%lld", (long long)ival(t, b)) : fmt("%llu", (unsigned long long)b);
  }

  Outcome run(u64t seed, long c, Plan const &P) {
    Outcome o;
    Rng r(seed);
    ncases();
    ValCase const &k = *cases[size_t(c)];
    std::vector<Tok> const &p = prog[size_t(c)];
    Type t(k.type), ot(k.out);
    long sz = t.w / 8, lanes = 64 / sz;
    gpusim::Runtime &G = gpusim::Runtime::get();
    G.reset(r.next());
    G.open = true;
    G.lazy = r.pick(std::vector<double>{0, .3, .7, 1});
    struct Item { u64t leaf[4]; };
    struct Launch { long n, rot; int block, order; bool wait; };
    long total = r.chance(.3) ? r.range(1, 9) : r.chance(.6) ? std::max(1L, r.range(1, 6) * lanes + r.range(-2, 2)) : r.range(1, 300);
    int shift = int(r.below(u64t(t.w)));
    std::vector<Item> items(static_cast<size_t>(total));
    for (auto &x : items) for (int j = 0; j < 4; j++) x.leaf[j] = value(r, t, j == 3);
    std::vector<Launch> L;
    int nl = r.range(1, 3);
    for (int j = 0; j < nl; j++) {
      Launch l;
      l.n = j ? r.range(1, int(total)) : total;
      l.rot = j ? long(r.below(u64t(total))) : 0;
      l.block = r.pick(std::vector<int>{1, 2, 3, 7, 32, 64, 128, 256, 1000, 1024});
      l.order = r.range(-1, 3);
      l.wait = r.chance(.4);
      L.push_back(l);
    }
    o.nops = unsigned(nl);
    o.text = fmt("%s %s shift=%d:", k.type, k.text, shift);
    struct Arr { char *out, *in[4]; };
    std::vector<Arr> A(static_cast<size_t>(nl));
    for (int j = 0; j < nl; j++) {
      Launch &l = L[size_t(j)];
      if (P.dropped(unsigned(j))) continue;
      o.text += fmt(" launch[%ld@%ld]/b%d", l.n, l.rot, l.block);
      A[size_t(j)].out = (char *)G.alloc(size_t(l.n * sz));
      for (int q = 0; q < 4; q++) {
        A[size_t(j)].in[q] = (char *)G.alloc(size_t(l.n * sz));
        for (long i = 0; i < l.n; i++) memcpy(A[size_t(j)].in[q] + i * sz, &items[size_t((i + l.rot) % total)].leaf[q], size_t(sz));
      }
    }
    G.set_open(!val_is_gpu);
    for (int j = 0; j < nl; j++) {
      if (P.dropped(unsigned(j))) continue;
      Launch &l = L[size_t(j)];
      Arr &a = A[size_t(j)];
      G.order = l.order;
      void *arr[] = {a.out, a.in[0], a.in[1], a.in[2], a.in[3]};
      k.go(l.n, l.block, arr, shift);
      if (l.wait) G.wait_all();
      o.n["launches"]++;
    }
    G.wait_all();
    G.set_open(true);
    G.check_zones();
    std::string bad = G.error;
    std::vector<Val> ref;
    for (auto &x : items) ref.push_back(eval(p, x.leaf, shift));
    u64t h = mix(seed, G.hash);
    for (int j = 0; j < nl; j++) {
      if (P.dropped(unsigned(j))) continue;
      Launch &l = L[size_t(j)];
      for (long i = 0; i < l.n; i++) {
        size_t it = size_t((i + l.rot) % total);
        u64t got = 0;
        memcpy(&got, A[size_t(j)].out + i * sz, size_t(sz));
        o.n["items"]++;
        if (!ref[it].known) { o.n["items_without_specified_value"]++; continue; }
        h = mix(h, ref[it].b);
        if (got == ref[it].b || (is_nan(ot, got) && is_nan(ot, ref[it].b))) continue;
        if (bad.empty()) {
          std::string s;
          bool used[4] = {false, false, false, false};
          for (auto &q : p) { if (q.op == LEAF) used[q.arg] = true; if (q.op == SEL) used[0] = used[1] = true; }
          for (int q = 0; q < 4; q++) if (used[q]) s += fmt(" %c=%s", 'a' + q, show(t, items[it].leaf[q]).c_str());
          bad = fmt("VALUE: item %ld of %ld is %s instead of %s for%s", i, l.n, show(ot, got).c_str(), show(ot, ref[it].b).c_str(), s.c_str());
        }
      }
    }
    o.inter = mix(G.hash, hash_str(k.text));
    o.hash = mix(h, seed);
    o.steps = G.threads + u64t(total);
    o.nontrivial = nl > 1 || G.launches > 0;
    o.n["device_threads"] = G.threads; o.n["device_launches"] = G.launches; o.n["device_overlaps"] = G.overlaps;
    if (!bad.empty()) { o.bad = true; o.why = bad; o.hash = mix(o.hash, hash_str(bad.c_str())); }
    return o;
  }
};

int main(int argc, char **argv) {
  ValEngine E;
  return drive(E, argc, argv, "valsim");
}
