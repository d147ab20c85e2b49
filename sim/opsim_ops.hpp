// Operator tables of opsim: what lib/opgen.py emits and the core consumes.
#ifndef VSIM_OPSIM_OPS_HPP
#define VSIM_OPSIM_OPS_HPP
#include <string.h>
struct In {
  __attribute__((aligned(64))) unsigned char v[4][128]; // vector / scalar operands
  __attribute__((aligned(64))) unsigned char l[3][128]; // 0/1 typed lanes
  int p[2];
};
struct Op {
  const char *name;
  void (*f)(In const *, unsigned char *);
  char kind;   // f i u : how operands are generated
  int bytes;   // element size
  int special; // 1 division, 2 shift, 3 loop tail, 4 boolean parameter
};
#define W __attribute__((noipa, noinline))
template <typename T> static inline T ld(unsigned char const *p) { T r; memcpy(&r, p, sizeof r); return r; }
template <typename T> static inline void st(unsigned char *p, T v) { memcpy(p, &v, sizeof v); }
template <typename T> static inline T const *lane(In const *in, int i) { return (T const *)in->l[i]; }
#endif
