// Between the generated SPMD programs (compiled with the code under test) and
// the engine (compiled without it).
#ifndef VSIM_SPMDSIM_HPP
#define VSIM_SPMDSIM_HPP
#include <cstddef>
#include <cstring>
struct SpmdArg { // one item of the reference
  long i;
  void *out0, *out1, *out2, *cnt;
  const void *in0, *in1;
  unsigned long ticks;
  bool out0_w, out1_w, out2_w, cnt_w; // stored to
};
struct SpmdCase {
  const char *name, *type;
  int width, unroll;
  void (*launch)(long n, int block, void **arrays, bool flag);
  void (*ref)(SpmdArg &, bool flag);
};
void vsim_tick(); // one condition of the program was evaluated
float vsim_h2f(unsigned short);
unsigned short vsim_f2h(float);
#endif
