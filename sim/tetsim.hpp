// Between the generated array-expression programs (compiled with the code under
// test) and the engine (compiled without it).
#ifndef VSIM_TETSIM_HPP
#define VSIM_TETSIM_HPP
#include <cstddef>
#include <cstring>
struct TetArg {
  long n, m;       // elements of the arrays and of the sliced input
  long s, e, t, p; // the slice: first and last index (maybe from the end), end - t, non-negative first
  int block;
  void *stream;
  void *a[5];      // out out1 in0 in1 in2
};
struct TetRef { // one element of the reference
  long i, i2;
  void *out, *out1;
  const void *in0, *in1, *in2;
  bool out_w, out1_w;
};
struct TetCase {
  const char *name, *text, *type;
  int width, unroll;
  bool sliced, plain, owner; // plain: default block size and stream; owner: elements no mask selects may change meanwhile
  void (*go)(TetArg const &);
  void (*ref)(TetRef &);
};
float vsim_h2f(unsigned short);
unsigned short vsim_f2h(float);
// streams of the device, or null ones
void tet_streams(void **out, int n);
void tet_wait(void *stream);
#endif
