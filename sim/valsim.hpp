// Between the generated kernels and expressions (compiled with the code under
// test) and the engine (compiled without it).
#ifndef VSIM_VALSIM_HPP
#define VSIM_VALSIM_HPP
#include <cstddef>
#include <cstring>
struct ValCase {
  const char *text, *type, *out, *post;
  void (*go)(long n, int block, void **arrays, int shift); // arrays: out a b c d
};
// third parameter of the launch macros: unroll on CPUs, block size on GPUs
#if defined(CUDA) || defined(ROCM) || defined(ONEAPI)
#define VTPB(u) tpb
#else
#define VTPB(u) u
#endif
#endif
