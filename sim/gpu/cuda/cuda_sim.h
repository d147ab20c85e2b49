// What nvcc offers without any #include.  Kernel launches are rewritten by
// lib/gpubuild.py from name<<<...>>>(...) to vsim_launch(...).
#ifndef VSIM_CUDA_SIM_H
#define VSIM_CUDA_SIM_H
#include "../gpusim.hpp"
#include "../devmath.hpp"
#include "cuda_fp16.h"
#include <climits>
#define __global__
#define __device__
#define __host__
#define __CUDACC_VER_MAJOR__ 11
using gpusim::dim3; using gpusim::threadIdx; using gpusim::blockIdx; using gpusim::blockDim; using gpusim::gridDim;
enum cudaError_t { cudaSuccess = 0, cudaErrorInvalidValue = 1, cudaErrorMemoryAllocation = 2, cudaErrorInvalidConfiguration = 9, cudaErrorUnknown = 999 };
enum cudaMemcpyKind { cudaMemcpyHostToHost, cudaMemcpyHostToDevice, cudaMemcpyDeviceToHost, cudaMemcpyDeviceToDevice, cudaMemcpyDefault };
typedef struct VsimStream { int id; } *cudaStream_t;
inline const char *cudaGetErrorString(cudaError_t) { return "simulated error"; }
namespace gpusim {
inline int stream_id(cudaStream_t s) { return s ? s->id : 0; }
inline int dev_malloc(void **p, size_t n) {
  Quiet qq;
  Runtime &r = Runtime::get();
  if (r.fails("device allocation")) return 2;
  if (n == 0) { *p = 0; return 0; }
  void *m = n > (size_t(1) << 32) ? 0 : r.alloc(n);
  if (!m) return 2;
  *p = m;
  return 0;
}
inline int dev_free(void *p) { Quiet qq; Runtime &r = Runtime::get(); r.wait_all(); r.release(p); return 0; }
inline int dev_memset(void *p, int c, size_t n) {
  Quiet qq;
  Runtime &r = Runtime::get();
  if (r.fails("device memset")) return 1;
  if (n == 0) return 0;
  if (!r.find(p, n)) return 1;
  r.sets++;
  r.submit(0, 0, 0, [=]() { memset(p, c, n); });
  return 0;
}
inline int dev_memcpy(void *d, const void *s, size_t n, int kind, int stream, bool async) {
  Quiet qq;
  Runtime &r = Runtime::get();
  r.copies++;
  if (n == 0) return 0;
  bool dd = r.find(d, n) != 0, sd = r.find(s, n) != 0;
  if ((!dd && r.touches(d, n)) || (!sd && r.touches(s, n))) return 1;
  if (kind != 4 && (dd != (kind == 1 || kind == 3) || sd != (kind == 2 || kind == 3))) return 1;
  std::function<void()> f = [=]() { memcpy(d, s, n); };
  std::shared_ptr<Task> t = r.submit(stream, 0, 0, f);
  if (!async) r.wait(t->id);
  return 0;
}
} // namespace gpusim
inline cudaError_t cudaMalloc(void **p, size_t n) { return cudaError_t(gpusim::dev_malloc(p, n)); }
template <typename T> cudaError_t cudaMalloc(T **p, size_t n) { return cudaMalloc((void **)p, n); }
inline cudaError_t cudaFree(void *p) { return cudaError_t(gpusim::dev_free(p)); }
inline cudaError_t cudaMemset(void *p, int c, size_t n) { return cudaError_t(gpusim::dev_memset(p, c, n)); }
inline cudaError_t cudaMemcpy(void *d, const void *s, size_t n, cudaMemcpyKind k) { return cudaError_t(gpusim::dev_memcpy(d, s, n, k, 0, false)); }
inline cudaError_t cudaMemcpyAsync(void *d, const void *s, size_t n, cudaMemcpyKind k, cudaStream_t st = 0) { return cudaError_t(gpusim::dev_memcpy(d, s, n, k, gpusim::stream_id(st), true)); }
inline cudaError_t cudaDeviceSynchronize() { gpusim::Quiet q; gpusim::Runtime::get().wait_all(); return cudaSuccess; }
inline cudaError_t cudaStreamSynchronize(cudaStream_t s) { gpusim::Quiet q; gpusim::Runtime::get().wait_stream(gpusim::stream_id(s)); return cudaSuccess; }
inline cudaError_t cudaStreamCreate(cudaStream_t *s) { gpusim::Quiet q; *s = new VsimStream(); (*s)->id = gpusim::Runtime::get().streams++; return cudaSuccess; }
inline cudaError_t cudaGetLastError() { int e = gpusim::Runtime::get().last_error; gpusim::Runtime::get().last_error = 0; return cudaError_t(e); }
inline cudaError_t cudaPeekAtLastError() { return cudaError_t(gpusim::Runtime::get().last_error); }
template <typename K, typename... A> void vsim_run(unsigned long grid, unsigned long block, unsigned long, cudaStream_t s, K k, A... a) {
  gpusim::Quiet q;
  gpusim::Runtime::get().launch(grid, block, gpusim::stream_id(s), [=]() { k(a...); });
}
struct vsim_cfg {
  unsigned long g, b, sh; cudaStream_t s;
  vsim_cfg(gpusim::dim3 G, gpusim::dim3 B, unsigned long S = 0, cudaStream_t T = 0) : g(G.x), b(B.x), sh(S), s(T) {}
};
template <typename K> struct vsim_go { vsim_cfg c; K k; template <typename... A> void operator()(A... a) const { vsim_run(c.g, c.b, c.sh, c.s, k, a...); } };
template <typename K> vsim_go<K> vsim_launch(vsim_cfg c, K k) { return vsim_go<K>{c, k}; }
#endif
