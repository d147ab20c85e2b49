#ifndef VSIM_HIP_RUNTIME_H
#define VSIM_HIP_RUNTIME_H
#include "../../cuda/cuda_sim.h"
#undef __CUDACC_VER_MAJOR__
#define hipThreadIdx_x threadIdx.x
#define hipBlockIdx_x blockIdx.x
#define hipBlockDim_x blockDim.x
#define hipGridDim_x gridDim.x
typedef cudaError_t hipError_t;
typedef cudaStream_t hipStream_t;
#define hipSuccess cudaSuccess
#define hipMemcpyKind cudaMemcpyKind
#define hipMemcpyHostToDevice cudaMemcpyHostToDevice
#define hipMemcpyDeviceToHost cudaMemcpyDeviceToHost
#define hipMemcpyDeviceToDevice cudaMemcpyDeviceToDevice
#define hipMemcpyDefault cudaMemcpyDefault
inline hipError_t hipMalloc(void **p, size_t n) { return cudaMalloc(p, n); }
inline hipError_t hipFree(void *p) { return cudaFree(p); }
inline hipError_t hipMemset(void *p, int c, size_t n) { return cudaMemset(p, c, n); }
inline hipError_t hipMemcpy(void *d, const void *s, size_t n, cudaMemcpyKind k) { return cudaMemcpy(d, s, n, k); }
inline hipError_t hipMemcpyAsync(void *d, const void *s, size_t n, cudaMemcpyKind k, hipStream_t st = 0) { return cudaMemcpyAsync(d, s, n, k, st); }
inline hipError_t hipDeviceSynchronize() { return cudaDeviceSynchronize(); }
inline hipError_t hipStreamSynchronize(hipStream_t s) { return cudaStreamSynchronize(s); }
inline hipError_t hipStreamCreate(hipStream_t *s) { return cudaStreamCreate(s); }
inline const char *hipGetErrorString(hipError_t e) { return cudaGetErrorString(e); }
inline hipError_t hipGetLastError() { return cudaGetLastError(); }
#define VSIM_UNPAREN_(...) __VA_ARGS__
#define hipLaunchKernelGGL(kernel, grid, block, shmem, stream, ...)                     \
  vsim_launch(vsim_cfg(grid, block, shmem, stream), [](auto... vsim_a_) { (kernel)(vsim_a_...); })(__VA_ARGS__)
#endif
