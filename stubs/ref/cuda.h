// Stand-in for the CUDA runtime: device memory is memory, a kernel is run by one modelled thread per CUDA thread
#pragma once
#include <stdlib.h>
#include <string.h>
#include <vector>
#include "vf.h"
#define __global__
#define __device__
#define __host__
#define __forceinline__ inline
#define __restrict__
#define __syncthreads vf_barrier
struct dim3 {
  unsigned int x, y, z;
  dim3(unsigned int a = 1, unsigned int b = 1, unsigned int c = 1) : x(a), y(b), z(c) {}
};
typedef int cudaError_t;
typedef int cudaEvent_t;
typedef int cudaStream_t;
enum { cudaSuccess = 0 };
enum cudaMemcpyKind { cudaMemcpyHostToHost, cudaMemcpyHostToDevice, cudaMemcpyDeviceToHost, cudaMemcpyDeviceToDevice };
static dim3 vf_grid, vf_block;
static inline dim3 vf_block_of() { unsigned b = vf_thread() / (vf_block.x * vf_block.y); return dim3(b % vf_grid.x, b / vf_grid.x, 0); }
static inline dim3 vf_thread_of() { unsigned r = vf_thread() % (vf_block.x * vf_block.y); return dim3(r % vf_block.x, r / vf_block.x, 0); }
#define blockIdx (vf_block_of())
#define threadIdx (vf_thread_of())
#define blockDim vf_block
#define gridDim vf_grid
static std::vector<char *> vf_dev;
static std::vector<size_t> vf_dev_size;
static inline bool vf_on_device(const void *p, size_t n)
{
  for (size_t k = 0; k < vf_dev.size(); ++k)
    if (vf_dev[k] == (const char *)p) return n <= vf_dev_size[k];
  return false;
}
template <class T>
static inline cudaError_t cudaMalloc(T **p, size_t n)
{
  *p = (T *)malloc(n);
  vf_dev.push_back((char *)*p);
  vf_dev_size.push_back(n);
  return cudaSuccess;
}
static inline cudaError_t cudaFree(void *p)
{
  for (size_t k = 0; k < vf_dev.size(); ++k)
    if (vf_dev[k] == (char *)p) {
      vf_dev.erase(vf_dev.begin() + k);
      vf_dev_size.erase(vf_dev_size.begin() + k);
      break;
    }
  free(p);
  return cudaSuccess;
}
static inline cudaError_t cudaMemcpy(void *d, const void *s, size_t n, cudaMemcpyKind k)
{
  vf_check(vf_on_device(d, n) == (k == cudaMemcpyHostToDevice || k == cudaMemcpyDeviceToDevice), "a copy goes to the side it names and fits there");
  vf_check(vf_on_device(s, n) == (k == cudaMemcpyDeviceToHost || k == cudaMemcpyDeviceToDevice), "a copy comes from the side it names and fits there");
  memcpy(d, s, n);
  return cudaSuccess;
}
static inline cudaError_t cudaMemset(void *d, int v, size_t n) { memset(d, v, n); return cudaSuccess; }
static inline cudaError_t cudaEventCreate(cudaEvent_t *e) { *e = 0; return cudaSuccess; }
static inline cudaError_t cudaEventDestroy(cudaEvent_t) { return cudaSuccess; }
static inline cudaError_t cudaEventRecord(cudaEvent_t, cudaStream_t = 0) { return cudaSuccess; }
static inline cudaError_t cudaEventSynchronize(cudaEvent_t) { return cudaSuccess; }
static inline cudaError_t cudaEventElapsedTime(float *t, cudaEvent_t, cudaEvent_t) { *t = 0; return cudaSuccess; }
static inline cudaError_t cudaDeviceSynchronize() { return cudaSuccess; }
static inline cudaError_t cudaGetLastError() { return cudaSuccess; }
static inline cudaError_t cudaPeekAtLastError() { return cudaSuccess; }
static inline const char *cudaGetErrorString(cudaError_t) { return "no error"; }
static inline cudaError_t cudaDeviceReset() { return cudaSuccess; }
template <class L>
static void vf_kernel(void *p, int) { (*(L *)p)(); }
template <class L>
static void vf_launch(dim3 grid, dim3 block, L f)
{
  vf_grid = grid;
  vf_block = block;
  vf_parallel(grid.x * grid.y * block.x * block.y, vf_kernel<L>, &f);
}
