/* HIP on the device of the simulator: the calls are those of CUDA under other names. */
#ifndef SIM_HIP_RUNTIME_H
#define SIM_HIP_RUNTIME_H
#include "../cuda_runtime_api.h"
typedef cudaError_t hipError_t; typedef cudaStream_t hipStream_t; typedef cudaMemcpyKind hipMemcpyKind;
static const hipError_t hipSuccess = cudaSuccess;
static const hipMemcpyKind hipMemcpyHostToHost = cudaMemcpyHostToHost, hipMemcpyHostToDevice = cudaMemcpyHostToDevice, hipMemcpyDeviceToHost = cudaMemcpyDeviceToHost, hipMemcpyDeviceToDevice = cudaMemcpyDeviceToDevice, hipMemcpyDefault = cudaMemcpyDefault;
static inline hipError_t hipMalloc(void **p, size_t n) { return cudaMalloc(p, n); }
static inline hipError_t hipFree(void *p) { return cudaFree(p); }
static inline hipError_t hipMemcpy(void *d, const void *s, size_t n, hipMemcpyKind k) { return cudaMemcpy(d, s, n, k); }
static inline hipError_t hipMemcpyAsync(void *d, const void *s, size_t n, hipMemcpyKind k, hipStream_t st) { return cudaMemcpyAsync(d, s, n, k, st); }
static inline hipError_t hipMemset(void *d, int v, size_t n) { return cudaMemset(d, v, n); }
static inline hipError_t hipMemsetAsync(void *d, int v, size_t n, hipStream_t s) { return cudaMemsetAsync(d, v, n, s); }
static inline hipError_t hipStreamSynchronize(hipStream_t s) { return cudaStreamSynchronize(s); }
static inline hipError_t hipDeviceSynchronize() { return cudaDeviceSynchronize(); }
static inline hipError_t hipSetDevice(int d) { return cudaSetDevice(d); }
static inline hipError_t hipGetDevice(int *d) { return cudaGetDevice(d); }
static inline hipError_t hipGetDeviceCount(int *n) { return cudaGetDeviceCount(n); }
static inline hipError_t hipGetLastError() { return cudaGetLastError(); }
static inline hipError_t hipPeekAtLastError() { return cudaPeekAtLastError(); }
static inline const char *hipGetErrorString(hipError_t e) { return cudaGetErrorString(e); }
#endif
