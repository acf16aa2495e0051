/* The CUDA runtime as the simulator offers it: the calls the code under test makes, and what a compiler for devices adds to C++. */
#ifndef SIM_CUDA_RUNTIME_API_H
#define SIM_CUDA_RUNTIME_API_H
#include <cstddef>
#include <cstdint>
#include <cstdlib>
#include <cmath>
#include <tuple>
#include <type_traits>
#include <utility>
extern "C" {
typedef enum { cudaSuccess = 0, cudaErrorInvalidValue = 1, cudaErrorMemoryAllocation = 2, cudaErrorInvalidConfiguration = 9, cudaErrorInvalidDevice = 101, cudaErrorInvalidResourceHandle = 400 } cudaError_t;
typedef enum { cudaMemcpyHostToHost = 0, cudaMemcpyHostToDevice = 1, cudaMemcpyDeviceToHost = 2, cudaMemcpyDeviceToDevice = 3, cudaMemcpyDefault = 4 } cudaMemcpyKind;
typedef struct SimStream *cudaStream_t;
enum { cudaStreamDefault = 0, cudaStreamNonBlocking = 1 };
cudaError_t cudaMalloc(void **p, size_t n);
cudaError_t cudaFree(void *p);
cudaError_t cudaMemcpy(void *d, const void *s, size_t n, cudaMemcpyKind k);
cudaError_t cudaMemcpyAsync(void *d, const void *s, size_t n, cudaMemcpyKind k, cudaStream_t st);
cudaError_t cudaMemset(void *d, int v, size_t n);
cudaError_t cudaMemsetAsync(void *d, int v, size_t n, cudaStream_t st);
cudaError_t cudaStreamCreate(cudaStream_t *s);
cudaError_t cudaStreamCreateWithFlags(cudaStream_t *s, unsigned flags);
cudaError_t cudaStreamDestroy(cudaStream_t s);
cudaError_t cudaStreamSynchronize(cudaStream_t s);
cudaError_t cudaDeviceSynchronize(void);
cudaError_t cudaSetDevice(int d);
cudaError_t cudaGetDevice(int *d);
cudaError_t cudaGetDeviceCount(int *n);
cudaError_t cudaPeekAtLastError(void);
cudaError_t cudaGetLastError(void);
const char *cudaGetErrorString(cudaError_t e);
// the launch of a kernel: body(closure) runs one thread
void sim_gpu_launch(SimStream *st, const unsigned *grid, const unsigned *block, void (*body)(void *), void *closure, void (*drop)(void *));
void sim_gpu_pointer(const void *p);
struct sim_dim3 { unsigned x, y, z; };
extern sim_dim3 sim_gpu_block, sim_gpu_thread, sim_gpu_grid, sim_gpu_threads;
}
struct dim3 { unsigned x, y, z; constexpr dim3(unsigned a = 1, unsigned b = 1, unsigned c = 1) : x(a), y(b), z(c) {} };
#define __global__
#define __device__
#define __host__
#define __forceinline__ inline
#define __restrict__
#define __launch_bounds__(...)
#define blockIdx sim_gpu_block
#define threadIdx sim_gpu_thread
#define gridDim sim_gpu_grid
#define blockDim sim_gpu_threads
namespace simgpu {
struct cfg { dim3 g, b; SimStream *s; cfg(dim3 grid, dim3 block, size_t = 0, SimStream *st = nullptr) : g(grid), b(block), s(st) {} };
template<class T> void look(T const &) {}
template<class T> void look(T *const &p) { sim_gpu_pointer((const void *)p); }
template<class F, class... A> struct Clo {
    F f; std::tuple<A...> a;
    template<size_t... I> void call(std::index_sequence<I...>) { f(std::get<I>(a)...); }
    static void run(void *p) { ((Clo *)p)->call(std::index_sequence_for<A...>()); }
    static void drop(void *p) { ((Clo *)p)->~Clo(); free(p); }
};
template<class F, class... A> void launch(cfg c, F f, A... a) {
    typedef Clo<F, A...> C; unsigned g[3] = {c.g.x, c.g.y, c.g.z}, b[3] = {c.b.x, c.b.y, c.b.z};
    int dummy[] = {0, (look(a), 0)...}; (void)dummy;
    void *m = malloc(sizeof(C)); new (m) C{f, std::tuple<A...>(a...)}; sim_gpu_launch(c.s, g, b, &C::run, m, &C::drop);
}
}
#endif
