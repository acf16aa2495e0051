#ifndef SIM_SYCL_H
#define SIM_SYCL_H
#include <stddef.h>
#include <stdint.h>
struct SimDft { int dim, dbl, real, inplace; int64_t n[3], fs[4], bs[4], fd, bd, batch; };
extern "C" {
void *sim_sycl_malloc(size_t n);
void sim_sycl_free(void *p);
uint64_t sim_sycl_copy(uint64_t q, int inorder, const uint64_t *deps, size_t nd, void *d, const void *s, size_t n);
uint64_t sim_sycl_kernel(uint64_t q, int inorder, const uint64_t *deps, size_t nd, uint64_t total, void (*body)(void *, uint64_t), void *clo, size_t size, void (*drop)(void *));
uint64_t sim_sycl_dft(uint64_t q, int inorder, const uint64_t *deps, size_t nd, const SimDft *p, void *in, void *out, int inverse);
void sim_sycl_wait_event(uint64_t e);
void sim_sycl_wait_queue(uint64_t q);
void sim_sycl_plan(int n);
void sim_sycl_bad(const char *what);
}
#endif
