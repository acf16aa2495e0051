/*
 * A device per simulated process: memory the host cannot touch, streams whose work is done when the simulator
 * decides (at the latest when the program waits for it), kernels run thread by thread in a seeded order, and the
 * transforms of cuFFT computed by FFTW.
 */
#include "core.h"
#include "gpu/cufft.h"
#include <fftw3.h>
#include <functional>
#include <memory>
#include <set>
#include <sys/mman.h>
#include <unistd.h>
#undef blockIdx
#undef threadIdx
#undef gridDim
#undef blockDim

extern bool g_dev_on;               // mem.cpp: what runs now is the device, not the program
static const size_t ARENA = (size_t)1 << 30, GAP = 256;
static char *g_dev = nullptr, *g_alias = nullptr; static size_t g_top = 0; static int g_open = 0;
struct SimStream { int rank; bool blocking, dead; uint64_t id; };
struct DAlloc { size_t n, cap; int rank; bool lib; };
static std::map<char *, DAlloc> g_alloc; static std::multimap<size_t, char *> g_freed;
struct DOp { uint64_t id; SimStream *st; const char *name; std::function<void()> run;
    uint64_t queue = 0; bool inorder = false; std::vector<uint64_t> deps; std::vector<char *> ptrs; }; // a command of a SYCL queue
struct Dev { std::deque<DOp *> q; cudaError_t err = cudaSuccess; long long live = 0, bytes = 0, plans = 0; };
static Dev g_d[MAXR]; static uint64_t g_opid = 1, g_stid = 1; static Rng *g_rng = nullptr;
static std::set<SimStream *> g_streams;
extern "C" { sim_dim3 sim_gpu_block, sim_gpu_thread, sim_gpu_grid, sim_gpu_threads; }

static bool inside(const void *p) { return g_dev && (char *)p >= g_dev && (char *)p < g_dev + ARENA; }
static const char *where() { return me().libdepth ? me().libwhat : "the user program"; }
static void start() {
    if (g_dev) return; int fd = memfd_create("device", 0); if (fd < 0 || ftruncate(fd, ARENA)) { sim_violation(C_FATAL, "simulator: no device memory"); return; }
    g_dev = (char *)mmap(nullptr, ARENA, PROT_NONE, MAP_SHARED | MAP_NORESERVE, fd, 0); g_alias = (char *)mmap(nullptr, ARENA, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_NORESERVE, fd, 0); close(fd);
    g_rng = new Rng(mix(S->sc.schedseed, 77));
}
static char *alias(const void *p) { return g_alias + ((char *)p - g_dev); }
static unsigned g_opens; static bool g_stays; // very long runs stop closing the memory to the host: changing the protection is slow
static void open_dev() { if (!g_open++ && !g_stays) mprotect(g_dev, g_top, PROT_READ | PROT_WRITE); }
static void close_dev() { if (!--g_open) { if (++g_opens < 4000) mprotect(g_dev, g_top, PROT_NONE); else g_stays = true; } }
static void check_gaps(char *p, DAlloc const &a) {
    unsigned char *b = (unsigned char *)alias(p);
    for (size_t i = 1; i <= GAP; i++) if (b[-(long)i] != 0xC5) { sim_violation(C_OOB, "process %d in %s: a kernel wrote %zu bytes in front of a device array of %zu bytes", S->cur, where(), i, a.n); return; }
    for (size_t i = a.n; i < a.cap + GAP; i++) if (b[i] != 0xC5) { sim_violation(C_OOB, "process %d in %s: a kernel wrote %zu bytes behind the end of a device array of %zu bytes", S->cur, where(), i - a.n, a.n); return; }
}
static bool dep(DOp *later, DOp *earlier) {
    if (later->st == earlier->st) return true;
    if (!later->st) return earlier->st->blocking;
    if (!earlier->st) return later->st->blocking;
    return false;
}
static void run_op(DOp *o) {
    if (S->verbose) sim_log("device runs", o->id);
    S->log = fnv(S->log, &o->id, 8); g_dev_on = true; o->run(); g_dev_on = false; delete o;
}
static void force(std::vector<bool> const &need, Dev &d) {
    NoLib nl; std::deque<DOp *> q; q.swap(d.q); std::vector<DOp *> go; for (size_t i = 0; i < q.size(); i++) if (need[i]) go.push_back(q[i]); else d.q.push_back(q[i]);
    if (go.empty()) return; open_dev();
    if (!go[0]->queue) for (auto *o : go) run_op(o);
    else while (!go.empty()) { // any order that the events and the in-order queues allow
        std::vector<size_t> ready;
        for (size_t i = 0; i < go.size(); i++) { bool free = true; for (size_t j = 0; j < go.size() && free; j++) if (j != i) for (auto e : go[i]->deps) if (e == go[j]->id) free = false;
            for (size_t j = 0; j < i && free; j++) if (go[i]->inorder && go[j]->queue == go[i]->queue) free = false; if (free) ready.push_back(i); }
        size_t k = ready.size() == 1 ? ready[0] : ready[g_rng->below(ready.size())]; DOp *o = go[k]; go.erase(go.begin() + k); run_op(o);
    }
    close_dev();
}
static void wait_for(std::function<bool(DOp *)> want) {
    NoLib nl; Dev &d = g_d[S->cur]; std::vector<bool> need(d.q.size(), false); bool n0 = false; std::set<SimStream *> ss; std::set<uint64_t> evs, qs;
    for (size_t i = d.q.size(); i-- > 0;) {
        DOp *o = d.q[i]; bool n = want(o);
        if (o->queue) { if (n || evs.count(o->id) || (o->inorder && qs.count(o->queue))) { need[i] = true; evs.insert(o->deps.begin(), o->deps.end()); if (o->inorder) qs.insert(o->queue); } continue; }
        if (!n) { if (!o->st) { for (auto *s : ss) if (s->blocking) n = true; if (n0) n = true; } else { if (ss.count(o->st)) n = true; if (n0 && o->st->blocking) n = true; } }
        if (n) { need[i] = true; if (o->st) ss.insert(o->st); else n0 = true; }
    }
    force(need, d);
}
// the device may get some work done now
void gpu_progress() {
    if (!g_dev || S->cur < 0 || g_dev_on) return; NoLib nl; Dev &d = g_d[S->cur]; if (d.q.empty()) return;
    int mode = S->sc.f.gpulazy, want = mode == 0 ? 0 : mode == 1 ? 1 : g_rng->chance(mode == 2 ? 60 : 10) ? (g_rng->chance(40) ? 0 : 2) : 1;
    int k = decide(D_GPU, 3, want); if (k == 1) return;
    if (k == 0) { std::vector<bool> all(d.q.size(), true); force(all, d); return; }
    DOp *pick = d.q[g_rng->below(d.q.size())]; wait_for([=](DOp *o) { return o == pick; });
}
static void enqueue(SimStream *st, const char *name, std::function<void()> f) {
    Dev &d = g_d[S->cur]; DOp *o = new DOp{g_opid++, st, name, std::move(f)}; d.q.push_back(o);
    if (S->verbose) sim_log(name, o->id, st ? st->id : 0); R->probes[PR_DEVOP]++; gpu_progress();
}
static bool good(SimStream *s) { if (!s) return true; if (!g_streams.count(s) || s->dead) { sim_violation(C_FATAL, "process %d in %s: a stream that does not exist is used", S->cur, where()); return false; } return true; }
static cudaError_t fail(cudaError_t e) { g_d[S->cur].err = e; return e; }
static bool range(const void *p, size_t n, const char *what) { // [p, p + n) lies in one device array
    if (!n) return true; auto it = g_alloc.upper_bound((char *)p); 
    if (it != g_alloc.begin()) { --it; if ((char *)p >= it->first && (char *)p + n <= it->first + it->second.n) { if (it->second.rank != S->cur) sim_violation(C_FATAL, "process %d in %s: %s uses the device memory of process %d", S->cur, where(), what, it->second.rank); return true; } }
    sim_violation(C_OOB, "process %d in %s: %s reaches outside the device arrays", S->cur, where(), what); return false;
}
// a buffer handed to MPI
void *sim_dev(const void *p) {
    if (!inside(p)) return (void *)p;
    NoLib nl; if (!S->sc.f.gpumpi) sim_violation(C_GPU, "process %d in %s: memory of the device is handed to an MPI that must not get it", S->cur, where());
    R->probes[PR_DEVMPI]++; return alias(p);
}
bool gpu_fault(void *a) { return inside(a); }
void gpu_live(long long *arrays, long long *plans) { *arrays = *plans = 0; if (S->cur < 0) return; *plans = g_d[S->cur].plans; for (auto &a : g_alloc) if (a.second.rank == S->cur && a.second.lib) ++*arrays; }
void gpu_end() { if (!g_dev) return; for (auto &a : g_alloc) check_gaps(a.first, a.second); }

extern "C" {
cudaError_t cudaMalloc(void **p, size_t n) {
    start(); NoLib nl; bool lib = me().libdepth > 0; gpu_progress();
    if (lib && me().alloc_armed && S->sc.f.allocrank != -1) { long long k = me().alloc_seen++; if (k >= S->sc.f.allocnth && k < S->sc.f.allocnth + S->sc.f.alloccnt) { me().alloc_failed++; R->probes[PR_ALLOC_FAILED]++; if (S->verbose) sim_log("device memory is full", n); return fail(cudaErrorMemoryAllocation); } }
    if (n == 0) { *p = nullptr; return cudaSuccess; }
    size_t cap = (n + 255) & ~(size_t)255; char *q = nullptr; auto it = g_freed.lower_bound(cap);
    if (it != g_freed.end() && it->first == cap && g_rng->chance(70)) { q = it->second; g_freed.erase(it); }
    else { if (g_top + cap + 2 * GAP > ARENA) return fail(cudaErrorMemoryAllocation); q = g_dev + g_top + GAP; size_t o = g_top; g_top = (g_top + cap + 2 * GAP + 4095) & ~(size_t)4095; if (g_open || g_stays) mprotect(g_dev + o, g_top - o, PROT_READ | PROT_WRITE); }
    memset(alias(q) - GAP, 0xC5, GAP); memset(alias(q) + n, 0xC5, cap - n + GAP); memset(alias(q), 0xFF, n);
    g_alloc[q] = DAlloc{n, cap, S->cur, lib}; *p = q; return cudaSuccess;
}
cudaError_t cudaFree(void *p) {
    NoLib nl; if (!p) return cudaSuccess; wait_for([](DOp *) { return true; });
    auto it = g_alloc.find((char *)p); if (it == g_alloc.end()) { sim_violation(C_FATAL, "process %d in %s: releases device memory that is not allocated", S->cur, where()); return fail(cudaErrorInvalidValue); }
    if (it->second.rank != S->cur) sim_violation(C_FATAL, "process %d in %s: releases device memory of process %d", S->cur, where(), it->second.rank);
    check_gaps(it->first, it->second); memset(alias(p), 0xDB, it->second.n); g_freed.insert({it->second.cap, it->first}); g_alloc.erase(it); return cudaSuccess;
}
static cudaError_t copy(void *d, const void *s, size_t n, cudaMemcpyKind k, SimStream *st, bool async) {
    start(); NoLib nl; if (!good(st)) return fail(cudaErrorInvalidResourceHandle); if (!n) return cudaSuccess;
    bool di = inside(d), si = inside(s);
    if (k == cudaMemcpyDefault) k = di ? (si ? cudaMemcpyDeviceToDevice : cudaMemcpyHostToDevice) : (si ? cudaMemcpyDeviceToHost : cudaMemcpyHostToHost);
    if (di != (k == cudaMemcpyHostToDevice || k == cudaMemcpyDeviceToDevice) || si != (k == cudaMemcpyDeviceToHost || k == cudaMemcpyDeviceToDevice)) { sim_violation(C_GPU, "process %d in %s: a copy of kind %d is given the wrong kind of memory", S->cur, where(), (int)k); return fail(cudaErrorInvalidValue); }
    if ((di && !range(d, n, "a copy")) || (si && !range(s, n, "a copy"))) return fail(cudaErrorInvalidValue);
    if (k == cudaMemcpyHostToDevice) { // the host array is read now, the transfer ends later
        std::vector<char> stage((const char *)s, (const char *)s + n); auto keep = std::make_shared<std::vector<char>>(std::move(stage));
        enqueue(st, "copy to the device", [=] { memcpy(d, keep->data(), n); }); if (!async) wait_for([=](DOp *o) { return o->st == st; });
    } else if (k == cudaMemcpyDeviceToHost) { // ordinary host memory: returns when it is done
        enqueue(st, "copy from the device", [=] { memcpy(d, s, n); }); wait_for([=](DOp *o) { return o->st == st; });
    } else if (k == cudaMemcpyDeviceToDevice) enqueue(st, "copy on the device", [=] { memmove(d, s, n); });
    else memmove(d, s, n);
    return cudaSuccess;
}
cudaError_t cudaMemcpy(void *d, const void *s, size_t n, cudaMemcpyKind k) { return copy(d, s, n, k, nullptr, false); }
cudaError_t cudaMemcpyAsync(void *d, const void *s, size_t n, cudaMemcpyKind k, cudaStream_t st) { return copy(d, s, n, k, st, true); }
cudaError_t cudaMemsetAsync(void *d, int v, size_t n, cudaStream_t st) { start(); NoLib nl; if (!n) return cudaSuccess; if (!range(d, n, "a fill")) return fail(cudaErrorInvalidValue); enqueue(st, "fill", [=] { memset(d, v, n); }); return cudaSuccess; }
cudaError_t cudaMemset(void *d, int v, size_t n) { return cudaMemsetAsync(d, v, n, nullptr); }
cudaError_t cudaStreamCreateWithFlags(cudaStream_t *s, unsigned fl) { start(); NoLib nl; *s = new SimStream{S->cur, fl != cudaStreamNonBlocking, false, g_stid++}; g_streams.insert(*s); return cudaSuccess; }
cudaError_t cudaStreamCreate(cudaStream_t *s) { return cudaStreamCreateWithFlags(s, 0); }
cudaError_t cudaStreamSynchronize(cudaStream_t s) { start(); NoLib nl; if (!good(s)) return fail(cudaErrorInvalidResourceHandle); wait_for([=](DOp *o) { return o->st == s || (!s && o->st->blocking); }); return cudaSuccess; }
cudaError_t cudaDeviceSynchronize(void) { start(); wait_for([](DOp *) { return true; }); return cudaSuccess; }
cudaError_t cudaStreamDestroy(cudaStream_t s) { NoLib nl; if (!s || !good(s)) return fail(cudaErrorInvalidResourceHandle); wait_for([=](DOp *o) { return o->st == s; }); s->dead = true; return cudaSuccess; }
cudaError_t cudaSetDevice(int d) { return d == 0 ? cudaSuccess : fail(cudaErrorInvalidDevice); }
cudaError_t cudaGetDevice(int *d) { *d = 0; return cudaSuccess; }
cudaError_t cudaGetDeviceCount(int *n) { *n = 1; return cudaSuccess; }
cudaError_t cudaPeekAtLastError(void) { return g_d[S->cur].err; }
cudaError_t cudaGetLastError(void) { cudaError_t e = g_d[S->cur].err; g_d[S->cur].err = cudaSuccess; return e; }
const char *cudaGetErrorString(cudaError_t e) { return e == cudaSuccess ? "no error" : e == cudaErrorMemoryAllocation ? "out of memory" : e == cudaErrorInvalidConfiguration ? "invalid configuration argument" : e == cudaErrorInvalidDevice ? "invalid device ordinal" : "invalid argument"; }
void sim_gpu_pointer(const void *p) { NoLib nl; if (p && !inside(p)) sim_violation(C_GPU, "process %d in %s: a kernel is given a pointer to memory of the host", S->cur, where()); }
void sim_gpu_launch(SimStream *st, const unsigned *g, const unsigned *b, void (*body)(void *), void *clo, void (*drop)(void *)) {
    start(); NoLib nl;
    if (!good(st) || !g[0] || !g[1] || !g[2] || g[0] > 2147483647u || g[1] > 65535 || g[2] > 65535 || !b[0] || !b[1] || !b[2] || (uint64_t)b[0] * b[1] * b[2] > 1024 || b[2] > 64) { drop(clo); fail(cudaErrorInvalidConfiguration); return; } // the kernel does not run
    sim_dim3 G{g[0], g[1], g[2]}, B{b[0], b[1], b[2]}; uint64_t order = g_rng->next();
    enqueue(st, "kernel", [=] {
        sim_gpu_grid = G; sim_gpu_threads = B; uint64_t nb = (uint64_t)G.x * G.y * G.z, nt = (uint64_t)B.x * B.y * B.z;
        uint64_t sb = order % nb, stt = (order >> 20) % nt; bool rb = order >> 62 & 1, rt = order >> 63;
        for (uint64_t i = 0; i < nb; i++) { uint64_t x = (i + sb) % nb; if (rb) x = nb - 1 - x; sim_gpu_block = {(unsigned)(x % G.x), (unsigned)(x / G.x % G.y), (unsigned)(x / G.x / G.y)};
            for (uint64_t j = 0; j < nt; j++) { uint64_t y = (j + stt) % nt; if (rt) y = nt - 1 - y; sim_gpu_thread = {(unsigned)(y % B.x), (unsigned)(y / B.x % B.y), (unsigned)(y / B.x / B.y)}; body(clo); } }
        drop(clo);
    });
}
// ---- cuFFT ------------------------------------------------------------------------
struct CuPlan { int rank; int dim; int n[3], ie[3], oe[3]; int is, id, os, od, batch; cufftType t; SimStream *st; bool made; };
static std::map<int, CuPlan> g_plan; static int g_handle = 1;
cufftResult cufftCreate(cufftHandle *h) { start(); NoLib nl; CuPlan p; memset(&p, 0, sizeof p); p.rank = S->cur; *h = g_handle++; g_plan[*h] = p; g_d[S->cur].plans++; return CUFFT_SUCCESS; }
static CuPlan *find(cufftHandle h, const char *what) { auto it = g_plan.find(h); if (it == g_plan.end()) { sim_violation(C_FATAL, "process %d in %s: %s on a plan that does not exist", S->cur, where(), what); return nullptr; } return &it->second; }
cufftResult cufftDestroy(cufftHandle h) { NoLib nl; CuPlan *p = find(h, "cufftDestroy"); if (!p) return CUFFT_INVALID_PLAN; wait_for([](DOp *) { return true; }); g_d[S->cur].plans--; g_plan.erase(h); return CUFFT_SUCCESS; }
cufftResult cufftMakePlanMany(cufftHandle h, int dim, int *n, int *ie, int is, int id, int *oe, int os, int od, cufftType t, int batch, size_t *work) {
    NoLib nl; CuPlan *p = find(h, "cufftMakePlanMany"); if (!p) return CUFFT_INVALID_PLAN; if (p->made) return CUFFT_INVALID_PLAN;
    if (dim < 1 || dim > 3) return CUFFT_INVALID_VALUE; if (batch < 1) return CUFFT_INVALID_SIZE; for (int i = 0; i < dim; i++) if (n[i] < 1) return CUFFT_INVALID_SIZE;
    p->dim = dim; p->t = t; p->batch = batch; p->made = true; if (work) *work = 0;
    for (int i = 0; i < dim; i++) { p->n[i] = n[i]; p->ie[i] = ie && oe ? ie[i] : n[i]; p->oe[i] = ie && oe ? oe[i] : n[i]; }
    if (ie && oe) { if (is < 1 || os < 1) return CUFFT_INVALID_VALUE; p->is = is; p->id = id; p->os = os; p->od = od; }
    else { // the basic layout
        long long v = 1; for (int i = 0; i < dim; i++) v *= n[i]; long long half = v / n[dim - 1] * (n[dim - 1] / 2 + 1); p->is = p->os = 1; bool r2c = t == CUFFT_R2C || t == CUFFT_D2Z, c2r = t == CUFFT_C2R || t == CUFFT_Z2D; p->id = (int)(c2r ? half : v); p->od = (int)(r2c ? half : v); if (c2r) p->ie[dim - 1] = n[dim - 1] / 2 + 1; if (r2c) p->oe[dim - 1] = n[dim - 1] / 2 + 1; }
    return CUFFT_SUCCESS;
}
cufftResult cufftPlan3d(cufftHandle *h, int a, int b, int c, cufftType t) { cufftCreate(h); int n[3] = {a, b, c}; size_t w; return cufftMakePlanMany(*h, 3, n, nullptr, 1, 0, nullptr, 1, 0, t, 1, &w); }
cufftResult cufftSetStream(cufftHandle h, cudaStream_t s) { NoLib nl; CuPlan *p = find(h, "cufftSetStream"); if (!p) return CUFFT_INVALID_PLAN; if (!good(s)) return CUFFT_INVALID_VALUE; p->st = s; return CUFFT_SUCCESS; }
static long long extent(int dim, const int *n, const int *e, int st, int di, int batch, bool half) { // entries from the first to the last
    long long last = 0, row = 1; for (int i = dim - 1; i >= 0; i--) { long long k = i == dim - 1 && half ? n[i] / 2 + 1 : n[i]; last += (k - 1) * row; if (i > 0) row *= e[i]; } return last * st + (long long)(batch - 1) * di + 1;
}
static cufftResult exec(cufftHandle h, void *in, void *out, cufftType t, int dir, const char *call) {
    start(); NoLib nl; CuPlan *pp = find(h, call); if (!pp) return CUFFT_INVALID_PLAN; CuPlan p = *pp; if (!p.made) return CUFFT_INVALID_PLAN; if (p.t != t) return CUFFT_INVALID_TYPE;
    bool dbl = t == CUFFT_Z2Z || t == CUFFT_D2Z || t == CUFFT_Z2D, r2c = t == CUFFT_R2C || t == CUFFT_D2Z, c2r = t == CUFFT_C2R || t == CUFFT_Z2D; size_t c = dbl ? 16 : 8;
    if (!inside(in) || !inside(out)) { sim_violation(C_GPU, "process %d in %s: %s is given memory of the host", S->cur, where(), call); return CUFFT_EXEC_FAILED; }
    if ((uintptr_t)in % c || (uintptr_t)out % c) { sim_violation(C_GPU, "process %d in %s: %s is given an array that is not aligned to a complex number", S->cur, where(), call); return CUFFT_EXEC_FAILED; }
    if (!range(in, (size_t)extent(p.dim, p.n, p.ie, p.is, p.id, p.batch, c2r) * (r2c ? c / 2 : c), call) || !range(out, (size_t)extent(p.dim, p.n, p.oe, p.os, p.od, p.batch, r2c) * (c2r ? c / 2 : c), call)) return CUFFT_EXEC_FAILED;
    enqueue(p.st, "transform", [=]() mutable {
        unsigned fl = FFTW_ESTIMATE | FFTW_UNALIGNED;
#define DO(F, R) { F##plan q; if (r2c) q = F##plan_many_dft_r2c(p.dim, p.n, p.batch, (R *)in, p.ie, p.is, p.id, (F##complex *)out, p.oe, p.os, p.od, fl); \
        else if (c2r) q = F##plan_many_dft_c2r(p.dim, p.n, p.batch, (F##complex *)in, p.ie, p.is, p.id, (R *)out, p.oe, p.os, p.od, fl | (p.dim == 1 ? FFTW_PRESERVE_INPUT : 0)); \
        else q = F##plan_many_dft(p.dim, p.n, p.batch, (F##complex *)in, p.ie, p.is, p.id, (F##complex *)out, p.oe, p.os, p.od, dir, fl); \
        if (q) { F##execute(q); F##destroy_plan(q); } else sim_violation(C_FATAL, "simulator: no transform for %s", call); }
        if (dbl) DO(fftw_, double) else DO(fftwf_, float)
#undef DO
    });
    return CUFFT_SUCCESS;
}
cufftResult cufftExecC2C(cufftHandle h, cufftComplex *i, cufftComplex *o, int d) { return exec(h, i, o, CUFFT_C2C, d, "cufftExecC2C"); }
cufftResult cufftExecZ2Z(cufftHandle h, cufftDoubleComplex *i, cufftDoubleComplex *o, int d) { return exec(h, i, o, CUFFT_Z2Z, d, "cufftExecZ2Z"); }
cufftResult cufftExecR2C(cufftHandle h, cufftReal *i, cufftComplex *o) { return exec(h, i, o, CUFFT_R2C, 0, "cufftExecR2C"); }
cufftResult cufftExecC2R(cufftHandle h, cufftComplex *i, cufftReal *o) { return exec(h, i, o, CUFFT_C2R, 0, "cufftExecC2R"); }
cufftResult cufftExecD2Z(cufftHandle h, cufftDoubleReal *i, cufftDoubleComplex *o) { return exec(h, i, o, CUFFT_D2Z, 0, "cufftExecD2Z"); }
cufftResult cufftExecZ2D(cufftHandle h, cufftDoubleComplex *i, cufftDoubleReal *o) { return exec(h, i, o, CUFFT_Z2D, 0, "cufftExecZ2D"); }
}
// ---- rocFFT -----------------------------------------------------------------------
#include "gpu/rocfft/rocfft.h"
struct RLay { bool set; rocfft_array_type it, ot; int nis, nos; size_t is[3], os[3], id, od; };
struct rocfft_plan_description_t { int rank; RLay l; };
struct rocfft_plan_t { int rank; bool in_place, real, inverse, dbl; int dim; size_t n[3], batch, work; RLay l; };
struct rocfft_execution_info_t { int rank; SimStream *st; void *work; size_t nwork; };
static std::set<void *> g_roc; static bool g_roc_ready[MAXR];
template<class T> static bool known(T *p, const char *what) { if (p && g_roc.count((void *)p)) return true; sim_violation(C_FATAL, "process %d in %s: %s is given an object that does not exist", S->cur, where(), what); return false; }
extern "C" {
rocfft_status rocfft_setup(void) { start(); g_roc_ready[S->cur] = true; return rocfft_status_success; }
rocfft_status rocfft_cleanup(void) { g_roc_ready[S->cur] = false; return rocfft_status_success; }
rocfft_status rocfft_plan_description_create(rocfft_plan_description *d) { start(); NoLib nl; *d = new rocfft_plan_description_t(); (*d)->rank = S->cur; g_roc.insert(*d); g_d[S->cur].plans++; return rocfft_status_success; }
rocfft_status rocfft_plan_description_destroy(rocfft_plan_description d) { NoLib nl; if (!known(d, "rocfft_plan_description_destroy")) return rocfft_status_failure; g_roc.erase(d); delete d; g_d[S->cur].plans--; return rocfft_status_success; }
rocfft_status rocfft_plan_description_set_data_layout(rocfft_plan_description d, const rocfft_array_type it, const rocfft_array_type ot, const size_t *, const size_t *, const size_t nis, const size_t *is, const size_t id, const size_t nos, const size_t *os, const size_t od) {
    NoLib nl; if (!known(d, "rocfft_plan_description_set_data_layout")) return rocfft_status_failure; if (nis > 3 || nos > 3) return rocfft_status_invalid_dimensions;
    RLay l; memset(&l, 0, sizeof l); l.set = true; l.it = it; l.ot = ot; if (is) { l.nis = (int)nis; for (size_t i = 0; i < nis; i++) l.is[i] = is[i]; } if (os) { l.nos = (int)nos; for (size_t i = 0; i < nos; i++) l.os[i] = os[i]; } l.id = id; l.od = od; d->l = l; return rocfft_status_success;
}
rocfft_status rocfft_plan_create(rocfft_plan *out, rocfft_result_placement pl, rocfft_transform_type t, rocfft_precision pr, size_t dim, const size_t *len, size_t batch, const rocfft_plan_description d) {
    start(); NoLib nl; if (!g_roc_ready[S->cur]) sim_violation(C_GPU, "process %d in %s: a plan of rocFFT is made before rocfft_setup() is called", S->cur, where());
    if (dim < 1 || dim > 3) return rocfft_status_invalid_dimensions; for (size_t i = 0; i < dim; i++) if (!len[i]) return rocfft_status_invalid_dimensions; if (!batch) return rocfft_status_invalid_arg_value; if (d && !known(d, "rocfft_plan_create")) return rocfft_status_failure;
    rocfft_plan_t p; memset(&p, 0, sizeof p); p.rank = S->cur; p.in_place = pl == rocfft_placement_inplace; p.real = t >= rocfft_transform_type_real_forward; p.inverse = t == rocfft_transform_type_complex_inverse || t == rocfft_transform_type_real_inverse; p.dbl = pr == rocfft_precision_double; p.dim = (int)dim; p.batch = batch;
    for (size_t i = 0; i < dim; i++) p.n[i] = len[i]; if (d) p.l = d->l;
    rocfft_array_type wi = !p.real ? rocfft_array_type_complex_interleaved : p.inverse ? rocfft_array_type_hermitian_interleaved : rocfft_array_type_real, wo = !p.real ? rocfft_array_type_complex_interleaved : p.inverse ? rocfft_array_type_real : rocfft_array_type_hermitian_interleaved;
    if (d && d->l.set && (d->l.it != wi || d->l.ot != wo)) return rocfft_status_invalid_array_type;
    if ((p.l.nis && p.l.nis != p.dim) || (p.l.nos && p.l.nos != p.dim)) return rocfft_status_invalid_strides;
    size_t hi = p.real && p.inverse ? p.n[0] / 2 + 1 : p.n[0], ho = p.real && !p.inverse ? p.n[0] / 2 + 1 : p.n[0], vi = 1, vo = 1; // the layout where none is given
    for (int i = 0; i < p.dim; i++) { if (!p.l.nis) p.l.is[i] = vi; if (!p.l.nos) p.l.os[i] = vo; vi *= i ? p.n[i] : hi; vo *= i ? p.n[i] : ho; } if (!p.l.id) p.l.id = vi; if (!p.l.od) p.l.od = vo;
    if (p.in_place && !p.real) for (int i = 0; i < p.dim; i++) if (p.l.is[i] != p.l.os[i]) return rocfft_status_invalid_strides;
    size_t c = p.dbl ? 16 : 8; size_t hsh = p.n[0] * 7 + p.n[p.dim - 1] * 3 + batch * 5 + p.l.is[0] + (p.inverse ? 11 : 0) + (p.dbl ? 0 : 17); p.work = hsh % 3 == 0 ? 0 : (p.n[0] * (batch % 5 + 1) * (hsh % 4 == 1 ? 2 : 1) + p.n[p.dim - 1]) * c; // some need work space, those of one precision or direction more than the others
    *out = new rocfft_plan_t(p); g_roc.insert(*out); g_d[S->cur].plans++; return rocfft_status_success;
}
rocfft_status rocfft_plan_destroy(rocfft_plan p) { NoLib nl; if (!p) return rocfft_status_success; if (!known(p, "rocfft_plan_destroy")) return rocfft_status_failure; wait_for([](DOp *) { return true; }); g_roc.erase(p); delete p; g_d[S->cur].plans--; return rocfft_status_success; }
rocfft_status rocfft_plan_get_work_buffer_size(const rocfft_plan p, size_t *n) { if (!known(p, "rocfft_plan_get_work_buffer_size")) return rocfft_status_failure; *n = p->work; return rocfft_status_success; }
rocfft_status rocfft_execution_info_create(rocfft_execution_info *i) { start(); NoLib nl; *i = new rocfft_execution_info_t(); (*i)->rank = S->cur; g_roc.insert(*i); g_d[S->cur].plans++; return rocfft_status_success; }
rocfft_status rocfft_execution_info_destroy(rocfft_execution_info i) { NoLib nl; if (!known(i, "rocfft_execution_info_destroy")) return rocfft_status_failure; g_roc.erase(i); delete i; g_d[S->cur].plans--; return rocfft_status_success; }
rocfft_status rocfft_execution_info_set_work_buffer(rocfft_execution_info i, void *b, const size_t n) { NoLib nl; if (!known(i, "rocfft_execution_info_set_work_buffer")) return rocfft_status_failure; if (!b && n) return rocfft_status_invalid_work_buffer; if (!range(b, n, "the work space of rocFFT")) return rocfft_status_invalid_work_buffer; i->work = b; i->nwork = n; return rocfft_status_success; }
rocfft_status rocfft_execution_info_set_stream(rocfft_execution_info i, void *s) { NoLib nl; if (!known(i, "rocfft_execution_info_set_stream")) return rocfft_status_failure; if (!good((SimStream *)s)) return rocfft_status_invalid_arg_value; i->st = (SimStream *)s; return rocfft_status_success; }
rocfft_status rocfft_execute(const rocfft_plan pp, void *in[], void *out[], rocfft_execution_info info) {
    start(); NoLib nl; if (!known(pp, "rocfft_execute") || (info && !known(info, "rocfft_execute"))) return rocfft_status_failure; rocfft_plan_t p = *pp; void *a = in[0], *b = p.in_place ? in[0] : out ? out[0] : nullptr;
    if (!a || !b) return rocfft_status_invalid_arg_value; if (!inside(a) || !inside(b)) { sim_violation(C_GPU, "process %d in %s: rocfft_execute is given memory of the host", S->cur, where()); return rocfft_status_failure; }
    if (p.work && info && info->work && info->nwork < p.work) { sim_violation(C_GPU, "process %d in %s: rocfft_execute gets a work space of %zu bytes but needs %zu", S->cur, where(), info->nwork, p.work); return rocfft_status_invalid_work_buffer; }
    size_t re = p.dbl ? 8 : 4, li = 0, lo = 0; bool r2c = p.real && !p.inverse, c2r = p.real && p.inverse;
    for (int i = 0; i < p.dim; i++) { size_t h = i == 0 ? p.n[0] / 2 + 1 : p.n[i]; li += ((c2r ? h : p.n[i]) - 1) * p.l.is[i]; lo += ((r2c ? h : p.n[i]) - 1) * p.l.os[i]; }
    li += (p.batch - 1) * p.l.id + 1; lo += (p.batch - 1) * p.l.od + 1; size_t bi = li * (r2c ? re : 2 * re), bo = lo * (c2r ? re : 2 * re);
    if ((uintptr_t)a % re || (uintptr_t)b % re) { sim_violation(C_GPU, "process %d in %s: rocfft_execute is given an array that is not aligned to its type", S->cur, where()); return rocfft_status_failure; }
    if (!range(a, bi, "rocfft_execute") || !range(b, bo, "rocfft_execute")) return rocfft_status_failure;
    char *w = info && p.work ? (char *)info->work : nullptr; auto apart = [](char *x, size_t n, char *y, size_t m) { return x + n <= y || y + m <= x; };
    if (w && (!apart(w, p.work, (char *)a, bi) || !apart(w, p.work, (char *)b, bo))) sim_violation(C_GPU, "process %d in %s: the work space of rocFFT overlaps the data of the transform", S->cur, where());
    if (!p.in_place && !apart((char *)a, bi, (char *)b, bo)) sim_violation(C_GPU, "process %d in %s: input and output of a transform of rocFFT overlap", S->cur, where());
    enqueue(info ? info->st : nullptr, "transform", [=]() {
        if (w) memset(w, 0xA5, p.work);
        fftw_iodim d[3], h; for (int i = 0; i < p.dim; i++) { int k = p.dim - 1 - i; d[i] = {(int)p.n[k], (int)p.l.is[k], (int)p.l.os[k]}; } h = {(int)p.batch, (int)p.l.id, (int)p.l.od}; unsigned fl = FFTW_ESTIMATE | FFTW_UNALIGNED;
#define DO(F, R) { F##iodim e[3], g; for (int i = 0; i < p.dim; i++) e[i] = {d[i].n, d[i].is, d[i].os}; g = {h.n, h.is, h.os}; F##plan q; if (r2c) q = F##plan_guru_dft_r2c(p.dim, e, 1, &g, (R *)a, (F##complex *)b, fl); \
        else if (c2r) q = F##plan_guru_dft_c2r(p.dim, e, 1, &g, (F##complex *)a, (R *)b, fl); \
        else q = F##plan_guru_dft(p.dim, e, 1, &g, (F##complex *)a, (F##complex *)b, p.inverse ? 1 : -1, fl); \
        if (q) { F##execute(q); F##destroy_plan(q); } else sim_violation(C_FATAL, "simulator: no transform for rocfft_execute"); }
        if (p.dbl) DO(fftw_, double) else DO(fftwf_, float)
#undef DO
        if (p.real && !p.in_place) { size_t sz = r2c ? re : 2 * re, q[4] = {p.batch, 1, 1, 1}; for (int i = 0; i < p.dim; i++) q[i + 1] = c2r && i == 0 ? p.n[0] / 2 + 1 : p.n[i]; // such a transform may use its input as work space
            for (size_t u = 0; u < q[0]; u++) for (size_t z = 0; z < q[3]; z++) for (size_t y = 0; y < q[2]; y++) for (size_t x = 0; x < q[1]; x++) memset((char *)a + (u * p.l.id + x * p.l.is[0] + (p.dim > 1 ? y * p.l.is[1] : 0) + (p.dim > 2 ? z * p.l.is[2] : 0)) * sz, 0xFF, sz); }
    });
    return rocfft_status_success;
}
}
// ---- SYCL and oneMKL ----------------------------------------------------------------
#include "gpu/sim_sycl.h"
static uint64_t submit(uint64_t q, int inorder, const uint64_t *deps, size_t nd, const char *name, std::vector<char *> ptrs, std::function<void()> f) {
    Dev &d = g_d[S->cur]; DOp *o = new DOp{g_opid++, nullptr, name, std::move(f)}; o->queue = q; o->inorder = inorder; if (nd) o->deps.assign(deps, deps + nd); o->ptrs = std::move(ptrs); uint64_t id = o->id; d.q.push_back(o);
    if (S->verbose) sim_log(name, id, q); R->probes[PR_DEVOP]++; gpu_progress(); return id;
}
extern "C" {
void *sim_sycl_malloc(size_t n) { void *p = nullptr; return cudaMalloc(&p, n) == cudaSuccess ? p : nullptr; }
void sim_sycl_free(void *p) { // does not wait
    NoLib nl; if (!p) return; auto it = g_alloc.find((char *)p); if (it != g_alloc.end()) { size_t n = it->second.n; for (auto *o : g_d[S->cur].q) for (char *x : o->ptrs) if (x >= (char *)p && x < (char *)p + n) { sim_violation(C_GPU, "process %d in %s: device memory is released before the %s that uses it has ended", S->cur, where(), o->name); break; } }
    cudaFree(p);
}
uint64_t sim_sycl_copy(uint64_t q, int inorder, const uint64_t *deps, size_t nd, void *d, const void *s, size_t n) {
    start(); NoLib nl; bool di = inside(d), si = inside(s); if (n && ((di && !range(d, n, "a copy")) || (si && !range(s, n, "a copy")))) n = 0;
    return submit(q, inorder, deps, nd, "copy", {(char *)d, (char *)s}, [=] { if (n) memmove(d, s, n); });
}
uint64_t sim_sycl_kernel(uint64_t q, int inorder, const uint64_t *deps, size_t nd, uint64_t total, void (*body)(void *, uint64_t), void *clo, size_t size, void (*drop)(void *)) {
    start(); NoLib nl; std::vector<char *> ptrs; uint64_t order = g_rng->next();
    for (size_t i = 0; i + 8 <= size; i += 8) { char *x; memcpy(&x, (char *)clo + i, 8); uint64_t v = (uint64_t)x; if (inside(x)) ptrs.push_back(x); else if (total && (v >> 32) >= 0x4000 && (v >> 32) < 0x8000 && (v & 0xFFFFFFFFu) >= 0x100000) sim_violation(C_GPU, "process %d in %s: a kernel is given a pointer to memory of the host", S->cur, where()); }
    return submit(q, inorder, deps, nd, "kernel", ptrs, [=] { uint64_t s0 = total ? order % total : 0; bool rev = order >> 63; for (uint64_t i = 0; i < total; i++) { uint64_t x = (i + s0) % total; body(clo, rev ? total - 1 - x : x); } drop(clo); });
}
void sim_sycl_wait_event(uint64_t e) { if (S && S->cur >= 0) wait_for([=](DOp *o) { return o->id == e; }); }
void sim_sycl_wait_queue(uint64_t q) { if (S && S->cur >= 0) wait_for([=](DOp *o) { return o->queue == q; }); }
void sim_sycl_plan(int n) { if (S && S->cur >= 0) g_d[S->cur].plans += n; }
void sim_sycl_bad(const char *what) { NoLib nl; sim_violation(C_GPU, "process %d in %s: %s", S->cur, where(), what); }
uint64_t sim_sycl_dft(uint64_t q, int inorder, const uint64_t *deps, size_t nd, const SimDft *pp, void *in, void *out, int inverse) {
    start(); NoLib nl; SimDft p = *pp; size_t re = p.dbl ? 8 : 4; bool r2c = p.real && !inverse, c2r = p.real && inverse;
    const int64_t *is = inverse ? p.bs : p.fs, *os = inverse ? p.fs : p.bs; int64_t id = inverse ? p.bd : p.fd, od = inverse ? p.fd : p.bd, li = is[0], lo = os[0];
    for (int i = 0; i < p.dim; i++) { int64_t h = i == p.dim - 1 ? p.n[i] / 2 + 1 : p.n[i]; li += ((c2r ? h : p.n[i]) - 1) * is[i + 1]; lo += ((r2c ? h : p.n[i]) - 1) * os[i + 1]; }
    li += (p.batch - 1) * id + 1; lo += (p.batch - 1) * od + 1; size_t bi = (size_t)li * (r2c ? re : 2 * re), bo = (size_t)lo * (c2r ? re : 2 * re);
    if (!inside(in) || !inside(out)) { sim_violation(C_GPU, "process %d in %s: a transform of oneMKL is given memory of the host", S->cur, where()); return 0; }
    if ((uintptr_t)in % re || (uintptr_t)out % re) { sim_violation(C_GPU, "process %d in %s: a transform of oneMKL is given an array that is not aligned to its type", S->cur, where()); return 0; }
    if (!range(in, bi, "a transform of oneMKL") || !range(out, bo, "a transform of oneMKL")) return 0;
    if (!p.inplace && !((char *)in + bi <= (char *)out || (char *)out + bo <= (char *)in)) sim_violation(C_GPU, "process %d in %s: input and output of a transform of oneMKL overlap", S->cur, where());
    std::vector<int64_t> si(is, is + 4), so(os, os + 4);
    return submit(q, inorder, deps, nd, "transform", {(char *)in, (char *)out}, [=]() {
        unsigned fl = FFTW_ESTIMATE | FFTW_UNALIGNED; void *a = (char *)in + si[0] * (r2c ? re : 2 * re), *b = (char *)out + so[0] * (c2r ? re : 2 * re);
#define DO(F, R) { F##iodim e[3], g; for (int i = 0; i < p.dim; i++) e[i] = {(int)p.n[i], (int)si[i + 1], (int)so[i + 1]}; g = {(int)p.batch, (int)id, (int)od}; F##plan w; if (r2c) w = F##plan_guru_dft_r2c(p.dim, e, 1, &g, (R *)a, (F##complex *)b, fl); \
        else if (c2r) w = F##plan_guru_dft_c2r(p.dim, e, 1, &g, (F##complex *)a, (R *)b, fl | (p.dim == 1 ? FFTW_PRESERVE_INPUT : 0)); \
        else w = F##plan_guru_dft(p.dim, e, 1, &g, (F##complex *)a, (F##complex *)b, inverse ? 1 : -1, fl); \
        if (w) { F##execute(w); F##destroy_plan(w); } else sim_violation(C_FATAL, "simulator: no transform for oneMKL"); }
        if (p.dbl) DO(fftw_, double) else DO(fftwf_, float)
#undef DO
    });
}
}
