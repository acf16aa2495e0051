/*
 * Memory as a seam: operator new/delete of everything in the process (the code
 * under test included), guard-page buffers for the user's arrays, accounting per
 * simulated process and injected allocation failures.
 */
#include "core.h"
#include <set>
#include <cstdlib>
#include <new>
#include <sys/mman.h>
#include <unistd.h>
#include <dlfcn.h>

bool g_mem_on = false;
static const uint64_t MAGIC = 0x5ec0de5ec0de1234ull, DEAD = 0xdeadbeefdeadbeefull;
struct Head { uint64_t magic; size_t size; void *base; int rank; int flags; size_t map; uint64_t pad; uint64_t magic2; }; // 56 -> keep 64
static_assert(sizeof(Head) <= 64, "header");
static const size_t HS = 64, CAN = 16;
struct FRange { char *lo, *hi; };
static const int MAXF = 4096; static FRange g_fence[MAXF]; static int g_nfence = 0;

static void *raw_alloc(size_t n, size_t align, bool nothrow) {
    bool lib = g_mem_on && S && S->cur >= 0 && S->fib[S->cur].libdepth > 0 && !S->fib[S->cur].inmpi;
    if (lib) {
        Fiber &f = S->fib[S->cur];
        if (f.alloc_armed) {
            long long k = f.alloc_seen++;
            if (k >= S->sc.f.allocnth && k < S->sc.f.allocnth + S->sc.f.alloccnt) {
                f.alloc_failed++; R->probes[PR_ALLOC_FAILED]++;
                if (S->verbose) { bool s = f.inmpi; f.inmpi = true; sim_log("allocation failure injected", n); f.inmpi = s; }
                if (nothrow) return nullptr;
                throw std::bad_alloc();
            }
        }
    }
    if (n > ((size_t)1 << 40)) { if (nothrow) return nullptr; throw std::bad_alloc(); }
    if (align < 16) align = 16;
    char *p; Head h; h.magic = MAGIC; h.magic2 = ~MAGIC; h.size = n; h.rank = lib ? S->cur : -1; h.flags = lib ? 1 : 0; h.map = 0;
    if (lib && S->sc.f.efence && n >= 16 && align == 16 && g_nfence < MAXF) {
        size_t body = (n + 15) & ~(size_t)15; size_t pages = (body + HS + 4095) & ~(size_t)4095;
        char *m = (char *)mmap(nullptr, pages + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        if (m != (char *)MAP_FAILED) {
            mprotect(m + pages, 4096, PROT_NONE); p = m + pages - body; h.base = m; h.map = pages + 4096; R->probes[PR_EFENCE]++;
            g_fence[g_nfence].lo = m; g_fence[g_nfence++].hi = m + pages + 4096;
        } else p = nullptr;
    } else {
        char *m = (char *)malloc(n + HS + CAN + align);
        if (!m) { if (nothrow) return nullptr; throw std::bad_alloc(); }
        p = (char *)(((uintptr_t)m + HS + align - 1) & ~(uintptr_t)(align - 1)); h.base = m;
    }
    if (!p) { if (nothrow) return nullptr; throw std::bad_alloc(); }
    memcpy(p - HS, &h, sizeof h);
    if (lib) memset(p, 0xFF, n);
    if (h.map) { size_t body = (n + 15) & ~(size_t)15; memset(p + n, 0xC5, body - n); } else memset(p + n, 0xC5, CAN);
    if (lib) { Fiber &f = S->fib[S->cur]; f.live += (long long)n; f.livecnt++; f.total++; }
    return p;
}
static void raw_free(void *q) {
    if (!q) return;
    char *p = (char *)q; Head h; memcpy(&h, p - HS, sizeof h);
    if (h.magic != MAGIC || h.magic2 != ~MAGIC) {
        if (S && g_mem_on) { if (h.magic == DEAD) sim_violation(C_FATAL, "process %d in %s: memory released twice", S->cur, S->cur >= 0 ? S->fib[S->cur].libwhat : "?"); else sim_violation(C_OOB, "process %d in %s: the memory in front of an allocation was overwritten", S->cur, S->cur >= 0 ? S->fib[S->cur].libwhat : "?"); }
        return;
    }
    size_t can = h.map ? (((h.size + 15) & ~(size_t)15) - h.size) : CAN;
    for (size_t i = 0; i < can; i++) if ((unsigned char)p[h.size + i] != 0xC5) {
        if (S && g_mem_on) sim_violation(C_OOB, "process %d in %s: wrote behind the end of an allocation of %zu bytes", S->cur, S->cur >= 0 ? S->fib[S->cur].libwhat : "?", h.size);
        break;
    }
    if (h.flags && S && h.rank >= 0 && h.rank < (int)S->fib.size()) { Fiber &f = S->fib[h.rank]; f.live -= (long long)h.size; f.livecnt--; }
    h.magic = DEAD; memcpy(p - HS, &h, sizeof h);
    if (h.map) { mprotect(h.base, h.map, PROT_NONE); return; } // use after release faults
    if (h.flags && h.size < (1 << 16)) memset(p, 0xDB, h.size);
    free(h.base);
}
void *operator new(size_t n) { return raw_alloc(n, 16, false); }
void *operator new[](size_t n) { return raw_alloc(n, 16, false); }
void *operator new(size_t n, std::nothrow_t const &) noexcept { return raw_alloc(n, 16, true); }
void *operator new[](size_t n, std::nothrow_t const &) noexcept { return raw_alloc(n, 16, true); }
void *operator new(size_t n, std::align_val_t a) { return raw_alloc(n, (size_t)a, false); }
void *operator new[](size_t n, std::align_val_t a) { return raw_alloc(n, (size_t)a, false); }
void operator delete(void *p) noexcept { raw_free(p); }
void operator delete[](void *p) noexcept { raw_free(p); }
void operator delete(void *p, size_t) noexcept { raw_free(p); }
void operator delete[](void *p, size_t) noexcept { raw_free(p); }
void operator delete(void *p, std::nothrow_t const &) noexcept { raw_free(p); }
void operator delete[](void *p, std::nothrow_t const &) noexcept { raw_free(p); }
void operator delete(void *p, std::align_val_t) noexcept { raw_free(p); }
void operator delete[](void *p, std::align_val_t) noexcept { raw_free(p); }
void operator delete(void *p, size_t, std::align_val_t) noexcept { raw_free(p); }
void operator delete[](void *p, size_t, std::align_val_t) noexcept { raw_free(p); }

// the stock backend takes its scratch space here
extern "C" void *aligned_alloc(size_t a, size_t n) {
    bool lib = g_mem_on && S && S->cur >= 0 && S->fib[S->cur].libdepth > 0 && !S->fib[S->cur].inmpi;
    if (lib) { Fiber &f = S->fib[S->cur];
        if (f.alloc_armed) { long long k = f.alloc_seen++; if (k >= S->sc.f.allocnth && k < S->sc.f.allocnth + S->sc.f.alloccnt) { f.alloc_failed++; R->probes[PR_ALLOC_FAILED]++; return nullptr; } } }
    void *p = nullptr; if (a < sizeof(void *)) a = sizeof(void *);
    if (posix_memalign(&p, a, n)) return nullptr;
    if (lib) memset(p, 0xFF, n);
    return p;
}

void mem_start() { g_mem_on = true; }
extern "C" void sim_arm_alloc(int on) { Fiber &f = me(); f.alloc_armed = on; if (on) f.alloc_seen = 0; }

// ---- user buffers -----------------------------------------------------------------
struct UBuf { char *map; size_t maplen; char *p; size_t n; int ro; int rank; char *lo, *hi; bool live; };
static const int MAXU = 8192; static UBuf g_ub[MAXU]; static int g_nub = 0;
extern "C" void *sim_buf(size_t bytes, size_t align, int tail, int fill) {
    NoLib nl; if (g_nub >= MAXU) { sim_violation(C_FATAL, "simulator: out of user buffers"); return nullptr; }
    size_t pages = (bytes + align + 64 + 4095) & ~(size_t)4095; UBuf &u = g_ub[g_nub++];
    u.map = (char *)mmap(nullptr, pages + 8192, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); u.maplen = pages + 8192;
    u.lo = u.map + 4096; u.hi = u.lo + pages; mprotect(u.map, 4096, PROT_NONE); mprotect(u.hi, 4096, PROT_NONE);
    if (tail) { u.p = u.hi - bytes; u.p -= (uintptr_t)u.p % align; } else u.p = u.lo;
    // natural alignment only, when the run asks for it
    if (S->sc.f.misalign && align > 4 && !tail) u.p = u.lo + align;
    memset(u.lo, 0xA7, pages); u.n = bytes; u.ro = 0; u.rank = S->cur; u.live = true;
    if (fill == 0) memset(u.p, 0xFF, bytes); else if (fill == 1) { Rng g(me().data.next()); for (size_t i = 0; i < bytes; i++) u.p[i] = (char)g.next(); }
    else if (fill == 2) memset(u.p, 0, bytes); else if (fill == 3) memset(u.p, 0x7e, bytes);
    return u.p;
}
static UBuf *find(void *p) { for (int i = g_nub - 1; i >= 0; i--) if (g_ub[i].p == p && g_ub[i].live) return &g_ub[i]; return nullptr; }
extern "C" void sim_buf_readonly(void *p, int ro) { UBuf *u = find(p); if (u) { u->ro = ro; mprotect(u->lo, u->hi - u->lo, ro ? PROT_READ : PROT_READ | PROT_WRITE); } }
extern "C" void sim_buf_check(void *p, const char *what) {
    UBuf *u = find(p); if (!u) return;
    for (char *c = u->lo; c < u->p; c++) if ((unsigned char)*c != 0xA7) { sim_violation(C_OOB, "process %d in %s: wrote %ld bytes before the %s", S->cur, me().libwhat, (long)(u->p - c), what); return; }
    for (char *c = u->p + u->n; c < u->hi; c++) if ((unsigned char)*c != 0xA7) { sim_violation(C_OOB, "process %d in %s: wrote %ld bytes behind the end of the %s", S->cur, me().libwhat, (long)(c - u->p - u->n), what); return; }
}
extern "C" void sim_buf_free(void *p) { UBuf *u = find(p); if (!u) return; mprotect(u->map, u->maplen, PROT_NONE); madvise(u->map, u->maplen, MADV_DONTNEED); u->live = false; }

// called from the fault handler: message starts with 'R' (read-only input written) or 'O'
bool mem_fault(void *addr, bool write, char *m, size_t n) {
    char *a = (char *)addr;
    for (int i = g_nub - 1; i >= 0; i--) { UBuf &u = g_ub[i]; if (a >= u.map && a < u.map + u.maplen) {
        if (!u.live) snprintf(m, n, "O%s a user buffer that had been released", write ? "wrote to" : "read from");
        else if (u.ro && write && a >= u.lo && a < u.hi) snprintf(m, n, "Rwrote to a user array that the call only has to read");
        else snprintf(m, n, "O%s outside a user array", write ? "wrote" : "read");
        return true; } }
    for (int i = g_nfence - 1; i >= 0; i--) if (a >= g_fence[i].lo && a < g_fence[i].hi) { snprintf(m, n, "O%s outside (or after the release of) memory allocated by the library", write ? "wrote" : "read"); return true; }
    if (gpu_fault(a)) { snprintf(m, n, "Othe program %s memory of the device", write ? "writes to" : "reads from"); return true; }
    if (S) for (auto &f : S->fib) if (a >= f.stack && a < f.stack + 4096) { snprintf(m, n, "Ostack overflow"); return true; }
    return false;
}

// ---- resources of the FFT libraries, counted per simulated process ------------------
struct Cnt { long long live[MAXR]; }; static Cnt g_fftw, g_mkl; static long long g_mklcalls[MAXR];
template<typename Fn> static Fn next_sym(const char *n, Fn *slot) { if (!*slot) *slot = (Fn)dlsym(RTLD_NEXT, n); return *slot; }
bool g_dev_on = false; // the device is at work, not the program
#define CUR() (S && S->cur >= 0 && !g_dev_on ? S->cur : -1)
static bool fft_fails() {
    int r = CUR(); if (r < 0 || !S->sc.f.fftfail || !S->fib[r].alloc_armed) return false;
    if (++g_mklcalls[r] == S->sc.f.fftfail) { S->fib[r].alloc_failed++; R->probes[PR_ALLOC_FAILED]++; return true; }
    return false;
}
static std::set<void *> g_dead; // plans that have been destroyed and not come back
#define FFTW_PLAN(name, sig, args) extern "C" void *name sig { static void *(*fn) sig = nullptr; next_sym(#name, &fn); if (fft_fails()) return nullptr; void *p; { NoLib nl; p = fn args; } if (p && CUR() >= 0) { NoLib nl; g_fftw.live[CUR()]++; g_dead.erase(p); } return p; }
FFTW_PLAN(fftw_plan_many_dft, (int r, const int *n, int h, void *i, const int *ie, int is, int id, void *o, const int *oe, int os, int od, int s, unsigned f), (r, n, h, i, ie, is, id, o, oe, os, od, s, f))
FFTW_PLAN(fftwf_plan_many_dft, (int r, const int *n, int h, void *i, const int *ie, int is, int id, void *o, const int *oe, int os, int od, int s, unsigned f), (r, n, h, i, ie, is, id, o, oe, os, od, s, f))
FFTW_PLAN(fftw_plan_many_dft_r2c, (int r, const int *n, int h, void *i, const int *ie, int is, int id, void *o, const int *oe, int os, int od, unsigned f), (r, n, h, i, ie, is, id, o, oe, os, od, f))
FFTW_PLAN(fftwf_plan_many_dft_r2c, (int r, const int *n, int h, void *i, const int *ie, int is, int id, void *o, const int *oe, int os, int od, unsigned f), (r, n, h, i, ie, is, id, o, oe, os, od, f))
FFTW_PLAN(fftw_plan_many_dft_c2r, (int r, const int *n, int h, void *i, const int *ie, int is, int id, void *o, const int *oe, int os, int od, unsigned f), (r, n, h, i, ie, is, id, o, oe, os, od, f))
FFTW_PLAN(fftwf_plan_many_dft_c2r, (int r, const int *n, int h, void *i, const int *ie, int is, int id, void *o, const int *oe, int os, int od, unsigned f), (r, n, h, i, ie, is, id, o, oe, os, od, f))
FFTW_PLAN(fftw_plan_many_r2r, (int r, const int *n, int h, void *i, const int *ie, int is, int id, void *o, const int *oe, int os, int od, const int *k, unsigned f), (r, n, h, i, ie, is, id, o, oe, os, od, k, f))
FFTW_PLAN(fftwf_plan_many_r2r, (int r, const int *n, int h, void *i, const int *ie, int is, int id, void *o, const int *oe, int os, int od, const int *k, unsigned f), (r, n, h, i, ie, is, id, o, oe, os, od, k, f))
FFTW_PLAN(fftw_plan_dft_3d, (int a, int b, int c, void *i, void *o, int s, unsigned f), (a, b, c, i, o, s, f))
FFTW_PLAN(fftwf_plan_dft_3d, (int a, int b, int c, void *i, void *o, int s, unsigned f), (a, b, c, i, o, s, f))
FFTW_PLAN(fftw_plan_r2r_3d, (int a, int b, int c, void *i, void *o, int k0, int k1, int k2, unsigned f), (a, b, c, i, o, k0, k1, k2, f))
FFTW_PLAN(fftwf_plan_r2r_3d, (int a, int b, int c, void *i, void *o, int k0, int k1, int k2, unsigned f), (a, b, c, i, o, k0, k1, k2, f))
static bool fftw_gone(void *p) { // a plan is released once
    if (!p || CUR() < 0) return false; NoLib nl; if (g_dead.count(p)) { sim_violation(C_LEAK, "process %d in %s: an FFTW plan is destroyed twice", S->cur, me().libwhat); return true; }
    g_dead.insert(p); g_fftw.live[CUR()]--; return false;
}
#define FFTW_EXEC(name) extern "C" void name(void *p, void *a, void *b) { static void (*fn)(void *, void *, void *) = nullptr; next_sym(#name, &fn); if (CUR() >= 0 && g_dead.count(p)) { sim_violation(C_FATAL, "process %d in %s: an FFTW plan is executed after its destruction", S->cur, me().libwhat); return; } fn(p, a, b); }
extern "C" void fftw_destroy_plan(void *p) { static void (*fn)(void *) = nullptr; next_sym("fftw_destroy_plan", &fn); if (fftw_gone(p)) return; fn(p); }
extern "C" void fftw_cleanup(void) { if (CUR() >= 0 && g_fftw.live[CUR()] > 0) sim_violation(C_ISOLATION, "process %d in %s: fftw_cleanup() is called while FFTW plans are in use", S->cur, me().libwhat); }
FFTW_EXEC(fftw_execute_dft) FFTW_EXEC(fftw_execute_dft_r2c) FFTW_EXEC(fftw_execute_dft_c2r) FFTW_EXEC(fftw_execute_r2r)
extern "C" void fftwf_destroy_plan(void *p) { static void (*fn)(void *) = nullptr; next_sym("fftwf_destroy_plan", &fn); if (fftw_gone(p)) return; fn(p); }
extern "C" void fftwf_cleanup(void) { if (CUR() >= 0 && g_fftw.live[CUR()] > 0) sim_violation(C_ISOLATION, "process %d in %s: fftw_cleanup() is called while FFTW plans are in use", S->cur, me().libwhat); }
FFTW_EXEC(fftwf_execute_dft) FFTW_EXEC(fftwf_execute_dft_r2c) FFTW_EXEC(fftwf_execute_dft_c2r) FFTW_EXEC(fftwf_execute_r2r)
#define MKL_CREATE(name, sig, args) extern "C" long name sig { static long (*fn) sig = nullptr; next_sym(#name, &fn); if (fft_fails()) return 6; long s = fn args; if (s == 0 && CUR() >= 0) g_mkl.live[CUR()]++; return s; }
MKL_CREATE(DftiCreateDescriptor_s_1d, (void **h, int d, long n), (h, d, n))
MKL_CREATE(DftiCreateDescriptor_d_1d, (void **h, int d, long n), (h, d, n))
MKL_CREATE(DftiCreateDescriptor_s_md, (void **h, int d, long k, long *n), (h, d, k, n))
MKL_CREATE(DftiCreateDescriptor_d_md, (void **h, int d, long k, long *n), (h, d, k, n))
extern "C" long DftiFreeDescriptor(void **h) { static long (*fn)(void **) = nullptr; next_sym("DftiFreeDescriptor", &fn); if (h && *h && CUR() >= 0) g_mkl.live[CUR()]--; return fn(h); }
extern "C" long DftiComputeForward(void *h, void *a, void *b) { static long (*fn)(void *, void *, ...) = nullptr; next_sym("DftiComputeForward", &fn); if (fft_fails()) return 1; return fn(h, a, b); }
extern "C" long DftiComputeBackward(void *h, void *a, void *b) { static long (*fn)(void *, void *, ...) = nullptr; next_sym("DftiComputeBackward", &fn); if (fft_fails()) return 1; return fn(h, a, b); }
extern "C" long DftiCommitDescriptor(void *h) { static long (*fn)(void *) = nullptr; next_sym("DftiCommitDescriptor", &fn); if (fft_fails()) return 6; return fn(h); }

extern "C" void sim_mpi_live(int *comms, int *groups, int *requests);
// at the end of a create/use/destroy cycle: what the library still holds must not grow from cycle to cycle
struct Ck { long long live, cnt, fftw, mkl; int set; }; static Ck g_ck[MAXR];
extern "C" void sim_checkpoint(int tag) {
    NoLib nl; Fiber &f = me(); int c, g, q; sim_mpi_live(&c, &g, &q); int r = S->cur;
    if (c) sim_violation(C_LEAK, "process %d still holds %d communicators of the library after every plan was destroyed", r, c);
    if (g) sim_violation(C_LEAK, "process %d still holds %d groups of the library after every plan was destroyed", r, g);
    if (q) sim_violation(C_LEAK, "process %d still has %d requests of the library after every plan was destroyed", r, q);
    long long da, dp; gpu_live(&da, &dp);
    if (da) sim_violation(C_LEAK, "process %d still holds %lld arrays of the device after every plan was destroyed", r, da);
    if (dp) sim_violation(C_LEAK, "process %d still holds %lld plans of the device after every plan was destroyed", r, dp);
    if (tag == 0) { g_ck[r] = Ck{f.live, f.livecnt, g_fftw.live[r], g_mkl.live[r], 1}; return; }
    if (!g_ck[r].set) return;
    if (g_fftw.live[r] > g_ck[r].fftw) sim_violation(C_LEAK, "process %d: FFTW plans pile up, %lld more after cycle %d than after the first", r, g_fftw.live[r] - g_ck[r].fftw, tag);
    if (g_mkl.live[r] > g_ck[r].mkl) sim_violation(C_LEAK, "process %d: MKL descriptors pile up, %lld more after cycle %d than after the first", r, g_mkl.live[r] - g_ck[r].mkl, tag);
    if (f.live > g_ck[r].live) sim_violation(C_LEAK, "process %d: memory piles up, %lld bytes in %lld allocations more after cycle %d than after the first", r, f.live - g_ck[r].live, f.livecnt - g_ck[r].cnt, tag);
}
