/* Plans through the Fortran interface: the modules of the repository, driven by app/fortran.f90.in. */
#include "plan.h"
#include <memory>
#include <cmath>
#define DECL(B) extern "C" { void *vf_##B##_new(int); void vf_##B##_free(void *); void vf_##B##_create(void *, int, int const *, int const *, int const *, int const *, int const *, int const *, int, int, int, int, int); \
    void vf_##B##_alias(void *, int); void vf_##B##_release(void *); long long vf_##B##_size(void *, int); double vf_##B##_factor(void *, int); \
    void vf_##B##_exec(void *, int, int, int, int, int, int, size_t, size_t, size_t, const void *, void *, void *); }
DECL(stock) DECL(fftw) DECL(mkl)
struct FortApi { decltype(&vf_stock_new) mk; decltype(&vf_stock_free) fr; decltype(&vf_stock_create) create; decltype(&vf_stock_alias) alias; decltype(&vf_stock_release) release;
    decltype(&vf_stock_size) size; decltype(&vf_stock_factor) factor; decltype(&vf_stock_exec) exec; };
#define ROW(B) {vf_##B##_new, vf_##B##_free, vf_##B##_create, vf_##B##_alias, vf_##B##_release, vf_##B##_size, vf_##B##_factor, vf_##B##_exec}
static const FortApi api[3] = {ROW(stock), ROW(fftw), ROW(mkl)};
struct FPlan : PlanObj {
    FortApi const *f; void *h; int moves = 0; bool r2c = false;
    ~FPlan() override { if (!h) return; f->alias(h, 2); f->release(h); if (moves & 1) f->release(h); f->fr(h); } // giving a plan up twice is harmless
    long long nin() override { return f->size(h, 0); }
    long long nout() override { return f->size(h, 1); }
    long long nwork() override { if (f->size(h, 3) < 0) sim_violation(C_SIZE, "size_comm_buffers() is negative in Fortran"); return f->size(h, 2); }
    void exec(SOp const &o, const void *in, void *out, void *ws) override {
        LibCall lc(-1, o.dir ? "backward (Fortran)" : "forward (Fortran)"); int nb = o.form >= 2 ? o.batch : 1; bool unscaled = o.scale == 0 && (o.seed & 64);
        long long a = (o.dir ? nout() : nin()) * nb, b = (o.dir ? nin() : nout()) * nb;
        f->exec(h, o.dir, o.prec, o.real || r2c, o.form, unscaled ? -1 : o.scale, o.batch, (size_t)a, (size_t)b, (size_t)(nwork() * nb), in, out, ws);
    }
    bool move() override { f->alias(h, moves % 3 == 1 ? 1 : moves % 3 == 2 ? 2 : 0); moves++; return true; } // a second name for the plan, the plan assigned to itself, the second name given up
};
PlanObj *make_fort(SPlan const &s, SBox const &in, SBox const &out, MPI_Comm comm) {
    int il[3], ih[3], ol[3], oh[3]; bool d0 = true; for (int d = 0; d < 3; d++) { il[d] = (int)in.lo[d]; ih[d] = (int)in.hi[d]; ol[d] = (int)out.lo[d]; oh[d] = (int)out.hi[d]; d0 = d0 && in.order[d] == d && out.order[d] == d; }
    int form = !s.defopts ? 2 : d0 && s.ctor != 1 ? 0 : 1; std::unique_ptr<FPlan> p(new FPlan); p->f = &api[s.backend]; p->h = p->f->mk(s.type == PT_R2C); p->r2c = s.type == PT_R2C;
    { LibCall lc(-1, "the construction of a plan (Fortran)"); MPI_Fint fc = MPI_Comm_c2f(comm);
      for (int i = 0; i < (s.ctor == 2 ? 2 : 1); i++) p->f->create(p->h, form, il, ih, in.order, ol, oh, out.order, s.r2cdir, fc, s.reorder, s.alg, s.pencils); } // a new plan assigned to a variable replaces the old one
    double n = (double)s.count(), full = p->f->factor(p->h, 1), sym = p->f->factor(p->h, 2);
    if (std::fabs(full * n - 1) > 1e-12 || std::fabs(sym * sym * n - 1) > 1e-12) sim_violation(C_SIZE, "get_scale_factor() gives %.17g and %.17g in Fortran for an index space of %.0f indexes", full, sym, n);
    return p.release();
}
