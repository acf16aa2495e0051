/* Plans through the C interface. */
#include "plan.h"
#include <cstring>
#include <memory>
#include <vector>
#include "heffte_config.h"
#include "heffte_c_defines.h"
extern "C" {
int heffte_set_default_options(int, heffte_plan_options *);
int heffte_plan_create(int, int const *, int const *, int const *, int const *, int const *, int const *, MPI_Comm const, heffte_plan_options const *, heffte_plan *);
int heffte_plan_create_r2c(int, int const *, int const *, int const *, int const *, int const *, int const *, int, MPI_Comm const, heffte_plan_options const *, heffte_plan *);
int heffte_plan_destroy(heffte_plan);
int heffte_size_inbox(heffte_plan const); int heffte_size_outbox(heffte_plan const); int heffte_size_workspace(heffte_plan const);
int heffte_get_backend(heffte_plan const); int heffte_is_r2c(heffte_plan const);
void heffte_forward_s2c(heffte_plan const, float const *, void *, int); void heffte_forward_c2c(heffte_plan const, void const *, void *, int);
void heffte_forward_d2z(heffte_plan const, double const *, void *, int); void heffte_forward_z2z(heffte_plan const, void const *, void *, int);
void heffte_forward_s2c_buffered(heffte_plan const, float const *, void *, void *, int); void heffte_forward_c2c_buffered(heffte_plan const, void const *, void *, void *, int);
void heffte_forward_d2z_buffered(heffte_plan const, double const *, void *, void *, int); void heffte_forward_z2z_buffered(heffte_plan const, void const *, void *, void *, int);
void heffte_backward_c2s(heffte_plan const, void const *, float *, int); void heffte_backward_c2c(heffte_plan const, void const *, void *, int);
void heffte_backward_z2d(heffte_plan const, void const *, double *, int); void heffte_backward_z2z(heffte_plan const, void const *, void *, int);
void heffte_backward_c2s_buffered(heffte_plan const, void const *, float *, void *, int); void heffte_backward_c2c_buffered(heffte_plan const, void const *, void *, void *, int);
void heffte_backward_z2d_buffered(heffte_plan const, void const *, double *, void *, int); void heffte_backward_z2z_buffered(heffte_plan const, void const *, void *, void *, int);
}
struct CPlan : PlanObj {
    heffte_plan p = nullptr;
    ~CPlan() override { if (p) { int r = heffte_plan_destroy(p); if (r) sim_violation(C_CAPI, "heffte_plan_destroy returns %d for a valid plan", r); } }
    long long nin() override { return heffte_size_inbox(p); }
    long long nout() override { return heffte_size_outbox(p); }
    long long nwork() override { return heffte_size_workspace(p); }
    void exec(SOp const &o, const void *in, void *out, void *ws) override {
        LibCall lc(-1, o.dir ? "backward (C)" : "forward (C)"); int s = o.scale; // none full symmetric are 0 1 2
        bool buf = o.form == 1; bool real = heffte_is_r2c(p) || o.real;
        if (o.dir == 0) {
            if (real) { if (o.prec) { if (buf) heffte_forward_d2z_buffered(p, (double const *)in, out, ws, s); else heffte_forward_d2z(p, (double const *)in, out, s); }
                        else { if (buf) heffte_forward_s2c_buffered(p, (float const *)in, out, ws, s); else heffte_forward_s2c(p, (float const *)in, out, s); } }
            else { if (o.prec) { if (buf) heffte_forward_z2z_buffered(p, in, out, ws, s); else heffte_forward_z2z(p, in, out, s); }
                   else { if (buf) heffte_forward_c2c_buffered(p, in, out, ws, s); else heffte_forward_c2c(p, in, out, s); } }
        } else {
            if (real) { if (o.prec) { if (buf) heffte_backward_z2d_buffered(p, in, (double *)out, ws, s); else heffte_backward_z2d(p, in, (double *)out, s); }
                        else { if (buf) heffte_backward_c2s_buffered(p, in, (float *)out, ws, s); else heffte_backward_c2s(p, in, (float *)out, s); } }
            else { if (o.prec) { if (buf) heffte_backward_z2z_buffered(p, in, out, ws, s); else heffte_backward_z2z(p, in, out, s); }
                   else { if (buf) heffte_backward_c2c_buffered(p, in, out, ws, s); else heffte_backward_c2c(p, in, out, s); } }
        }
    }
};
#if defined(SIM_ROCM)
static int bid(SPlan const &) { return 11; } // Heffte_BACKEND_ROCFFT
#else
static int bid(SPlan const &s) { return s.backend == BK_CUFFT ? 10 /* Heffte_BACKEND_CUFFT */ : s.backend; }
#endif
static void bx(SBox const &b, int *lo, int *hi, int *od) { for (int d = 0; d < 3; d++) { lo[d] = (int)b.lo[d]; hi[d] = (int)b.hi[d]; od[d] = b.order[d]; } }
static int create(int backend, SPlan const &s, SBox const &in, SBox const &out, MPI_Comm comm, heffte_plan_options const *opt, heffte_plan *plan) {
    int il[3], ih[3], io[3], ol[3], oh[3], oo[3]; bx(in, il, ih, io); bx(out, ol, oh, oo);
    bool noi = s.ctor >= 1 && io[0] == 0 && io[1] == 1 && io[2] == 2, noo = s.ctor <= 1 && oo[0] == 0 && oo[1] == 1 && oo[2] == 2; // no order stands for 0, 1, 2
    LibCall lc(-1, "the construction of a plan (C)");
    if (s.type == PT_R2C) return heffte_plan_create_r2c(backend, il, ih, noi ? nullptr : io, ol, oh, noo ? nullptr : oo, s.r2cdir, comm, opt, plan);
    return heffte_plan_create(backend, il, ih, noi ? nullptr : io, ol, oh, noo ? nullptr : oo, comm, opt, plan);
}
static void options(SPlan const &s, heffte_plan_options *opt) {
    memset(opt, 0x5a, sizeof *opt);
    { LibCall lc(-1, "heffte_set_default_options"); int r = heffte_set_default_options(bid(s), opt); if (r) sim_violation(C_CAPI, "heffte_set_default_options returns %d for a backend that is enabled", r); }
    if (opt->use_gpu_aware == 0x5a5a5a5a || opt->use_reorder == 0x5a5a5a5a || opt->algorithm == 0x5a5a5a5a || opt->use_pencils == 0x5a5a5a5a)
        sim_violation(C_CAPI, "heffte_set_default_options leaves a field of the options without a value");
    if (!s.defopts) { opt->use_reorder = s.reorder; opt->algorithm = s.alg; opt->use_pencils = s.pencils; opt->use_gpu_aware = s.gpuaware; }
}
PlanObj *make_capi(SPlan const &s, SBox const &in, SBox const &out, MPI_Comm comm) {
    heffte_plan_options opt; options(s, &opt);
    std::unique_ptr<CPlan> o(new CPlan); heffte_plan h = (heffte_plan)(uintptr_t)0x1000;
    int r = 0;
    try { r = create(bid(s), s, in, out, comm, (s.defopts && s.ctor == 1) ? nullptr : &opt, &h); }
    catch (std::exception &e) { sim_violation(sim_faulted() ? C_ALLOC : C_CAPI, "a C++ exception leaves the C interface: %s", e.what()); return nullptr; }
    if (r) { sim_note((uint64_t)r); return nullptr; }
    o->p = h;
    if (heffte_get_backend(h) != bid(s)) sim_violation(C_CAPI, "heffte_get_backend reports %d for a plan of backend %d", heffte_get_backend(h), s.backend);
    if (heffte_is_r2c(h) != (s.type == PT_R2C)) sim_violation(C_CAPI, "heffte_is_r2c reports %d", heffte_is_r2c(h));
    return o.release();
}
// documented error returns; the plan handle must not be left dangling
void capi_errors(int op, SOp const &o, MPI_Comm comm) {
    SPlan const &s = sim_scenario()->plans[o.plan]; int cr = sim_comm_rank_of(s.comm); (void)op;
    size_t before = sim_lib_live(); heffte_plan h = nullptr; heffte_plan_options opt; options(s, &opt); int r = -1;
    sim_probe(PR_CAPI_ERR);
    try {
        switch (o.a) {
        case 0: r = create(o.b, s, s.in[cr], s.out[cr], comm, &opt, &h); // a backend that does not exist
            if (r != 1) sim_violation(C_CAPI, "plan creation returns %d, not 1, for the invalid backend %d", r, o.b); break;
        case 1: { heffte_plan_options q; r = heffte_set_default_options(o.b, &q); if (r != 1) sim_violation(C_CAPI, "heffte_set_default_options returns %d, not 1, for the invalid backend %d", r, o.b); break; }
        case 2: opt.algorithm = o.b; r = create(bid(s), s, s.in[cr], s.out[cr], comm, &opt, &h);
            if (r == 0) sim_violation(C_CAPI, "plan creation accepts the invalid algorithm %d", o.b); break;
        case 3: r = create(bid(s), s, s.in[cr], s.out[cr], comm, &opt, &h); // geometry is illegal
            if (r == 0) sim_violation(C_CAPI, "plan creation accepts boxes that do not partition the index space"); break;
        }
    } catch (std::exception &e) { sim_violation(C_CAPI, "a C++ exception leaves the C interface: %s", e.what()); return; }
    sim_note((uint64_t)r);
    if (r != 0 && o.a != 1 && h != nullptr) sim_violation(C_CAPI, "plan creation fails with %d and leaves a dangling handle", r);
    if (sim_lib_live() > before) sim_violation(C_CAPI, "failed plan creation through the C interface keeps %zu bytes", sim_lib_live() - before);
}
