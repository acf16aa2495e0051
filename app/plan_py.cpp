/* Plans through the Python interface (python/heffte.py): the driver in app/drive.py makes the calls. */
#include "plan.h"
#include "../sim/pyapi.h"
#include "heffte_config.h"
#include "heffte_c_defines.h"
#include <memory>
#include <vector>
#include <cstring>
static long long call(const char *fn, std::vector<long long> const &a, char *err, size_t n) { return sim_py()->call(sim_rank(), fn, a.data(), (int)a.size(), err, n); }
static void put(std::vector<long long> &v, SBox const &b) { for (int d = 0; d < 3; d++) v.push_back(b.lo[d]); for (int d = 0; d < 3; d++) v.push_back(b.hi[d]); for (int d = 0; d < 3; d++) v.push_back(b.order[d]); }
static int next_id[64];
struct YPlan : PlanObj {
    long long id = -1; bool r2c = false;
    ~YPlan() override { if (id >= 0) { char e[2000]; if (call("destroy", {id}, e, sizeof e)) sim_violation(C_CAPI, "the release of a plan in Python: %s", e); } }
    long long size(int w) { char e[2000]; long long n = call("size", {id, w}, e, sizeof e); if (n < 0) sim_violation(C_SIZE, "a size in Python: %s", e); return n; }
    long long nin() override { return size(0); }
    long long nout() override { return size(1); }
    long long nwork() override { return size(2); }
    void exec(SOp const &o, const void *in, void *out, void *ws) override {
        long long a = nin(), b = nout(), w = nwork(); int real = o.prec, cx = 2 + o.prec, side = (r2c || o.real) ? real : cx; if (o.dir) std::swap(a, b);
        char e[2000]; long long r;
        { LibCall lc(-1, o.dir ? "backward (Python)" : "forward (Python)");
          r = call("run", {id, o.dir, o.form & 1, o.scale, (long long)in, a, o.dir ? cx : side, (long long)out, b, o.dir ? side : cx, (long long)ws, w, cx, (long long)(o.seed >> 6)}, e, sizeof e); }
        if (r) throw std::runtime_error(e);
    }
};
PlanObj *make_py(SPlan const &s, SBox const &in, SBox const &out, MPI_Comm comm) {
    std::unique_ptr<YPlan> p(new YPlan); p->r2c = s.type == PT_R2C; long long id = next_id[sim_rank()]++; int cr, cs; MPI_Comm_rank(comm, &cr); MPI_Comm_size(comm, &cs); // a copy of this file for every process
    std::vector<long long> v{id, s.type == PT_R2C, s.r2cdir, s.backend, (long long)comm, cr, cs, (long long)(sim_scenario()->dataseed >> 3 & 0xffff) + s.ctor}; put(v, in); put(v, out);
    char e[2000]; long long r; if (!id && call("layout", {(long long)sizeof(heffte_plan_options)}, e, sizeof e)) sim_violation(C_CAPI, "%s", e);
    { LibCall lc(-1, "the construction of a plan (Python)"); r = call("create", v, e, sizeof e); }
    if (r == 1) return nullptr;
    if (r) { sim_violation(s.invalid ? C_REJECT : C_CAPI, "the construction of a plan in Python: %s", e); return nullptr; }
    p->id = id; return p.release();
}
void py_refuse(PlanObj *p, SOp const &o, SPlan const &s) {
    YPlan *y = dynamic_cast<YPlan *>(p); if (!y) return; char e[2000]; long long r; sim_probe(PR_CAPI_ERR);
    { LibCall lc(-1, "a call that Python has to refuse"); r = call("refuse", {y->id, o.a, (long long)o.seed, s.type == PT_R2C}, e, sizeof e); }
    if (r) sim_violation(C_CAPI, "%s", e);
}
void py_badplan(SPlan const &s, SBox const &in, SBox const &out, SOp const &o, MPI_Comm comm) {
    int cr, cs; MPI_Comm_rank(comm, &cr); MPI_Comm_size(comm, &cs); std::vector<long long> v{o.a == 20 ? 0 : 1, o.b, s.type == PT_R2C, s.r2cdir, (long long)comm, cr, cs}; put(v, in); put(v, out);
    char e[2000]; long long r; size_t before = sim_lib_live(); sim_probe(PR_CAPI_ERR);
    { LibCall lc(-1, "the construction of a plan that Python has to refuse"); r = call("badplan", v, e, sizeof e); }
    if (r) sim_violation(C_CAPI, "%s", e); else if (sim_lib_live() > before) sim_violation(C_LEAK, "a refused construction in Python keeps %zu bytes", sim_lib_live() - before);
}
// the boxes of the documented recipe; empty ones are allowed
bool py_recipe(long long const *lo, long long const *hi, int order, int n, int *grid, std::vector<SBox> &v) {
    std::vector<long long> out(6 * n + 4, 0), a{n, (long long)out.data(), order}; for (int d = 0; d < 3; d++) a.push_back(lo[d]); for (int d = 0; d < 3; d++) a.push_back(hi[d]);
    char e[2000]; if (call("recipe", a, e, sizeof e)) { sim_violation(C_RECIPE, "proc_setup() and split_world() in Python: %s", e); return false; }
    v.assign(n, SBox()); for (int d = 0; d < 3; d++) grid[d] = (int)out[1 + d]; if (out[0] != n) { sim_violation(C_RECIPE, "split_world() in Python gives %lld boxes for %d processes", out[0], n); return false; }
    for (int k = 0; k < n; k++) for (int d = 0; d < 3; d++) { v[k].lo[d] = out[4 + 6 * k + d]; v[k].hi[d] = out[4 + 6 * k + 3 + d]; }
    return true;
}
