/* The program every simulated process runs: carries out the operations of the scenario. */
#include "plan_impl.h"
#include <fstream>
#include <map>
#include <sstream>
#include <typeinfo>
#include <algorithm>
#include <cmath>

#ifndef SIM_GPU
typedef backend::stock RTAG;
PlanObj *make_stock(SPlan const &s, int i, SBox const &a, SBox const &b, MPI_Comm c, MPI_Comm sub) { return i ? make_fft_impl<0, 1>(s, a, b, c, sub) : make_fft_impl<0, 0>(s, a, b, c, sub); }
PlanObj *make_fftw(SPlan const &s, int i, SBox const &a, SBox const &b, MPI_Comm c, MPI_Comm sub) { return i ? make_fft_impl<1, 1>(s, a, b, c, sub) : make_fft_impl<1, 0>(s, a, b, c, sub); }
PlanObj *make_mkl(SPlan const &s, int i, SBox const &a, SBox const &b, MPI_Comm c, MPI_Comm sub) { return i ? make_fft_impl<2, 1>(s, a, b, c, sub) : make_fft_impl<2, 0>(s, a, b, c, sub); }
PlanObj *make_r2r(SPlan const &s, int i, SBox const &a, SBox const &b, MPI_Comm c, MPI_Comm sub) {
    if (s.backend == BK_STOCK) return i ? make_r2r_impl<0, 1>(s, a, b, c, sub) : make_r2r_impl<0, 0>(s, a, b, c, sub);
    if (s.backend == BK_FFTW) return i ? make_r2r_impl<1, 1>(s, a, b, c, sub) : make_r2r_impl<1, 0>(s, a, b, c, sub);
    return i ? make_r2r_impl<2, 1>(s, a, b, c, sub) : make_r2r_impl<2, 0>(s, a, b, c, sub);
}
#else
#ifdef SIM_SYCL
typedef backend::onemkl RTAG;
#elif defined(SIM_ROCM)
typedef backend::rocfft RTAG;
#else
typedef backend::cufft RTAG;
#endif
PlanObj *make_stock(SPlan const &, int, SBox const &, SBox const &, MPI_Comm, MPI_Comm) { return nullptr; }
PlanObj *make_fftw(SPlan const &, int, SBox const &, SBox const &, MPI_Comm, MPI_Comm) { return nullptr; }
PlanObj *make_mkl(SPlan const &, int, SBox const &, SBox const &, MPI_Comm, MPI_Comm) { return nullptr; }
PlanObj *make_r2r(SPlan const &, int, SBox const &, SBox const &, MPI_Comm, MPI_Comm) { return nullptr; }
PlanObj *make_py(SPlan const &, SBox const &, SBox const &, MPI_Comm) { return nullptr; }
PlanObj *make_fort(SPlan const &, SBox const &, SBox const &, MPI_Comm) { return nullptr; }
void py_refuse(PlanObj *, SOp const &, SPlan const &) {}
void py_badplan(SPlan const &, SBox const &, SBox const &, SOp const &, MPI_Comm) {}
bool py_recipe(long long const *, long long const *, int, int, int *, std::vector<SBox> &) { return false; }
#endif
template<class I> struct Reshape : PlanObj {
    std::unique_ptr<reshape3d_base<I>> p; long long a = 0, b = 0;
    long long nin() override { if (p && p->size_intput() != a) return p->size_intput(); return a; }
    long long nout() override { if (p && p->size_output() != b) return p->size_output(); return b; }
    long long nwork() override { return p ? (long long)p->size_workspace() : 0; }
    void exec(SOp const &o, const void *in, void *out, void *ws) override {
        size_t e = o.prec == 0 ? 4 : o.prec == 3 ? 16 : 8;
#ifdef SIM_SYCL
        if (!p) { SIM_STREAM.memcpy(out, in, (size_t)(a * o.batch) * e).wait(); return; }
#elif defined(SIM_GPU)
        if (!p) { cudaMemcpyAsync(out, in, (size_t)(a * o.batch) * e, cudaMemcpyDeviceToDevice, SIM_STREAM); return; }
#endif
        if (!p) { memcpy(out, in, (size_t)(a * o.batch) * e); return; }
        LibCall lc(-1, "a redistribution");
        switch (o.prec) { case 0: p->apply(o.batch, (float const *)in, (float *)out, (float *)ws); break; case 1: p->apply(o.batch, (double const *)in, (double *)out, (double *)ws); break;
            case 2: p->apply(o.batch, (std::complex<float> const *)in, (std::complex<float> *)out, (std::complex<float> *)ws); break;
            default: p->apply(o.batch, (std::complex<double> const *)in, (std::complex<double> *)out, (std::complex<double> *)ws); }
    }
};
template<class I> PlanObj *reshape_of(SPlan const &s, MPI_Comm comm, int me) {
    std::unique_ptr<Reshape<I>> o(new Reshape<I>); std::vector<box3d<I>> in, out;
    for (auto &b : s.in) in.push_back(to_box<I>(b));
    for (auto &b : s.out) out.push_back(to_box<I>(b));
    o->a = s.in[me].count(); o->b = s.out[me].count();
    { LibCall lc(-1, "the construction of a redistribution"); o->p = make_reshape3d<RTAG, I>(SIM_STREAM, in, out, comm, to_options<RTAG>(s, MPI_COMM_NULL, false)); }
    return o.release();
}
PlanObj *make_reshape(SPlan const &s, MPI_Comm comm, int me) { return s.idx64 ? reshape_of<long long>(s, comm, me) : reshape_of<int>(s, comm, me); }

static Scenario const *sc;

// the most square factorisation, as an outside fact: may a grid of n processes be impossible for these sizes?
static bool too_small(SPlan const &p, int n) {
    int a = 1; for (int i = 1; i * i <= n; i++) if (n % i == 0) a = i;
    int b = n / a; long long w[3];
    for (int v = 0; v < 2; v++) for (int d = 0; d < 3; d++) {
        for (int k = 0; k < 3; k++) w[k] = v ? p.cworld(k) : p.world[k];
        long long x = w[(d + 1) % 3], y = w[(d + 2) % 3];
        if (!((a <= x && b <= y) || (b <= x && a <= y))) return true;
    }
    return false;
}
static MPI_Comm subcomm_of(SPlan const &s) { return s.subcomm >= 0 ? sim_comm(s.subcomm) : MPI_COMM_NULL; }
static int computing(SPlan const &p) { int n = (int)p.in.size(); return p.subranks > 0 && p.subranks < n ? p.subranks : n; }
template<class I> static void plan_logic(int op, SOp const &o, int at = -1, std::vector<long long> *keep = nullptr) {
    SPlan const &s = sc->plans[o.plan]; int cr = at >= 0 ? at : sim_comm_rank_of(s.comm); int n = (int)s.in.size();
    if (o.a && at < 0) { // more processes than can be simulated: the planner needs only their boxes
        std::vector<long long> first, other; plan_logic<I>(op, o, 0, &first); sim_probe(PR_RECIPE);
        for (int k = 1; k < std::min(n, 12); k++) { int r = k == 1 ? n - 1 : n < 13 ? k - 1 : (int)((sc->dataseed * 2654435761u + 40503u * k) % n); other.clear(); plan_logic<I>(op, o, r, &other); if (other != first) sim_violation(C_PLAN, "processes 0 and %d of %d derive different plans", r, n); }
        sim_stage(op, 1, first.data(), first.size() * sizeof first[0]); return; }
    ioboxes<I> bx; for (auto &b : s.in) bx.in.push_back(to_box<I>(b)); for (auto &b : s.out) bx.out.push_back(to_box<I>(b));
    #ifdef SIM_GPU
    plan_options opt = to_options<RTAG>(s, subcomm_of(s), s.subcomm >= 0);
#else
    plan_options opt = s.backend == BK_STOCK ? to_options<backend::stock>(s, subcomm_of(s), s.subcomm >= 0) : s.backend == BK_FFTW ? to_options<backend::fftw>(s, subcomm_of(s), s.subcomm >= 0) : to_options<backend::mkl>(s, subcomm_of(s), s.subcomm >= 0);
#endif
    std::vector<long long> flat;
    try {
        sim_lib_enter(op, "plan_operations");
        auto gathered = at >= 0 ? bx : heffte::mpi::gather_boxes(to_box<I>(s.in[cr]), to_box<I>(s.out[cr]), sim_comm(s.comm));
        auto lp = plan_operations<I>(gathered, s.type == PT_R2C ? s.r2cdir : -1, opt, cr);
        sim_lib_leave();
        for (int d = 0; d < 3; d++) { flat.push_back(lp.fft_direction[d]); flat.push_back(lp.fft_sizes[d]); }
        flat.push_back(lp.index_count);
        int bad = 0; const char *why = "";
        for (int k = 0; k < n; k++) { if (!(gathered.in[k] == bx.in[k]) || !(gathered.out[k] == bx.out[k])) { bad = 1; why = "the gathered boxes are not the boxes of the processes"; } }
        bool dirs[3] = {false, false, false}; for (int d = 0; d < 3; d++) if (lp.fft_direction[d] >= 0 && lp.fft_direction[d] < 3) dirs[lp.fft_direction[d]] = true;
        if (!(dirs[0] && dirs[1] && dirs[2])) { bad = 1; why = "not every direction is transformed exactly once"; }
        for (int d = 0; d < 3; d++) if (lp.fft_sizes[d] != s.world[d]) { bad = 1; why = "the sizes of the transforms are not the sizes of the index space"; }
        if (lp.index_count != s.world[0] * s.world[1] * s.world[2]) { bad = 1; why = "the number of indexes (the scaling) is wrong"; }
        if (s.type == PT_R2C && lp.fft_direction[0] != s.r2cdir) { bad = 1; why = "the real direction is not transformed first"; }
        for (int st = 0; st < 4; st++) {
            for (int side = 0; side < 2; side++) {
                auto &v = side ? lp.out_shape[st] : lp.in_shape[st];
                if ((int)v.size() != n) { bad = 1; why = "a stage does not give a box to every process"; continue; }
                // after the first transform of a real plan the index space is the shortened one
                bool shortw = s.type == PT_R2C && (st > 1 || (st == 1)) ;
                long long tot = 0, want = 1; long long w[3];
                for (int d = 0; d < 3; d++) { w[d] = shortw ? s.cworld(d) : s.world[d]; want *= w[d]; }
                for (int k = 0; k < n; k++) {
                    auto &b = v[k]; tot += b.count(); for (int d = 0; d < 3; d++) { flat.push_back(b.low[d]); flat.push_back(b.high[d]); flat.push_back(b.order[d]); }
                    if (b.empty()) continue;
                    for (int d = 0; d < 3; d++) if (b.low[d] < 0 || b.high[d] >= w[d]) { bad = 1; why = "a stage has a box outside the index space"; }
                    for (int j = 0; j < k; j++) { bool ov = !v[j].empty(); for (int d = 0; d < 3; d++) ov = ov && v[j].low[d] <= b.high[d] && b.low[d] <= v[j].high[d]; if (ov) { bad = 1; why = "two boxes of a stage overlap"; } }
                    if (side == 1 && st < 3) { int fd = lp.fft_direction[st]; if (b.low[fd] != 0 || b.high[fd] != w[fd] - 1) { bad = 1; why = "the transformed direction of a stage is not complete in a box"; } }
                }
                if (tot != want) { bad = 1; why = "the boxes of a stage do not cover the index space"; }
            }
        }
        for (int k = 0; k < n && !bad; k++) {
            if (lp.in_shape[0][k] != bx.in[k] || lp.out_shape[3][k] != bx.out[k]) { bad = 1; why = "the plan does not start and end with the boxes of the user"; }
            for (int st = 0; st < 3; st++) { if (s.type == PT_R2C && st == 0) continue; if (lp.out_shape[st][k] != lp.in_shape[st + 1][k] && !(lp.out_shape[st][k].empty() && lp.in_shape[st + 1][k].empty())) { bad = 1; why = "a stage does not start where the one before ended"; } }
        }
        if (bad) sim_violation(C_PLAN, "process %d: %s (operation %d)", cr, why, op);
        std::vector<char> may(n, 1); // who may compute
        if (s.subcomm >= 0) { auto const &pm = sc->comms[s.comm].members; auto const &sm = sc->comms[s.subcomm].members; for (int k = 0; k < n; k++) may[k] = std::find(sm.begin(), sm.end(), pm[k]) != sm.end(); }
        else if (s.subranks > 0) for (int k = s.subranks; k < n; k++) may[k] = 0;
        if (std::count(may.begin(), may.end(), 0)) for (int st = 0; st < 3; st++) {
            // a stage may keep the distribution of the user (pencils or slabs that need no reshape), otherwise only the first ranks hold data
            auto same = [&](std::vector<box3d<I>> const &u, bool cut) { for (int k = 0; k < n; k++) { auto x = u[k], y = lp.out_shape[st][k]; if (x.empty() && y.empty()) continue; for (int d = 0; d < 3; d++) { I hi = x.high[d]; if (cut && d == s.r2cdir) hi = x.low[d] + (x.high[d] - x.low[d] + 1) / 2; if (x.low[d] != y.low[d] || hi != y.high[d]) return false; } } return true; };
            if (same(bx.in, false) || same(bx.out, false) || (s.type == PT_R2C && same(bx.in, true))) continue;
            for (int k = 0; k < n; k++) if (!may[k] && !lp.out_shape[st][k].empty()) { sim_violation(C_SUBRANK, "transforms are planned on process %d, which is not in the chosen subset of %d processes", k, (int)std::count(may.begin(), may.end(), 1)); break; }
        }
        if (keep) *keep = flat; else sim_stage(op, 1, flat.data(), flat.size() * sizeof flat[0]);
    } catch (std::exception &e) {
        sim_lib_leave();
        std::string t = e.what(); if (keep) *keep = {-1}; else sim_stage(op, 2, t.data(), t.size());
        if (!s.invalid && !too_small(s, computing(s))) sim_violation(C_PLAN, "a legal geometry is rejected: %s", e.what());
    }
}
static void recipe_boxes(box3d<> const &world, std::array<int, 3> const &g, std::vector<box3d<>> const &v, int n) {
    long long tot = 0;
    if (g[0] * g[1] * g[2] != n) { sim_violation(C_RECIPE, "the process grid %d x %d x %d is not a grid of %d processes", g[0], g[1], g[2], n); }
    if ((int)v.size() != n) sim_violation(C_RECIPE, "%zu boxes for %d processes", v.size(), n);
    for (int k = 0; k < (int)v.size(); k++) { tot += v[k].count(); if (v[k].empty()) sim_violation(C_RECIPE, "box %d is empty", k);
        for (int d = 0; d < 3; d++) if (v[k].low[d] < world.low[d] || v[k].high[d] > world.high[d]) sim_violation(C_RECIPE, "box %d leaves the world", k);
        for (int j = 0; j < k; j++) if (!v[k].collide(v[j]).empty()) sim_violation(C_RECIPE, "boxes %d and %d overlap", j, k); }
    if (tot != world.count()) sim_violation(C_RECIPE, "the boxes hold %lld of %lld indexes", tot, world.count());
}
// the recipe for any number of processes, without running them
template<class I> static void recipe_large(uint64_t h) {
    auto next = [&](int lo, int hi) { h = h * 6364136223846793005ull + 1442695040888963407ull; return lo + (int)((h >> 33) % (uint64_t)(hi - lo + 1)); };
    bool two = next(0, 2) == 0; int n = two ? 1 << next(1, 9) : next(1, next(0, 3) ? 64 : 420); std::array<I, 3> hi; I w[3];
    for (int d = 0; d < 3; d++) { w[d] = two ? (I)1 << next(0, 9) : (I)next(1, next(0, 1) ? 12 : 1000); hi[d] = w[d] - 1; }
    double best = -1; bool any = false; auto area = [&](int a, int b, int c) { double x = (double)w[0] / a, y = (double)w[1] / b, z = (double)w[2] / c; return x * y + y * z + z * x; };
    for (int a = 1; a <= n; a++) if (n % a == 0 && a <= w[0]) for (int b = 1; b <= n / a; b++) if ((n / a) % b == 0 && b <= w[1] && n / a / b <= w[2]) { any = true; double x = area(a, b, n / a / b); if (best < 0 || x < best) best = x; }
    if (!any) return;
    box3d<I> world({0, 0, 0}, hi); std::vector<box3d<I>> v; std::array<int, 3> g;
    { LibCall lc(-1, "the documented recipe for boxes"); g = proc_setup_min_surface(world, n); v = split_world(world, g); }
    long long tot = 0; const char *bad = nullptr; if ((long long)g[0] * g[1] * g[2] != n || (int)v.size() != n) bad = "the grid has the wrong number of processes";
    for (int k = 0; k < (int)v.size() && !bad; k++) { tot += v[k].count(); if (v[k].empty()) bad = "a box is empty"; for (int d = 0; d < 3; d++) if (v[k].low[d] < 0 || v[k].high[d] >= w[d]) bad = "a box leaves the world"; for (int j = 0; j < k; j++) if (!v[k].collide(v[j]).empty()) bad = "two boxes overlap"; }
    if (!bad && tot != (long long)w[0] * w[1] * w[2]) bad = "the boxes do not cover the world";
    if (!bad && two && area(g[0], g[1], g[2]) > best * 1.0001) bad = "another grid has a smaller surface"; // every grid divides the world evenly: no rounding to argue about
    if (bad) sim_violation(C_RECIPE, "%s: world %lld x %lld x %lld, %d processes, grid %d x %d x %d", bad, (long long)w[0], (long long)w[1], (long long)w[2], n, g[0], g[1], g[2]);
}
static void recipe_python(SPlan &s, int pi) {
    int n = (int)s.in.size(), cr = sim_comm_rank_of(s.comm); uint64_t h = sc->dataseed; sim_probe(PR_RECIPE);
    for (int side = 0; side < 2; side++) for (int mv = 1; mv >= 0; mv--) {
        long long lo[3], hi[3]; for (int d = 0; d < 3; d++) { lo[d] = mv ? (long long)(h >> (8 + 8 * d) & 127) - 40 : 0; hi[d] = lo[d] + (side ? s.cworld(d) : s.world[d]) - 1; }
        int g[3]; std::vector<SBox> v; if (!py_recipe(lo, hi, (int)(h >> 33) % 3, n, g, v)) return;
        long long tot = 0; if ((long long)g[0] * g[1] * g[2] != n) sim_violation(C_RECIPE, "proc_setup() in Python: %d x %d x %d is not a grid of %d processes", g[0], g[1], g[2], n);
        for (int k = 0; k < n; k++) { tot += v[k].count(); if (v[k].empty()) continue;
            for (int d = 0; d < 3; d++) if (v[k].lo[d] < lo[d] || v[k].hi[d] > hi[d]) sim_violation(C_RECIPE, "split_world() in Python: box %d leaves the world", k);
            for (int j = 0; j < k; j++) { bool ov = !v[j].empty(); for (int d = 0; d < 3; d++) ov = ov && v[j].lo[d] <= v[k].hi[d] && v[k].lo[d] <= v[j].hi[d]; if (ov) sim_violation(C_RECIPE, "split_world() in Python: boxes %d and %d overlap", j, k); } }
        if (tot != (hi[0] - lo[0] + 1) * (hi[1] - lo[1] + 1) * (hi[2] - lo[2] + 1)) sim_violation(C_RECIPE, "split_world() in Python: the boxes hold %lld indexes", tot);
        if (!mv) { SBox b = v[cr]; for (int d = 0; d < 3; d++) b.order[d] = (side ? s.out : s.in)[cr].order[d]; sim_set_box(pi, side, cr, &b); (side ? s.out : s.in)[cr] = b; }
    }
}
static void recipe(int op, SPlan &s, int pi) {
    if (s.capi == 3) return recipe_python(s, pi);
    int n = (int)s.in.size(), cr = sim_comm_rank_of(s.comm); sim_probe(PR_RECIPE); (void)op;
    if (cr == 0) { recipe_large<int>(sc->dataseed + 1); recipe_large<long long>(sc->dataseed + 2); }
    for (int side = 0; side < 2; side++) {
        box3d<> world({0, 0, 0}, {(int)(side ? s.cworld(0) : s.world[0]) - 1, (int)(side ? s.cworld(1) : s.world[1]) - 1, (int)(side ? s.cworld(2) : s.world[2]) - 1});
        std::vector<box3d<>> v; std::array<int, 3> g;
        { LibCall lc(-1, "the documented recipe for boxes"); g = proc_setup_min_surface(world, n); v = split_world(world, g); }
        // a world that does not start at zero is split the same way
        std::array<int, 3> at{0, 0, 0}; uint64_t h = sc->dataseed; if (h & 1) for (int d = 0; d < 3; d++) at[d] = (int)(h >> (8 + 8 * d) & 127) - 40;
        box3d<> moved({at[0], at[1], at[2]}, {at[0] + world.high[0], at[1] + world.high[1], at[2] + world.high[2]}); std::vector<box3d<>> mv; std::array<int, 3> mg;
        { LibCall lc(-1, "the documented recipe for boxes"); mg = proc_setup_min_surface(moved, n); mv = split_world(moved, mg); }
        recipe_boxes(world, g, v, n); recipe_boxes(moved, mg, mv, n);
        SBox b = from_box(v[cr]); sim_set_box(pi, side, cr, &b); if (side == 0) s.in[cr] = b; else s.out[cr] = b;
        std::vector<int> f; for (auto &x : v) for (int d = 0; d < 3; d++) { f.push_back(x.low[d]); f.push_back(x.high[d]); }
        sim_stage(op, 10 + side, f.data(), f.size() * sizeof(int));
    }
}
static size_t esize(SPlan const &p, SOp const &o, bool inside) { // bytes per entry on one side
    if (p.type == PT_RESHAPE) return o.prec == 0 ? 4 : o.prec == 3 ? 16 : 8;
    size_t r = o.prec ? 8 : 4; bool real;
    if (p.type == PT_C2C) real = inside && o.real; else if (p.type == PT_R2C) real = inside; else real = true;
    return real ? r : 2 * r;
}
static size_t wsize(SPlan const &p, SOp const &o) { if (p.type == PT_RESHAPE) return esize(p, o, true); size_t r = o.prec ? 8 : 4; return p.type <= PT_R2C ? 2 * r : r; }
struct State { std::vector<PlanObj *> plan; std::vector<int> rejected; std::vector<long long> work; std::string trace; std::map<std::string, std::pair<long, long>> traced; double since = 0; };

static PlanObj *build(SPlan const &s, int cr, MPI_Comm comm) {
#ifdef SIM_GPU
    return make_dev(s, s.in[cr], s.out[cr], cr, comm, subcomm_of(s));
#endif
    if (s.type == PT_RESHAPE) return make_reshape(s, comm, cr);
    if (s.capi == 3) return make_py(s, s.in[cr], s.out[cr], comm);
    if (s.capi == 2) return make_fort(s, s.in[cr], s.out[cr], comm);
    if (s.capi) return make_capi(s, s.in[cr], s.out[cr], comm);
    MPI_Comm sub = subcomm_of(s);
    if (s.type >= PT_COS) return make_r2r(s, s.idx64, s.in[cr], s.out[cr], comm, sub);
    if (s.backend == BK_STOCK) return make_stock(s, s.idx64, s.in[cr], s.out[cr], comm, sub);
    if (s.backend == BK_FFTW) return make_fftw(s, s.idx64, s.in[cr], s.out[cr], comm, sub);
    return make_mkl(s, s.idx64, s.in[cr], s.out[cr], comm, sub);
}
static void check_sizes(SPlan const &s, PlanObj *p, int cr, int op) {
    if (p->nin() != s.in[cr].count()) sim_violation(C_SIZE, "size_inbox() is %lld on process %d of a plan whose box has %lld indexes", p->nin(), cr, s.in[cr].count());
    if (p->nout() != s.out[cr].count()) sim_violation(C_SIZE, "size_outbox() is %lld on process %d of a plan whose box has %lld indexes", p->nout(), cr, s.out[cr].count());
    SBox a, b;
    if (p->boxes(a, b)) for (int d = 0; d < 3; d++) if (a.lo[d] != s.in[cr].lo[d] || a.hi[d] != s.in[cr].hi[d] || b.lo[d] != s.out[cr].lo[d] || b.hi[d] != s.out[cr].hi[d] || a.order[d] != s.in[cr].order[d] || b.order[d] != s.out[cr].order[d]) {
        sim_violation(C_SIZE, "inbox() or outbox() of process %d is not the box the plan was made with (operation %d)", cr, op); break; }
}
static void do_destroy(State &st, SOp const &o);
static void do_create(State &st, int op, SOp const &o) {
    SPlan s = sc->plans[o.plan]; int cr = sim_comm_rank_of(s.comm); MPI_Comm comm = sim_comm(s.comm);
    if (s.recipe) recipe(op, s, o.plan);
    if (s.in[cr].empty() || s.out[cr].empty()) sim_probe(PR_EMPTY_BOX);
    if (s.subranks || s.subcomm >= 0) sim_probe(PR_SUBRANKS);
    { auto const &m = sc->comms[s.comm].members; if (!std::is_sorted(m.begin(), m.end())) sim_probe(PR_PERMUTED_COMM); }
    for (int d = 0; d < 3; d++) { bool all = s.world[d] > 1; for (auto &b : s.in) all = all && (b.empty() || b.size(d) == s.world[d]); if (all) sim_probe(PR_NULL_SHAPER0); }
    if (s.idx64) sim_probe(PR_INT64);
    if (s.twod) sim_probe(PR_TWOD);
    if (s.in[cr].order[0] != 0 || s.in[cr].order[1] != 1 || s.out[cr].order[0] != 0 || s.out[cr].order[1] != 1) sim_probe(PR_ORDER);
    if (s.type == PT_R2C && s.world[s.r2cdir] % 2) sim_probe(PR_ODD_R2C);
    if (o.plan > 0) sim_probe(PR_MULTI_PLAN);
    for (int d = 0; d < 3; d++) if (s.world[d] >= 64) { sim_probe(PR_LARGE_DIM); break; }
    if (st.plan[o.plan]) { SOp d = o; do_destroy(st, d); }
    std::string how; bool threw = false; PlanObj *p = nullptr; size_t before = sim_lib_live();
    int tries = 0;
  again:
    try { p = build(s, cr, comm); if (!p) { threw = true; how = "error code";
        if (s.capi && sim_faulted()) {
            if (sim_lib_live() > before && s.in.size() == 1) sim_violation(C_ALLOC, "construction of a plan through the C interface fails for lack of memory and keeps %zu bytes", sim_lib_live() - before);
            sim_arm_alloc(0); if (s.in.size() > 1 || tries++) sim_abandon("failure in construction (C)"); threw = false; goto again; } } }
    catch (std::bad_alloc &) {
        if (!sim_faulted()) { sim_violation(C_FATAL, "std::bad_alloc without a reason in the construction of a plan"); return; }
        if (sim_lib_live() > before && sc->plans[o.plan].comm >= 0 && s.in.size() == 1) sim_violation(C_ALLOC, "construction of a plan fails for lack of memory and keeps %zu bytes", sim_lib_live() - before);
        sim_arm_alloc(0);
        if (s.in.size() > 1 || tries++) sim_abandon("allocation failed in construction");
        goto again;
    }
    catch (std::invalid_argument &e) { threw = true; how = std::string("invalid_argument ") + e.what(); }
    catch (std::runtime_error &e) { threw = true; how = std::string("runtime_error ") + e.what(); if (sim_faulted()) { sim_arm_alloc(0); if (s.in.size() > 1 || tries++) sim_abandon("library failure"); threw = false; goto again; } }
    catch (std::exception &e) { threw = true; how = std::string("exception ") + e.what(); }
    if (tries) sim_probe(PR_ALLOC_SURVIVED);
    if (sim_faulted() && p) sim_survived();
    sim_stage(op, 3, how.data(), how.size());
    if (threw) {
        sim_probe(PR_REJECTED);
        bool capi_err = s.capi == 1 || s.capi == 3;
        if (sim_lib_live() > before) sim_violation(C_LEAK, "construction of a plan fails (%s) and keeps %zu bytes", how.c_str(), sim_lib_live() - before);
        if (s.invalid) {
            if (!capi_err && how.compare(0, 16, "invalid_argument")) sim_violation(C_REJECT, "an illegal geometry is rejected with the wrong exception: %s", how.c_str());
        } else if (!too_small(s, computing(s)))
            sim_violation(C_REJECT, "a legal geometry is rejected: %s", how.c_str());
        st.plan[o.plan] = nullptr; st.rejected[o.plan] = 1; return;
    }
    if (s.invalid) sim_violation(C_REJECT, "process %d: a plan is made from boxes that do not partition the index space (kind %d)", cr, s.invalid);
    st.plan[o.plan] = p; check_sizes(s, p, cr, op);
    st.work[o.plan] = p->nwork();
    switch (s.alg) { case ALG_A2AV: sim_probe(PR_A2AV); break; case ALG_A2A: sim_probe(PR_A2A); break; case ALG_P2P: sim_probe(PR_P2P); break; default: sim_probe(PR_PLINED); }
}
// a plan of another language and a plan of the C++ classes with the same options talk to the other processes in the same way
static void do_sibling(State &st, int op, SOp const &o) {
    SPlan const &s = sc->plans[o.plan]; PlanObj *p = st.plan[o.plan]; if (!p || !s.capi) return; int cr = sim_comm_rank_of(s.comm);
    SPlan q = s; q.capi = 0; q.ctor = 0; q.idx64 = 0; q.subranks = 0; q.subcomm = -1; std::unique_ptr<PlanObj> b(build(q, cr, sim_comm(s.comm)));
    if (p->nin() != b->nin() || p->nout() != b->nout() || p->nwork() != b->nwork()) sim_violation(C_CAPI, "process %d: sizes of a plan are %lld, %lld, %lld and of the same plan in C++ %lld, %lld, %lld (operation %d)", cr, p->nin(), p->nout(), p->nwork(), b->nin(), b->nout(), b->nwork(), op);
    uint64_t prof[2];
    for (int v = 0; v < 2; v++) {
        size_t ei = esize(s, o, true), eo = esize(s, o, false), bi = (size_t)s.in[cr].count() * ei, bo = (size_t)s.out[cr].count() * eo; if (o.dir) std::swap(bi, bo);
        void *in = sim_buf(bi, 16, 0, 0), *out = sim_buf(bo, 16, 0, 0); memset(in, 0, bi); uint64_t before = sim_profile();
        (v ? b.get() : p)->exec(o, in, out, nullptr); prof[v] = sim_profile() - before; sim_buf_free(in); sim_buf_free(out);
    }
    if (prof[0] != prof[1]) sim_violation(C_CAPI, "process %d: a plan and the same plan in C++ with the same options communicate differently (operation %d)", cr, op);
    LibCall lc(-1, "the destruction of a plan"); b.reset();
}
static void do_destroy(State &st, SOp const &o) {
    PlanObj *p = st.plan[o.plan]; if (!p) return; st.plan[o.plan] = nullptr; LibCall lc(-1, "the destruction of a plan"); delete p;
}
static void do_exec(State &st, int op, SOp const &o) {
    SPlan const &s = sc->plans[o.plan]; PlanObj *p = st.plan[o.plan]; if (!p) return;
    int cr = sim_comm_rank_of(s.comm);
    long long ni = s.in[cr].count(), no = s.out[cr].count(); int nb = (o.form == 2 || o.form == 3 || s.type == PT_RESHAPE) ? o.batch : 1;
    size_t ei = esize(s, o, true), eo = esize(s, o, false), align = sc->f.misalign ? (ei > 8 || eo > 8 || o.prec ? 8 : 4) : 16;
    if (s.type == PT_RESHAPE) align = sc->f.misalign ? ((o.prec & 1) ? 8 : 4) : 16;
    size_t bin = (size_t)(o.dir == 0 ? ni : no) * (o.dir == 0 ? ei : eo) * nb, bout = (size_t)(o.dir == 0 ? no : ni) * (o.dir == 0 ? eo : ei) * nb;
    long long nw = p->nwork();
    if (nw != st.work[o.plan]) sim_violation(C_SIZE, "size_workspace() changed from %lld to %lld", st.work[o.plan], nw);
    if (nb > 1) sim_probe(PR_BATCH);
    if (o.inplace) sim_probe(PR_INPLACE);
    if (o.real) sim_probe(PR_REALSIDE);
    int tail = (int)((o.seed >> 3) & 1), tail2 = (int)((o.seed >> 4) & 1), tail3 = (int)((o.seed >> 5) & 1);
    bool vec = o.form >= 4, need_ws = o.form == 1 || o.form == 2 || s.type == PT_RESHAPE;
    void *in = nullptr, *out = nullptr, *ws = nullptr; int tries = 0;
    if (o.inplace) { in = out = sim_buf(std::max(bin, bout), align, tail, 0); }
    else { in = sim_buf(bin, align, tail, 0); out = sim_buf(bout, align, tail2, 0); }
    if (need_ws) ws = sim_buf((size_t)nw * nb * wsize(s, o), align, tail3, o.wsfill);
    if (!p->full_factor() && s.type != PT_RESHAPE) {}
    if (s.type >= PT_COS && s.type <= PT_SIN1) sim_set_factor(op, p->full_factor());
  again:
    sim_buf_readonly(in, 0); sim_fill(op, in);
    if (!o.inplace) sim_buf_readonly(in, 1);
    try {
        if (vec) {
            long long cap = (long long)(bout / (o.dir == 0 ? eo : ei));
            long long got = p->exec_vec(o, in, o.dir == 0 ? ni : no, out, cap); // o.b: entries beyond the box
            if (got != cap) sim_violation(C_CONTAINER, "the container returned by %s has %lld entries, the box has %lld", o.dir ? "backward" : "forward", got, cap);
        } else p->exec(o, in, out, ws);
    } catch (std::bad_alloc &) {
        if (!sim_faulted()) { sim_violation(C_FATAL, "std::bad_alloc without a reason in a transform"); return; }
        sim_arm_alloc(0);
        if (s.in.size() > 1 || tries++) sim_abandon("allocation failed in a transform");
        goto again;
    } catch (std::exception &e) {
        if (sim_faulted()) { sim_arm_alloc(0); if (s.in.size() > 1 || tries++) sim_abandon("library failure in a transform"); goto again; }
        sim_violation(C_RESULT, "exception in a legal transform (operation %d): %s", op, e.what()); return;
    }
    if (tries) sim_probe(PR_ALLOC_SURVIVED);
    if (sim_faulted() && p) sim_survived();
    if (!o.inplace) { sim_buf_readonly(in, 0); sim_check_input(op, in); }
    sim_buf_check(in, "input array"); sim_buf_check(out, "output array"); if (ws) sim_buf_check(ws, "workspace");
    sim_check_output(op, out);
    sim_buf_free(in); if (!o.inplace) sim_buf_free(out);
    if (ws) sim_buf_free(ws);
}
static void do_short(State &st, int op, SOp const &o) {
    SPlan const &s = sc->plans[o.plan]; PlanObj *p = st.plan[o.plan]; if (!p) return; int cr = sim_comm_rank_of(s.comm);
    long long n = o.dir == 0 ? s.in[cr].count() : s.out[cr].count(); if (n == 0) return;
    size_t ei = esize(s, o, true), eo = esize(s, o, false); sim_probe(PR_SHORTVEC);
    void *in = sim_buf((size_t)n * (o.dir == 0 ? ei : eo), 16, 0, 2), *out = sim_buf((size_t)(o.dir == 0 ? s.out[cr].count() : s.in[cr].count()) * (o.dir == 0 ? eo : ei), 16, 0, 0);
    long long m = std::max(0LL, n - 1 - o.a % (int)n); bool ok = false; std::string w = "no exception";
    try { p->exec_vec(o, in, m, out, 0); } catch (std::invalid_argument &e) { ok = true; } catch (std::exception &e) { w = e.what(); }
    if (!ok) sim_violation(C_CONTAINER, "process %d, operation %d: a container with %lld of %lld entries is not rejected with std::invalid_argument (%s)", cr, op, m, n, w.c_str());
    sim_buf_free(in); sim_buf_free(out);
}
struct Post { bool active = false; std::vector<MPI_Request> rq; std::vector<void *> buf; std::vector<uint64_t> want; };
static std::vector<uint64_t> pattern(int op, int from, int to, int n) { std::vector<uint64_t> v; for (int i = 0; i < n; i++) v.push_back(((uint64_t)op << 48) ^ ((uint64_t)from << 32) ^ ((uint64_t)to << 16) ^ (uint64_t)(i * 2654435761u)); return v; }
static void do_usermsg(int op, SOp const &o, Post *post) { // ring shift with a tag of the user; o.a distance, o.b words, o.c tag
    MPI_Comm c = sim_comm(o.plan); int n, r; MPI_Comm_size(c, &n); MPI_Comm_rank(c, &r); int to = (r + o.a) % n, from = ((r - o.a) % n + n) % n; sim_probe(PR_USERMSG);
    auto sv = pattern(op, r, to, o.b), rv = pattern(op, from, r, o.b); size_t b = sizeof(uint64_t) * (size_t)o.b;
    void *sb = sim_buf(b, 8, 0, 0), *rb = sim_buf(b, 8, 0, 0); memcpy(sb, sv.data(), b);
    if (post) {
        MPI_Request q[2]; MPI_Irecv(rb, o.b, MPI_LONG_LONG, (o.dir & 2) ? MPI_ANY_SOURCE : from, (o.dir & 1) ? MPI_ANY_TAG : o.c, c, &q[0]); MPI_Isend(sb, o.b, MPI_LONG_LONG, to, o.c, c, &q[1]);
        post->active = true; post->rq = {q[0], q[1]}; post->buf = {sb, rb}; post->want = rv; return;
    }
    MPI_Status st; MPI_Sendrecv(sb, o.b, MPI_LONG_LONG, to, o.c, rb, o.b, MPI_LONG_LONG, from, o.c, c, &st);
    if (memcmp(rb, rv.data(), b)) sim_violation(C_ISOLATION, "a message of the user arrives with the wrong content in process %d (operation %d)", r, op);
    sim_buf_free(sb); sim_buf_free(rb);
}
static void do_userdone(int op, Post &p) {
    if (!p.active) return; p.active = false; MPI_Waitall((int)p.rq.size(), p.rq.data(), MPI_STATUSES_IGNORE);
    if (memcmp(p.buf[1], p.want.data(), p.want.size() * 8)) sim_violation(C_ISOLATION, "a message the user posted earlier arrives with the wrong content in process %d (operation %d)", sim_rank(), op);
    sim_buf_free(p.buf[0]); sim_buf_free(p.buf[1]);
}
static void do_trace_fin(State &st, int op) {
    int wr; MPI_Comm_rank(MPI_COMM_WORLD, &wr); std::string name = st.trace + "_" + std::to_string(wr) + ".log";
    double until = MPI_Wtime(); { LibCall lc(op, "finalize_tracing"); finalize_tracing(); }
    std::ifstream f(name); bool there = (bool)f;
    if (sc->f.tracefault == 1) { if (there) sim_violation(C_TRACE, "the trace file is written to the wrong place"); sim_probe(PR_TRACE_FAULT); return; }
    if (sc->f.tracefault == 2 && wr == 0) { sim_probe(PR_TRACE_FAULT); return; }
    if (!there) { sim_violation(C_TRACE, "process %d: there is no trace file %s", wr, name.c_str() + std::string(sim_scratch()).size()); return; }
    std::string line; long n = 0; double last = -1; uint64_t h = 1469598103934665603ull;
    std::vector<double> ends;
    while (std::getline(f, line)) {
        n++; for (char c : line) { h ^= (unsigned char)c; h *= 1099511628211ull; }
        auto cut = [](std::string &t) { size_t e = t.find_last_not_of(" \t"); if (e == std::string::npos) { t.clear(); return std::string(); } size_t b = t.find_last_of(" \t", e); b = b == std::string::npos ? 0 : b + 1; std::string r = t.substr(b, e - b + 1); t.resize(b); return r; };
        std::string nm = line, b = cut(nm), a = cut(nm);
        if (nm.find_first_not_of(" \t") == std::string::npos) { sim_violation(C_TRACE, "process %d: a trace line does not hold a name, a start and a duration: %s", wr, line.c_str()); return; }
        try { size_t u, v; double t = std::stod(a, &u), d = std::stod(b, &v); if (u != a.size() || v != b.size()) { sim_violation(C_TRACE, "process %d: the columns of a trace line run into each other: %s", wr, line.c_str()); return; } if (sc->f.clock != 3 && (!(t >= 0) || !(d >= 0))) sim_violation(C_TRACE, "process %d: a trace line has a negative start or duration", wr);  double tol = 2e-11 * std::max(std::fabs(until), std::fabs(t)) + 1e-11;
            if (sc->f.clock != 3 && (t < st.since - tol || t + d > until + tol)) sim_violation(C_TRACE, "process %d: a trace line lies outside the time between the start and the end of the tracing (%.15g to %.15g): %s", wr, st.since, until, line.c_str()); last = t; ends.push_back(t + d); }
        catch (std::exception &) { sim_violation(C_TRACE, "process %d: a trace line does not hold two numbers: %s", wr, line.c_str()); return; }
    }
    (void)last; sim_note(h); sim_note((uint64_t)n);
    bool ran = false; for (int i = op - 1; i >= 0 && sc->ops[i].kind != OP_TRACE_INIT; i--) { SOp const &o = sc->ops[i]; if (o.kind == OP_EXEC && sim_comm_rank_of(sc->plans[o.plan].comm) >= 0 && st.plan[o.plan] && sc->plans[o.plan].type != PT_RESHAPE && !sc->plans[o.plan].in[sim_comm_rank_of(sc->plans[o.plan].comm)].empty()) ran = true; }
    std::vector<std::string> sig; for (int i = op - 1; i >= 0 && sc->ops[i].kind != OP_TRACE_INIT; i--) { SOp const &o = sc->ops[i]; char t[120]; snprintf(t, sizeof t, "%d %d %d %d %d %d %d %d %d;", o.kind, o.plan, o.dir, o.prec, o.batch, o.scale, o.form, o.inplace * 2 + o.real, o.b); sig.push_back(t); }
    if (sc->f.tracefault == 0 && !sig.empty()) { // the same operations give the same number of lines, k times the operations k times the lines
        size_t len = sig.size(), per = 1; for (;; per++) { if (len % per) continue; bool same = true; for (size_t i = per; i < len && same; i++) same = sig[i] == sig[i - per]; if (same) break; }
        std::string base; for (size_t i = 0; i < per; i++) base += sig[i]; long k = (long)(len / per); auto it = st.traced.find(base);
        if (it == st.traced.end()) st.traced[base] = {n, k}; else if (it->second.first * k != n * it->second.second) sim_violation(C_TRACE, "process %d: operations done %ld times leave %ld lines in one trace file and done %ld times %ld in another", wr, it->second.second, it->second.first, k, n); }
    if (n == 0 && ran) sim_violation(C_TRACE, "process %d: the trace file is empty although transforms ran", wr);
    sim_probe(PR_TRACEFILE);
}
extern "C" void rank_main(int rank) {
    (void)rank; sc = sim_scenario(); State st; st.plan.assign(sc->plans.size(), nullptr); st.rejected.assign(sc->plans.size(), 0); st.work.assign(sc->plans.size(), 0); Post post;
    int wr; MPI_Comm_rank(MPI_COMM_WORLD, &wr);
    for (int op = 0; op < (int)sc->ops.size(); op++) {
        SOp const &o = sc->ops[op]; bool commop = o.kind == OP_BARRIER || o.kind == OP_USERMSG || o.kind == OP_USERCOLL || o.kind == OP_USERPOST;
        bool planop = o.kind == OP_CREATE || o.kind == OP_DESTROY || o.kind == OP_EXEC || o.kind == OP_MOVE || o.kind == OP_SIZES || o.kind == OP_PLANLOGIC || o.kind == OP_SHORTVEC || o.kind == OP_CAPIERR || o.kind == OP_SIBLING;
        sim_set_op(op);
        if (planop && sim_comm_rank_of(sc->plans[o.plan].comm) < 0) continue;
        if (commop && sim_comm_rank_of(o.plan) < 0) continue;
        bool arm = sc->f.allocop == op && (sc->f.allocrank == wr || sc->f.allocrank == -2);
        if (arm) sim_arm_alloc(1);
        switch (o.kind) {
        case OP_CREATE: do_create(st, op, o); break;
        case OP_DESTROY: do_destroy(st, o); break;
        case OP_EXEC: do_exec(st, op, o); break;
        case OP_MOVE: if (st.plan[o.plan]) { LibCall lc(op, "the move of a plan"); bool m = false; if (o.a >= 0 && o.a < (int)st.plan.size() && o.a != o.plan && st.plan[o.a]) { // plan o.a takes over plan o.plan
                          m = st.plan[o.a]->move_assign(st.plan[o.plan]); if (m) { delete st.plan[o.plan]; st.plan[o.plan] = st.plan[o.a]; st.plan[o.a] = nullptr; } }
                      else m = st.plan[o.plan]->move();
                      if (m) sim_probe(PR_MOVED); } break;
        case OP_BARRIER: MPI_Barrier(sim_comm(o.plan)); break;
        case OP_USERMSG: do_usermsg(op, o, nullptr); break;
        case OP_USERPOST: do_userdone(op, post); do_usermsg(op, o, &post); break;
        case OP_USERDONE: do_userdone(op, post); break;
        case OP_USERCOLL: { MPI_Comm c = sim_comm(o.plan); int n; MPI_Comm_size(c, &n); long long v = sim_comm_rank_of(o.plan) + 1, r = 0; MPI_Allreduce(&v, &r, 1, MPI_LONG_LONG, MPI_SUM, c);
                            if (r != (long long)n * (n + 1) / 2) sim_violation(C_ISOLATION, "a collective of the user gives %lld", r); sim_probe(PR_USERMSG); break; }
        case OP_TRACE_INIT: { st.trace = std::string(sim_scratch()) + (sc->f.tracefault == 1 ? "/none/t" : "/t") + std::to_string(o.a); { LibCall lc(op, "init_tracing"); init_tracing(st.trace); } st.since = MPI_Wtime(); break; }
        case OP_TRACE_FIN: do_trace_fin(st, op); break;
        case OP_CHECKPOINT: if (!o.b) { LibCall lc(op, "init_tracing"); init_tracing("/dev/null/none"); } sim_checkpoint(o.a); break;
        case OP_SIZES: if (st.plan[o.plan]) { check_sizes(sc->plans[o.plan], st.plan[o.plan], sim_comm_rank_of(sc->plans[o.plan].comm), op); if (st.plan[o.plan]->nwork() != st.work[o.plan]) sim_violation(C_SIZE, "size_workspace() changed"); } break;
        case OP_PLANLOGIC: if (sc->plans[o.plan].idx64) plan_logic<long long>(op, o); else plan_logic<int>(op, o); break;
        case OP_SIBLING: do_sibling(st, op, o); break;
        case OP_SHORTVEC: do_short(st, op, o); break;
        case OP_CAPIERR: if (sc->plans[o.plan].capi == 3) { SPlan const &s = sc->plans[o.plan]; int cr = sim_comm_rank_of(s.comm); if (o.a >= 20) py_badplan(s, s.in[cr], s.out[cr], o, sim_comm(s.comm)); else if (st.plan[o.plan]) py_refuse(st.plan[o.plan], o, s); break; }
            capi_errors(op, o, sim_comm(sc->plans[o.plan].comm)); break;
        default: break;
        }
        if (arm) sim_arm_alloc(0);
    }
    do_userdone(-1, post);
    for (size_t i = 0; i < st.plan.size(); i++) if (st.plan[i]) { sim_set_op((int)sc->ops.size() + (int)i); SOp o; o.plan = (int)i; do_destroy(st, o); }
}
