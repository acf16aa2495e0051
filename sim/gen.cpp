/* Scenario generators: one per property, each a pure function of (seed, index). */
#include "core.h"
#include <algorithm>
#include <sstream>
#include <cmath>
#define B(c) (1ull << (c))
Prop props[] = {
    {"H01", "forward complex transform", B(C_RESULT), 40000, 2000000},
    {"H02", "backward transform and scaling", B(C_RESULT), 40000, 2000000},
    {"H03", "real-to-complex transform", B(C_RESULT), 40000, 2000000},
    {"H04", "sine and cosine transforms", B(C_RESULT), 40000, 2000000},
    {"H05", "batch", B(C_RESULT), 40000, 2000000},
    {"H06", "in place and read-only input", B(C_RESULT) | B(C_INPUT), 40000, 2000000},
    {"H07", "memory bounds and workspace", B(C_RESULT) | B(C_OOB) | B(C_SIZE), 40000, 2000000},
    {"H08", "options, backends, index types", B(C_RESULT), 40000, 2000000},
    {"H09", "history independence", B(C_RESULT) | B(C_NONDET), 40000, 2000000},
    {"H10", "schedule independence", B(C_NONDET), 40000, 2000000},
    {"H11", "progress", B(C_PROGRESS), 40000, 2000000},
    {"H12", "redistribution", B(C_RESULT) | B(C_OOB), 40000, 2000000},
    {"H13", "message buffer discipline", B(C_COMM) | B(C_LEFTOVER) | B(C_OOB), 40000, 2000000},
    {"H14", "resources released", B(C_LEAK), 40000, 2000000},
    {"H15", "isolation", B(C_ISOLATION) | B(C_RESULT) | B(C_LEFTOVER) | B(C_COMM), 40000, 2000000},
    {"H16", "subset of processes", B(C_SUBRANK) | B(C_RESULT), 40000, 2000000},
    {"H17", "illegal geometry", B(C_REJECT) | B(C_PROGRESS) | B(C_LEAK), 40000, 2000000},
    {"H18", "agreed plan", B(C_PLAN) | B(C_SUBRANK), 40000, 2000000},
    {"H19", "recipe for boxes", B(C_RECIPE) | B(C_PLAN) | B(C_RESULT), 40000, 2000000},
    {"H20", "C interface", B(C_CAPI) | B(C_RESULT) | B(C_LEAK) | B(C_OOB) | B(C_SIZE) | B(C_REJECT), 40000, 2000000},
    {"H21", "tracing", B(C_TRACE) | B(C_RESULT) | B(C_NONDET), 40000, 2000000},
    {"H22", "failing allocations", B(C_ALLOC) | B(C_RESULT) | B(C_LEAK) | B(C_OOB) | B(C_COMM), 40000, 2000000},
    {"H23", "containers", B(C_CONTAINER) | B(C_RESULT) | B(C_OOB), 40000, 2000000},
    {"H24", "Fortran interface", B(C_RESULT) | B(C_SIZE) | B(C_LEAK) | B(C_OOB) | B(C_REJECT) | B(C_INPUT), 40000, 2000000},
    {"H25", "Python interface", B(C_RESULT) | B(C_SIZE) | B(C_LEAK) | B(C_OOB) | B(C_REJECT) | B(C_INPUT) | B(C_CAPI) | B(C_RECIPE), 40000, 2000000},
    {"H26", "CUDA backend", B(C_RESULT) | B(C_OOB) | B(C_INPUT) | B(C_LEAK) | B(C_GPU) | B(C_SIZE) | B(C_CONTAINER), 40000, 2000000},
    {"H27", "ROCm backend", B(C_RESULT) | B(C_OOB) | B(C_INPUT) | B(C_LEAK) | B(C_GPU) | B(C_SIZE) | B(C_CONTAINER), 40000, 2000000},
    {"H28", "oneAPI backend", B(C_RESULT) | B(C_OOB) | B(C_INPUT) | B(C_LEAK) | B(C_GPU) | B(C_SIZE) | B(C_CONTAINER), 40000, 2000000},
};
int nprops = (int)(sizeof props / sizeof props[0]);

// ---- geometry ---------------------------------------------------------------------
static SBox empty_box() { return SBox(); }
static void set(SBox &b, int d, long long lo, long long hi) { b.lo[d] = lo; b.hi[d] = hi; }
static std::vector<long long> cuts(Rng &g, long long n, int parts, int style) { // parts+1 positions, every part non-empty
    std::vector<long long> c(parts + 1); 
    if (style == 0) { for (int i = 0; i <= parts; i++) c[i] = n * i / parts; return c; }
    if (style == 1) { c[0] = 0; long long q = n / parts, r = n % parts; for (int i = 0; i < parts; i++) c[i + 1] = c[i] + q + (i < r); return c; }
    std::vector<long long> all; for (long long i = 1; i < n; i++) all.push_back(i);
    for (size_t i = 0; i < all.size(); i++) std::swap(all[i], all[i + g.below(all.size() - i)]);
    all.resize(parts - 1); std::sort(all.begin(), all.end()); c[0] = 0; for (int i = 0; i < parts - 1; i++) c[i + 1] = all[i]; c[parts] = n; return c;
}
static bool grid_boxes(Rng &g, const long long w[3], int n, int shape, std::vector<SBox> &out) {
    std::vector<std::array<int, 3>> opt;
    for (int a = 1; a <= n && a <= w[0]; a++) if (n % a == 0) for (int b = 1; b <= n / a && b <= w[1]; b++) if ((n / a) % b == 0 && n / a / b <= w[2]) {
        int c = n / a / b; int ones = (a == 1) + (b == 1) + (c == 1);
        if (shape == 1 && ones < 2) continue;     // slabs
        if (shape == 2 && ones < 1) continue;     // pencils
        opt.push_back({a, b, c}); }
    if (opt.empty()) return false;
    auto p = opt[g.below(opt.size())]; std::vector<long long> c[3]; int st = g.range(0, 3);
    for (int d = 0; d < 3; d++) c[d] = cuts(g, w[d], p[d], st);
    for (int z = 0; z < p[2]; z++) for (int y = 0; y < p[1]; y++) for (int x = 0; x < p[0]; x++) { SBox b; set(b, 0, c[0][x], c[0][x + 1] - 1); set(b, 1, c[1][y], c[1][y + 1] - 1); set(b, 2, c[2][z], c[2][z + 1] - 1); out.push_back(b); }
    return true;
}
static void kd(Rng &g, SBox b, int n, std::vector<SBox> &out) { // count >= n assumed
    if (n == 1) { out.push_back(b); return; }
    for (int t = 0; t < 200; t++) {
        int d = g.range(0, 2); if (b.size(d) < 2) continue;
        long long cut = b.lo[d] + 1 + (long long)g.below((uint64_t)(b.size(d) - 1)); SBox l = b, r = b; l.hi[d] = cut - 1; r.lo[d] = cut;
        long long mn = std::max(1LL, n - r.count()), mx = std::min((long long)n - 1, l.count()); if (mn > mx) continue;
        int k = (int)(mn + (long long)g.below((uint64_t)(mx - mn + 1)));
        kd(g, l, k, out); kd(g, r, n - k, out); return;
    }
    // not reached: a box with more than one index can always be cut
    out.push_back(b); for (int i = 1; i < n; i++) out.push_back(empty_box());
}
static const int perms[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
// a box without indexes can be written in many ways: any dimension whose upper limit is below the lower one
static void odd_empty(Rng &g, const long long w[3], std::vector<SBox> &v) {
    bool any = false; for (auto &b : v) any = any || b.empty();
    if (!any || g.chance(35)) return;
    int how = g.range(0, 5); // 0: the range of the world in the other dimensions (as a program that cuts slabs would write it), 1-2: a part, 3: mixed, 4: several dimensions without indexes, 5: beyond the end of the world
    for (auto &b : v) if (b.empty()) { int d = g.range(0, 2); int m = how == 3 ? g.range(0, 2) : how;
        for (int k = 0; k < 3; k++) { long long lo = 0, hi = w[k] - 1; if (m != 0) { lo = g.below(w[k]); hi = lo + (long long)g.below(w[k] - lo); }
            if (k == d || (m == 4 && g.chance(60))) { lo = m == 0 && g.chance(50) ? 0 : (long long)g.below(w[k] + 1) + (m == 5 ? g.range(0, 5) : 0); hi = lo - 1; if ((m == 2 || m == 4) && g.chance(60)) hi = lo - g.range(1, 3); }
            set(b, k, lo, hi); } }
}
static std::vector<SBox> boxes(Rng &g, const long long w[3], int n, bool allow_empty, int orderpct) {
    std::vector<SBox> v; long long cnt = w[0] * w[1] * w[2]; SBox all; for (int d = 0; d < 3; d++) set(all, d, 0, w[d] - 1);
    int m = n; if (allow_empty && n > 1 && g.chance(25)) m = g.range(1, n - 1);
    if (cnt < m) m = (int)cnt;
    int style = g.range(0, 9); bool ok = false;
    if (style <= 2) ok = grid_boxes(g, w, m, 0, v); else if (style <= 4) ok = grid_boxes(g, w, m, 2, v); else if (style <= 6) ok = grid_boxes(g, w, m, 1, v);
    if (!ok) { v.clear(); kd(g, all, m, v); }
    while ((int)v.size() < n) v.push_back(empty_box());
    if (g.chance(50)) for (int i = n - 1; i > 0; i--) std::swap(v[i], v[g.below(i + 1)]);
    int o = g.chance(orderpct) ? g.range(0, 5) : 0;
    for (auto &b : v) for (int d = 0; d < 3; d++) b.order[d] = perms[o][d];
    if (allow_empty) odd_empty(g, w, v);
    return v;
}
// is a processor grid possible whatever direction the pencils take? (the library rejects the others, which is legal)
static bool roomy(const long long w[3], int n) {
    int a = 1; for (int i = 1; i * i <= n; i++) if (n % i == 0) a = i; int b = n / a;
    for (int d = 0; d < 3; d++) { long long x = w[(d + 1) % 3], y = w[(d + 2) % 3]; if (!((a <= x && b <= y) || (b <= x && a <= y))) return false; }
    return true;
}
static void world(Rng &g, SPlan &p, int n, long long limit) {
    static const int primes[] = {11, 13, 17, 19, 23, 29, 31, 37, 41, 53, 61, 67, 73, 97, 101, 127};
    long long big = g.chance(15) ? 60000 : 9000;
    for (int t = 0;; t++) {
        for (int d = 0; d < 3; d++) p.world[d] = g.chance(8) ? 1 : g.range(2, g.chance(30) ? 12 : 7);
        if (g.chance(22)) { int d = g.range(0, 2); for (int k = 0; k < 3; k++) if (k != d) p.world[k] = g.range(1, 4); int r = g.range(0, 3);
            p.world[d] = r == 0 ? primes[g.below(16)] : r == 1 ? (1 << g.range(4, 7)) : r == 2 ? g.range(8, 130) : 9 * g.range(1, 8); }
        if (p.twod) p.world[2] = 1;
        if (p.type == PT_COS1) for (int d = 0; d < 3; d++) if (p.world[d] < 2) p.world[d] = g.range(2, 5);
        if (n <= 2 && limit >= 250 && g.chance(3)) { int d = g.range(0, p.twod ? 1 : 2); for (int k = 0; k < 3; k++) if (k != d) p.world[k] = p.twod && k == 2 ? 1 : g.range(1, 2); static const int nice[] = {256, 512, 1024, 243, 729, 625, 343, 500, 1000, 216, 600, 1023, 961, 768, 384}; p.world[d] = g.chance(35) ? nice[g.below(15)] : g.range(131, 1030); if (p.type == PT_COS1) for (int k = 0; k < 3; k++) if (p.world[k] < 2) p.world[k] = 2; if (roomy(p.world, n)) return; else continue; }
        bool large = n <= (big > 9000 ? 12 : 4) && limit >= 300 && limit < 4000 && g.chance(3); // many lines and long lines
        if (large) { for (int d = 0; d < 3; d++) p.world[d] = p.twod && d == 2 ? 1 : g.range(2, g.chance(30) ? 120 : 40); }
        if (p.count() > (large ? big : limit)) continue;
        long long c[3] = {p.cworld(0), p.cworld(1), p.cworld(2)};
        if (t < 400) { if (p.count() < n || p.ccount() < n) { if (!g.chance(4)) continue; } if (!p.twod && !(roomy(p.world, n) && roomy(c, n)) && !g.chance(3)) continue; if (p.twod && t < 200 && !(roomy(p.world, n) && roomy(c, n)) && !g.chance(20)) continue; }
        return;
    }
}
struct Want { int types = 1; /* bit per type */ int backends = 7; int capi = 0; int fort = 0; int py = 0; int emptypct = 1; int orderpct = 35; long long limit = 700; int twodpct = 12; int subpct = 6; };
static int pick_bit(Rng &g, int mask) { int n = __builtin_popcount(mask), k = (int)g.below(n); for (int i = 0;; i++) if (mask >> i & 1) { if (k-- == 0) return i; } }
static int pick_of(Rng &g, std::vector<int> v) { return v[g.below(v.size())]; }
static SPlan rand_plan(Rng &g, Scenario const &sc, int comm, Want const &w) {
    SPlan p; p.comm = comm; int n = (int)sc.comms[comm].members.size(); p.type = pick_bit(g, w.types); p.backend = pick_bit(g, w.backends);
    if (p.type == PT_COS1 && p.backend == BK_MKL) p.backend = g.range(0, 1);
    if (p.type == PT_SIN1) p.backend = BK_FFTW;
    p.idx64 = g.chance(25); p.reorder = g.chance(55); p.alg = g.range(0, 3); p.pencils = g.chance(55); p.gpuaware = g.chance(80); p.ctor = g.range(0, 3); p.defopts = g.chance(6);
    p.r2cdir = g.range(0, 2); p.twod = g.chance(w.twodpct) && p.type != PT_COS1; if (p.twod && p.type == PT_R2C && p.r2cdir == 2) p.r2cdir = g.range(0, 1);
    world(g, p, n, w.limit);
    long long c[3] = {p.cworld(0), p.cworld(1), p.cworld(2)};
    bool em = w.emptypct && g.chance(w.emptypct > 1 ? w.emptypct : 50);
    if (g.chance(12)) { p.in = boxes(g, p.world, n, em, w.orderpct); if (p.type != PT_R2C && g.chance(60)) p.out = p.in; else p.out = boxes(g, c, n, em, w.orderpct); }
    else { p.in = boxes(g, p.world, n, em, w.orderpct); p.out = boxes(g, c, n, em, w.orderpct); }
    if (p.type != PT_RESHAPE && n > 1 && g.chance(w.subpct)) p.subranks = g.range(1, n - 1);
    if (w.capi && (p.type == PT_C2C || p.type == PT_R2C) && (w.capi == 1 || g.chance(w.capi))) { p.capi = 1; p.idx64 = 0; p.alg = g.range(0, 2); p.twod = 0; p.subranks = 0; p.ctor = g.range(0, 2); }
    if (w.fort && (p.type == PT_C2C || p.type == PT_R2C) && !p.capi && g.chance(w.fort)) { p.capi = 2; p.idx64 = 0; p.subranks = 0; p.defopts = g.chance(35); }
    if (w.py && (p.type == PT_C2C || p.type == PT_R2C) && !p.capi && g.chance(w.py)) { p.capi = 3; p.idx64 = p.subranks = p.twod = p.defopts = p.reorder = 0; p.alg = ALG_P2P_PLINED; p.pencils = p.gpuaware = 1; } // the options of the module
    return p;
}
// turn a legal geometry into an illegal one; false when this one does not lend itself
static bool damage(Rng &g, SPlan &p) {
    if (p.ccount() < 2 || p.type == PT_RESHAPE) return false;
    SPlan q = p; q.invalid = g.range(INV_GAP_IN, INV_LOW_OUT); bool in = q.invalid == INV_GAP_IN || q.invalid == INV_OVERLAP_IN || q.invalid == INV_LOW_IN; auto &v = in ? q.in : q.out; auto const keepv = v;
    std::vector<int> ne; for (size_t i = 0; i < v.size(); i++) if (!v[i].empty()) ne.push_back((int)i);
    if (ne.empty()) return false;
    SBox &b = v[ne[g.below(ne.size())]]; int d = g.range(0, 2); long long wd[3]; for (int k = 0; k < 3; k++) wd[k] = in ? q.world[k] : q.cworld(k);
    bool gap = q.invalid == INV_GAP_IN || q.invalid == INV_GAP_OUT, over = q.invalid == INV_OVERLAP_IN || q.invalid == INV_OVERLAP_OUT;
    if (gap) { // a hole; the bounding box stays
        if (ne.size() < 2) return false; SBox keep = b; if (b.size(d) < 2) b = empty_box(); else if (g.chance(50)) b.lo[d]++; else b.hi[d]--; for (int k = 0; k < 3; k++) b.order[k] = keep.order[k];
    } else if (over) {
        if (ne.size() < 2) return false;
        int em = -1; for (size_t i = 0; i < v.size(); i++) if (v[i].empty()) em = (int)i;
        if (em >= 0 && g.chance(50)) { // a process without indexes claims one entry, or all, of another
            SBox c = b; if (g.chance(50)) for (int k = 0; k < 3; k++) c.lo[k] = c.hi[k] = b.lo[k] + (long long)g.below((uint64_t)b.size(k)); for (int k = 0; k < 3; k++) c.order[k] = v[em].order[k]; v[em] = c; p = q; return true; }
        if (g.chance(20)) { int j = ne[g.below(ne.size())]; if (&v[j] == &b || v[j].count() < 1) return false; b = v[j]; p = q; // two processes with the same box, and a hole
            long long lo[3] = {1 << 30, 1 << 30, 1 << 30}, hi[3] = {-1, -1, -1}; for (auto &x : v) if (!x.empty()) for (int k = 0; k < 3; k++) { lo[k] = std::min(lo[k], x.lo[k]); hi[k] = std::max(hi[k], x.hi[k]); }
            for (int k = 0; k < 3; k++) if (lo[k] != 0 || hi[k] != wd[k] - 1) { p.invalid = 0; (in ? p.in : p.out) = keepv; return false; } return true; }
        bool up = b.hi[d] < wd[d] - 1, down = b.lo[d] > 0; if (!up && !down) return false; if (up && down) up = g.chance(50);
        bool shift = g.chance(40); // a shifted box overlaps one neighbour and leaves a hole: the number of indexes is right
        if (up) { b.hi[d]++; if (shift) b.lo[d]++; } else { b.lo[d]--; if (shift) b.hi[d]--; }
    } else { long long by = g.chance(60) ? 1 : g.chance(50) ? -1 : g.range(2, 9); for (auto &x : v) if (!x.empty()) { x.lo[d] += by; x.hi[d] += by; } }
    // the boxes of the bad side must not by accident be a legal partition of a smaller world
    long long lo[3] = {1 << 30, 1 << 30, 1 << 30}, hi[3] = {-1, -1, -1}; for (auto &x : v) if (!x.empty()) for (int k = 0; k < 3; k++) { lo[k] = std::min(lo[k], x.lo[k]); hi[k] = std::max(hi[k], x.hi[k]); }
    if (gap || over) for (int k = 0; k < 3; k++) if (lo[k] != 0 || hi[k] != wd[k] - 1) return false;
    p = q; return true;
}
static SOp exec(Rng &g, SPlan const &p, int plan, int dir) {
    SOp o; o.kind = OP_EXEC; o.plan = plan; o.dir = dir; o.prec = p.type == PT_RESHAPE ? g.range(0, 3) : g.chance(60); o.scale = 0; o.form = p.capi ? g.range(0, 1) : g.range(0, 1); o.seed = (unsigned)g.below(1u << 20) + 1; o.wsfill = g.range(0, 3);
    return o;
}
// other ways of calling the same transform
static void vary(Rng &g, SPlan const &p, SOp &o) {
    int r = g.range(0, 99); if (r < 60) return;
    if (r < 76) { o.form = g.range(2, 3); o.batch = g.range(1, 3); }
    else if (r < 86) o.form = 4;
    else if (p.type == PT_C2C && !o.real) o.inplace = 1;
}
static SOp sibling(Rng &g, SPlan const &p, int plan) { SOp o = exec(g, p, plan, g.chance(50)); o.kind = OP_SIBLING; o.form = 0; if (p.type == PT_C2C) o.real = g.chance(20); return o; }
static SOp op(int kind, int plan, int a = 0, int b = 0, int c = 0) { SOp o; o.kind = kind; o.plan = plan; o.a = a; o.b = b; o.c = c; return o; }

// ---- processes, communicators, faults -----------------------------------------------
static void procs(Rng &g, Scenario &sc, int lo, int hi) {
    sc.nranks = g.chance(70) && lo <= 6 ? g.range(lo, std::min(hi, 6)) : g.range(lo, hi); SComm w; for (int i = 0; i < sc.nranks; i++) w.members.push_back(i); sc.comms.push_back(w);
}
static int add_comm(Rng &g, Scenario &sc, int minsize) { // duplicate, permutation or subset of the world
    SComm c; int n = sc.nranks; c.members.resize(n); for (int i = 0; i < n; i++) c.members[i] = i; c.how = g.range(1, 3);
    if (c.how >= 2) { for (int i = n - 1; i > 0; i--) std::swap(c.members[i], c.members[g.below(i + 1)]); c.members.resize(g.range(std::min(n, minsize), n)); }
    sc.comms.push_back(c); return (int)sc.comms.size() - 1;
}
static int some_comm(Rng &g, Scenario &sc, int pct) { return g.chance(pct) ? add_comm(g, sc, 1) : 0; }
static void faults(Rng &g, Scenario &sc) {
    SFaults &f = sc.f; int r = g.range(0, 9); f.rdv = r < 3 ? 100 : r < 5 ? 0 : g.range(10, 90); f.eagerlimit = g.chance(50) ? (1 << 30) : (1 << g.range(0, 12));
    f.collsync = g.range(0, 2) * 50; f.clock = g.chance(50) ? 0 : g.range(1, 3); f.efence = g.chance(25); f.misalign = g.chance(30); f.stallrank = g.chance(20) ? g.range(0, sc.nranks - 1) : -1;
    sc.policy = g.range(0, 6); sc.schedseed = g.next() >> 1; sc.dataseed = g.next() >> 1;
}
static void destroy_all(Scenario &sc) { for (size_t i = 0; i < sc.plans.size(); i++) sc.ops.push_back(op(OP_DESTROY, (int)i)); }
static void create(Scenario &sc, SPlan const &p) { sc.plans.push_back(p); sc.ops.push_back(op(OP_CREATE, (int)sc.plans.size() - 1)); }
static void scale_op(Rng &g, SOp &o) { o.scale = g.range(0, 2); }

// one process, many plans of consecutive lengths: every factorization the transform engines meet
static void lengths(Rng &g, Scenario &sc, Want const &w, int most, bool both) {
    procs(g, sc, 1, 1); bool vast = most > 500 && g.chance(12); int base = g.range(1, most), k = vast ? g.range(1, 3) : g.range(15, 30); bool stock = g.chance(70); SPlan q = rand_plan(g, sc, 0, w);
    for (int i = 0; i < k; i++) {
        SPlan p = q; p.type = pick_bit(g, w.types); p.backend = stock ? BK_STOCK : pick_bit(g, w.backends); if (p.type == PT_SIN1) p.backend = BK_FFTW; if (p.type == PT_COS1 && p.backend == BK_MKL) p.backend = BK_STOCK;
        p.twod = 0; p.subranks = 0; p.subcomm = -1; p.r2cdir = g.range(0, 2); int d = g.chance(60) ? p.r2cdir : g.range(0, 2); for (int e = 0; e < 3; e++) p.world[e] = p.type == PT_COS1 ? 2 : g.chance(20) ? 2 : 1;
        p.world[d] = vast ? g.chance(50) ? g.range(1000, 5000) : pick_of(g, {2048, 4096, 8192, 16384, 32768, 2187, 6561, 19683, 10000, 30030, 3125, 15625, 2401, 16807, 12288, 20736, 1031 * 4, 2003 * 2, 3072, 1280, 5120, 1215, 1701, 6075, 768 * 3, 7 * 4096}) : std::max(base + i, p.type == PT_COS1 ? 2 : 1);
        long long c[3] = {p.cworld(0), p.cworld(1), p.cworld(2)}; p.in = boxes(g, p.world, 1, false, 40); p.out = boxes(g, c, 1, false, 40); create(sc, p);
        SOp o = exec(g, p, i, both && g.chance(50)); scale_op(g, o); if (p.type == PT_C2C) o.real = g.chance(20); sc.ops.push_back(o); sc.ops.push_back(op(OP_DESTROY, i));
    }
}

bool g_outside = false;
Scenario make_scenario(int prop, uint64_t seed, uint64_t index) {
    Rng g(mix(mix(seed, 0x9e37 + (uint64_t)prop), index)); Scenario sc; int id = atoi(props[prop].id + 1);
    Want w; 
    switch (id) {
    case 1: { w.types = B(PT_C2C); if (g.chance(1)) { lengths(g, sc, w, 1000, false); break; } procs(g, sc, 1, 12); int c = some_comm(g, sc, 30); SPlan p = rand_plan(g, sc, c, w); create(sc, p); int k = g.range(1, 2); for (int i = 0; i < k; i++) { SOp o = exec(g, p, 0, 0); o.real = g.chance(25); vary(g, p, o); sc.ops.push_back(o); } break; }
    case 2: { w.types = B(PT_C2C) | B(PT_R2C); if (g.chance(1)) { lengths(g, sc, w, 1000, true); break; } procs(g, sc, 1, 12); int c = some_comm(g, sc, 30); SPlan p = rand_plan(g, sc, c, w); create(sc, p);
              int k = g.range(1, 3); for (int i = 0; i < k; i++) { SOp o = exec(g, p, 0, g.chance(75)); scale_op(g, o); if (p.type == PT_C2C) o.real = g.chance(25); vary(g, p, o); sc.ops.push_back(o); } break; }
    case 3: { w.types = B(PT_R2C); if (g.chance(1)) { lengths(g, sc, w, 1000, true); break; } procs(g, sc, 1, 12); int c = some_comm(g, sc, 30); SPlan p = rand_plan(g, sc, c, w); create(sc, p);
              int k = g.range(1, 3); for (int i = 0; i < k; i++) { SOp o = exec(g, p, 0, g.chance(50)); if (g.chance(30)) scale_op(g, o); vary(g, p, o); sc.ops.push_back(o); } break; }
    case 4: { w.types = B(PT_COS) | B(PT_SIN) | B(PT_COS1) | B(PT_SIN1); w.limit = 500; if (g.chance(2)) { lengths(g, sc, w, 280, true); break; } procs(g, sc, 1, 10); int c = some_comm(g, sc, 30); SPlan p = rand_plan(g, sc, c, w); create(sc, p);
              int k = g.range(1, 3); for (int i = 0; i < k; i++) { SOp o = exec(g, p, 0, g.chance(50)); if (g.chance(50)) scale_op(g, o); vary(g, p, o); sc.ops.push_back(o); } break; }
    case 5: { procs(g, sc, 1, 10); bool wide = g.chance(5), vast = wide && g.chance(25); w.types = B(PT_C2C) | B(PT_R2C) | (g.chance(40) ? B(PT_COS) | B(PT_SIN) | B(PT_COS1) | B(PT_SIN1) : 0); w.limit = vast ? 20 : wide ? 80 : 300; int c = some_comm(g, sc, 20); SPlan p = rand_plan(g, sc, c, w); create(sc, p);
              int k = g.range(1, 3); for (int i = 0; i < k; i++) { SOp o = exec(g, p, 0, g.chance(50)); o.form = g.range(2, 3); o.batch = vast ? g.range(21, 140) : wide ? g.range(6, 20) : g.range(1, 5); if (o.batch == 1 && g.chance(70)) o.batch = 2; if (g.chance(40)) scale_op(g, o); if (p.type == PT_C2C) o.real = g.chance(20); sc.ops.push_back(o); } break; }
    case 6: { procs(g, sc, 1, 10); bool ip = g.chance(65); w.types = ip ? B(PT_C2C) : 0x3f; int c = some_comm(g, sc, 20); SPlan p = rand_plan(g, sc, c, w); create(sc, p);
              int k = g.range(1, 3); for (int i = 0; i < k; i++) { SOp o = exec(g, p, 0, g.chance(50)); o.inplace = ip; o.form = g.range(0, 3); if (o.form >= 2) o.batch = g.range(1, 3); if (g.chance(40)) scale_op(g, o); if (!ip && p.type == PT_C2C) o.real = g.chance(30); sc.ops.push_back(o); } break; }
    case 7: { procs(g, sc, 1, 10); w.types = 0x3f; w.emptypct = 40; int c = some_comm(g, sc, 20); SPlan p = rand_plan(g, sc, c, w); create(sc, p); sc.ops.push_back(op(OP_SIZES, 0));
              int k = g.range(1, 3); for (int i = 0; i < k; i++) { SOp o = exec(g, p, 0, g.chance(50)); o.form = g.range(0, 3); if (o.form >= 2) o.batch = g.range(1, 4); if (p.type == PT_C2C) o.real = g.chance(30); o.inplace = p.type == PT_C2C && !o.real && g.chance(25); sc.ops.push_back(o); }
              sc.ops.push_back(op(OP_SIZES, 0)); break; }
    case 8: { procs(g, sc, 1, 8); int t = g.range(0, 9); w.types = t < 5 ? B(PT_C2C) : t < 8 ? B(PT_R2C) : B(g.range(PT_COS, PT_COS1)); w.limit = 300; int c = some_comm(g, sc, 20); SPlan p = rand_plan(g, sc, c, w); int k = g.range(3, 5); SOp o = exec(g, p, 0, g.chance(50)); scale_op(g, o);
              for (int i = 0; i < k; i++) { SPlan q = p; q.backend = g.range(0, p.type == PT_COS1 ? 1 : 2); q.idx64 = g.chance(50); q.reorder = g.chance(50); q.alg = g.range(0, 3); q.pencils = g.chance(50); q.gpuaware = g.chance(50); q.defopts = g.chance(10); q.ctor = g.range(0, 2); q.subranks = 0;
                  create(sc, q); o.plan = i; o.form = g.range(0, 1); sc.ops.push_back(o); } break; }
    case 9: { procs(g, sc, 1, 7); bool lng = g.chance(3), mar = lng && g.chance(40); w.types = 0x3f; w.limit = mar ? 30 : lng ? 60 : 250; w.capi = 15; int k = mar ? 1 : g.range(1, 3); // mar: one plan used hundreds of times
              for (int i = 0; i < k; i++) { int c = some_comm(g, sc, 50); create(sc, rand_plan(g, sc, c, w)); }
              if (!mar && g.chance(40)) { SPlan q = sc.plans[0]; q.alg = g.range(0, 3); create(sc, q); k++; } // same class of plan: candidate for move assignment
              std::vector<SOp> pool; int m = mar ? g.range(140, 300) : lng ? g.range(40, 90) : g.range(6, 14);
              std::vector<int> alive(k, 1);
              for (int i = 0; i < m; i++) {
                  int p = g.range(0, k - 1); SPlan const &q = sc.plans[p]; int r = g.range(mar ? 18 : 0, 99);
                  if (r < 10) { sc.ops.push_back(op(OP_MOVE, p, -1)); }
                  else if (r < 14) { sc.ops.push_back(op(OP_DESTROY, p)); sc.ops.push_back(op(OP_CREATE, p)); }
                  else if (r < 18 && k > 1) { SPlan a = sc.plans[p]; int t = -1; for (int z = 0; z < k; z++) if (z != p && sc.plans[z].comm == a.comm && sc.plans[z].type == a.type && sc.plans[z].backend == a.backend && sc.plans[z].idx64 == a.idx64) t = z;
                      if (t >= 0) { sc.ops.push_back(op(OP_MOVE, p, t)); sc.ops.push_back(op(OP_CREATE, t)); } }
                  else if (r < 45 && !pool.empty()) { sc.ops.push_back(pool[g.below(pool.size())]); }
                  else { SOp o = exec(g, q, p, g.chance(50)); o.form = g.range(0, 3); if (o.form >= 2) o.batch = g.range(1, 4); if (q.type == PT_C2C) o.real = g.chance(20); if (g.chance(30)) scale_op(g, o); sc.ops.push_back(o); pool.push_back(o); }
              } break; }
    case 10: { procs(g, sc, 2, 8); w.types = 0x3f | B(PT_RESHAPE); w.limit = 300; int c = some_comm(g, sc, 20); SPlan p = rand_plan(g, sc, c, w); create(sc, p); int k = g.range(1, 2);
              for (int i = 0; i < k; i++) { SOp o = exec(g, p, 0, g.chance(50)); if (p.type == PT_RESHAPE) o.dir = 0; o.form = g.range(0, 3); if (o.form >= 2) o.batch = g.range(1, 3); if (p.type == PT_C2C) o.real = g.chance(20); sc.ops.push_back(o); } break; }
    case 11: { if (g.chance(35)) { int n = g.range(7, 16); procs(g, sc, n, n); } else procs(g, sc, 2, g.chance(15) ? 24 : 12); w.types = B(PT_C2C) | B(PT_R2C) | B(PT_COS); w.limit = 600; w.emptypct = 40; w.subpct = 15; w.capi = 10; int k = g.range(1, 3);
              for (int i = 0; i < k; i++) { int c = some_comm(g, sc, 50); create(sc, rand_plan(g, sc, c, w)); }
              int m = g.range(1, 5); for (int i = 0; i < m; i++) { int p = g.range(0, k - 1); SOp o = exec(g, sc.plans[p], p, g.chance(50)); o.form = g.range(0, 3); if (o.form >= 2) o.batch = g.range(1, 2); sc.ops.push_back(o); }
              if (g.chance(50)) { int a = g.range(1, 2); for (auto &p : sc.plans) { p.alg = a; p.defopts = 0; } } break; }
    case 12: { procs(g, sc, 1, 14); w.types = B(PT_RESHAPE); w.emptypct = 40; w.limit = g.chance(1) ? 200000 : 1500; bool huge = w.limit > 2000; w.orderpct = 60; int c = some_comm(g, sc, 30); SPlan p = rand_plan(g, sc, c, w); p.defopts = 0; if (huge) { int n = (int)sc.comms[c].members.size(); for (int d = 0; d < 3; d++) p.world[d] = g.range(3, 90); if (p.count() < n) p.world[0] += n; p.in = boxes(g, p.world, n, g.chance(40), 60); p.out = boxes(g, p.world, n, g.chance(40), 60); } create(sc, p); int k = g.range(1, 3);
              for (int i = 0; i < k; i++) { SOp o = exec(g, p, 0, 0); o.batch = w.limit > 2000 ? g.range(1, 2) : g.chance(40) ? g.range(2, g.chance(6) ? 17 : 4) : 1; sc.ops.push_back(o); } break; }
    case 13: { procs(g, sc, 2, 12); w.types = 0x3f | B(PT_RESHAPE); w.limit = 500; w.emptypct = 30; int k = g.range(1, 2); for (int i = 0; i < k; i++) { int c = some_comm(g, sc, 40); SPlan p = rand_plan(g, sc, c, w); if (g.chance(60)) p.alg = g.range(1, 2); p.defopts = 0; create(sc, p); }
              int m = g.range(1, 4); for (int i = 0; i < m; i++) { int p = g.range(0, k - 1); SOp o = exec(g, sc.plans[p], p, sc.plans[p].type == PT_RESHAPE ? 0 : (int)g.chance(50)); o.form = g.range(0, 3); if (o.form >= 2 || sc.plans[p].type == PT_RESHAPE) o.batch = g.range(1, 3); if (sc.plans[p].type == PT_C2C) { o.real = g.chance(20); o.inplace = !o.real && g.chance(30); } sc.ops.push_back(o); } break; }
    case 14: { procs(g, sc, 1, 6); w.types = 0x3f | B(PT_RESHAPE); w.limit = 250; w.capi = 15; int k = g.range(1, 2); for (int i = 0; i < k; i++) { int c = some_comm(g, sc, 40); sc.plans.push_back(rand_plan(g, sc, c, w)); }
              if (g.chance(15)) damage(g, sc.plans[0]);
              int cyc = g.chance(4) ? g.range(8, 20) : g.range(3, 4); std::vector<SOp> body; 
              for (int i = 0; i < k; i++) body.push_back(op(OP_CREATE, i));
              for (int i = 0; i < g.range(1, 3); i++) { int p = g.range(0, k - 1); SOp o = exec(g, sc.plans[p], p, sc.plans[p].type == PT_RESHAPE ? 0 : (int)g.chance(50)); o.form = g.range(0, 3); if (o.form >= 2) o.batch = g.range(1, 2); body.push_back(o); }
              if (g.chance(40)) body.push_back(op(OP_MOVE, g.range(0, k - 1), -1));
              for (int i = 0; i < k; i++) body.push_back(op(OP_DESTROY, i));
              for (int c = 0; c < cyc; c++) { for (auto &o : body) sc.ops.push_back(o); sc.ops.push_back(op(OP_CHECKPOINT, 0, c)); } break; }
    case 15: { procs(g, sc, 2, 8); w.types = 0x3f; w.limit = 250; w.capi = 12; int k = g.range(2, 3); for (int i = 0; i < k; i++) { int c = some_comm(g, sc, 60); SPlan p = rand_plan(g, sc, c, w); if (g.chance(35)) p.alg = g.range(1, 2); sc.plans.push_back(p); }
              int open = -1; bool wild = false; std::vector<int> use(sc.comms.size(), 0); // 1: messages of the user, 2: no further ones (a receive from any source may take what was sent later)
              auto post = [&]() { if (open >= 0) return; int cm = g.range(0, (int)sc.comms.size() - 1); if (use[cm] == 2) return; open = cm; SOp o = op(OP_USERPOST, open, g.range(0, 3), g.range(1, 20), g.chance(40) ? 0 : g.range(11, 15)); o.dir = g.chance(50) ? g.range(1, 3) : 0; if (use[cm]) o.dir &= 1; use[cm] = o.dir & 2 ? 2 : 1; wild = o.dir != 0; sc.ops.push_back(o); };
              if (g.chance(25)) post();
              for (int i = 0; i < k; i++) sc.ops.push_back(op(OP_CREATE, i));
              int m = g.range(4, 10); for (int i = 0; i < m; i++) { int p = g.range(0, k - 1); int r = g.range(0, 99); int cm = g.range(0, (int)sc.comms.size() - 1); int tag = g.range(0, 5);
                  if (r < 15) { if ((open == cm && (wild || tag == 0)) || use[cm] == 2) continue; use[cm] = 1; sc.ops.push_back(op(OP_USERMSG, cm, g.range(0, 3), g.range(1, 20), tag)); } else if (r < 30) post(); else if (r < 38 && open >= 0) { open = -1; sc.ops.push_back(op(OP_USERDONE, 0)); } else if (r < 46) sc.ops.push_back(op(OP_USERCOLL, cm));
                  else if (r < 50) sc.ops.push_back(op(OP_BARRIER, cm)); else if (r < 54) { sc.ops.push_back(op(OP_DESTROY, p)); sc.ops.push_back(op(OP_CREATE, p)); } else { SOp o = exec(g, sc.plans[p], p, g.chance(50)); o.form = g.range(0, 3); if (o.form >= 2) o.batch = g.range(1, 2); sc.ops.push_back(o); } }
              break; }
    case 16: { procs(g, sc, 2, 12); w.types = 0x3f; w.subpct = 0; w.limit = 400; int c = some_comm(g, sc, 25); if (sc.comms[c].members.size() < 2) c = 0; SPlan p; 
              for (int t = 0; t < 50; t++) { p = rand_plan(g, sc, c, w); int n = (int)sc.comms[c].members.size(); p.subranks = g.range(1, n + 1); if (p.subranks >= n) p.subranks = g.chance(80) ? g.range(1, n - 1) : p.subranks; if (p.type != PT_R2C || 1) break; }
              create(sc, p); sc.ops.push_back(op(OP_PLANLOGIC, 0)); int k = g.range(1, 2); for (int i = 0; i < k; i++) { SOp o = exec(g, p, 0, g.chance(50)); o.form = g.range(0, 3); if (o.form >= 2) o.batch = g.range(1, 2); if (g.chance(30)) scale_op(g, o); sc.ops.push_back(o); } break; }
    case 17: { procs(g, sc, 2, 10); w.types = B(PT_C2C) | B(PT_R2C) | B(PT_COS); w.orderpct = 20; w.emptypct = 30; int c = some_comm(g, sc, 20); SPlan p; bool done = false;
              for (int t = 0; t < 100 && !done; t++) { p = rand_plan(g, sc, c, w); p.subranks = 0; done = damage(g, p); }
              if (!done) p.invalid = 0;
              if (!p.invalid) { p = rand_plan(g, sc, c, w); p.subranks = 0; }
              create(sc, p); SPlan q = rand_plan(g, sc, c, w); create(sc, q); sc.ops.push_back(exec(g, q, 1, g.chance(50))); break; } // life goes on after the rejection
    case 18: { procs(g, sc, 1, g.chance(20) ? 24 : 12); w.types = B(PT_C2C) | B(PT_R2C); w.emptypct = 40; w.limit = 4000; w.subpct = 25; int c = some_comm(g, sc, 30); SPlan p = rand_plan(g, sc, c, w);
              if (g.chance(25)) { // sizes that no machine here could hold: a plan needs no data
                  for (int d = 0; d < 3; d++) p.world[d] = p.twod && d == 2 ? 1 : p.idx64 ? g.range(1, 1 << g.range(5, 16)) + 24 : g.range(24, 3000);
                  if (!p.idx64) p.idx64 = g.chance(50); int n = (int)sc.comms[c].members.size(); long long cw[3] = {p.cworld(0), p.cworld(1), p.cworld(2)}; p.in = boxes(g, p.world, n, g.chance(30), w.orderpct); p.out = boxes(g, cw, n, g.chance(30), w.orderpct); } sc.plans.push_back(p); sc.ops.push_back(op(OP_PLANLOGIC, 0));
              if (g.chance(12)) { // more processes than can be simulated: only the planner runs, on one process, with the boxes of all
                  sc = Scenario(); procs(g, sc, 1, 1); SPlan q = rand_plan(g, sc, 0, w); q.subcomm = -1; q.recipe = 0; q.subranks = 0; q.capi = 0; int n = g.chance(30) ? g.range(200, 520) : g.range(13, 130);
                  for (int t = 0; t < 100; t++) { for (int d = 0; d < 3; d++) q.world[d] = q.twod && d == 2 ? 1 : g.range(2, g.chance(50) ? 40 : 2000); long long cw[3] = {q.cworld(0), q.cworld(1), q.cworld(2)}; if (roomy(q.world, n) && roomy(cw, n)) break; }
                  long long cw[3] = {q.cworld(0), q.cworld(1), q.cworld(2)}; if (g.chance(40)) q.subranks = g.range(1, n); if (q.count() > 2000000000ll) q.idx64 = 1;
                  q.in = boxes(g, q.world, n, g.chance(30), w.orderpct); q.out = boxes(g, cw, n, g.chance(30), w.orderpct); sc.plans.push_back(q); SOp o = op(OP_PLANLOGIC, 0); o.a = 1; sc.ops.push_back(o); }
              break; }
    case 19: { procs(g, sc, 1, 24); if (g.chance(50)) { sc.nranks = g.range(1, 24); sc.comms[0].members.clear(); for (int i = 0; i < sc.nranks; i++) sc.comms[0].members.push_back(i); }
              w.types = g.chance(70) ? B(PT_C2C) : B(PT_R2C); w.orderpct = 0; w.emptypct = 0; w.limit = 900; w.twodpct = 0; w.subpct = 0; SPlan p; int n = sc.nranks;
              for (int t = 0; t < 300; t++) { p = rand_plan(g, sc, 0, w); p.idx64 = 0; bool tight = g.chance(30); if (tight) for (int d = 0; d < 3; d++) p.world[d] = g.range(1, 9);
                  bool ok = tight || roomy(p.world, n) || t > 200; long long c[3] = {p.cworld(0), p.cworld(1), p.cworld(2)}; if (!tight && !roomy(c, n) && t <= 200) ok = false;
                  for (int v = 0; v < 2; v++) { bool f = false; long long *x = v ? c : p.world; for (int a = 1; a <= n; a++) if (n % a == 0) for (int b = 1; b <= n / a; b++) if ((n / a) % b == 0 && a <= x[0] && b <= x[1] && n / a / b <= x[2]) f = true; if (!f) ok = false; }
                  if (ok && tight) { p.in = boxes(g, p.world, n, false, 0); p.out = boxes(g, c, n, false, 0); }
                  if (ok) break; p.recipe = -1; }
              if (p.recipe < 0) { p.recipe = 0; for (int d = 0; d < 3; d++) p.world[d] = 4 + 20 * (d == 2); long long c[3] = {p.cworld(0), p.cworld(1), p.cworld(2)}; p.in = boxes(g, p.world, n, false, 0); p.out = boxes(g, c, n, false, 0); } else p.recipe = 1;
              create(sc, p); int k = g.range(1, 2); for (int i = 0; i < k; i++) { SOp o = exec(g, p, 0, g.chance(40)); sc.ops.push_back(o); } break; }
    case 20: { procs(g, sc, 1, 8); w.types = B(PT_C2C) | B(PT_R2C); w.capi = 1; w.limit = 300; int c = some_comm(g, sc, 25); SPlan p = rand_plan(g, sc, c, w); create(sc, p);
              int k = g.range(1, 4); for (int i = 0; i < k; i++) { SOp o = exec(g, p, 0, g.chance(50)); scale_op(g, o); if (p.type == PT_C2C) o.real = g.chance(30); sc.ops.push_back(o); }
              if (g.chance(35)) { int a = g.range(0, 2); SOp o = op(OP_CAPIERR, 0, a, a == 2 ? (g.chance(50) ? 3 : g.range(4, 9)) : (g.chance(50) ? -1 : g.range(3, 12))); sc.ops.push_back(o); }
              if (g.chance(15) && sc.comms[c].members.size() > 1) { SPlan q = p; auto &b = q.in[0]; bool bad = false; if (!b.empty()) for (int d = 0; d < 3 && !bad; d++) if (b.hi[d] < q.world[d] - 1) { b.hi[d]++; bad = true; } if (bad) { q.invalid = INV_OVERLAP_IN; sc.plans.push_back(q); sc.ops.push_back(op(OP_CAPIERR, (int)sc.plans.size() - 1, 3)); } }
              if (g.chance(30)) { int c2 = some_comm(g, sc, 25); SPlan q = rand_plan(g, sc, c2, w); if (g.chance(30)) { q.capi = 0; } int i2 = (int)sc.plans.size(); create(sc, q); for (int i = 0, m = g.range(1, 3); i < m; i++) { int t = g.chance(50) ? 0 : i2; SOp o = exec(g, sc.plans[t], t, g.chance(50)); scale_op(g, o); sc.ops.push_back(o); }
                  if (g.chance(50)) sc.ops.push_back(op(OP_DESTROY, i2)); else { sc.ops.push_back(op(OP_DESTROY, 0)); sc.ops.push_back(exec(g, q, i2, g.chance(50))); sc.ops.push_back(op(OP_DESTROY, i2)); break; } }
              if (g.chance(30)) sc.ops.push_back(sibling(g, p, 0));
              sc.ops.push_back(op(OP_SIZES, 0)); sc.ops.push_back(op(OP_DESTROY, 0)); if (g.chance(50)) sc.ops.push_back(op(OP_CHECKPOINT, 0, 0)); break; }
    case 21: { procs(g, sc, 1, 6); w.types = 0x3f; w.limit = 250; int c = some_comm(g, sc, 30); SPlan p = rand_plan(g, sc, c, w); create(sc, p); SOp o = exec(g, p, 0, g.chance(50)); sc.ops.push_back(o); 
              int cyc = g.range(1, 3); bool samename = g.chance(50), again = g.chance(60); std::vector<SOp> body; // the same operations traced again, often into the same file
              for (int i = 0; i < cyc; i++) { if (!i || !again) { body.clear(); int k = g.range(0, 2); body.push_back(o); for (int j = 0; j < k; j++) { SOp q = exec(g, p, 0, g.chance(50)); q.form = g.range(0, 3); if (q.form >= 2) q.batch = 2; body.push_back(q); } }
                  sc.ops.push_back(op(OP_TRACE_INIT, 0, samename ? 0 : i)); int times = i && again && g.chance(50) ? g.chance(12) ? g.range(10, 25) : g.range(2, 3) : 1; for (int t = 0; t < times; t++) for (auto &q : body) sc.ops.push_back(q); sc.ops.push_back(op(OP_TRACE_FIN, 0)); if (i && g.chance(30)) sc.ops.push_back(o); }
              sc.ops.push_back(o); break; }
    case 22: { bool solo = g.chance(55); if (solo) procs(g, sc, 1, 1); else procs(g, sc, 2, 6); w.types = 0x3f; w.limit = 300; w.orderpct = 60; w.capi = 20; SPlan p = rand_plan(g, sc, 0, w); sc.plans.push_back(p);
              std::vector<SOp> body; body.push_back(op(OP_CREATE, 0)); int k = g.range(1, 3); for (int i = 0; i < k; i++) { SOp o = exec(g, p, 0, g.chance(50)); o.form = g.range(0, 4); if (o.form == 2 || o.form == 3) o.batch = g.range(1, 2); body.push_back(o); }
              body.push_back(op(OP_DESTROY, 0)); int cyc = solo ? g.range(2, 3) : 1; // one process: the same cycle again, what it holds afterwards must not have grown
              for (int c = 0; c < cyc; c++) { for (auto &o : body) sc.ops.push_back(o); if (solo) sc.ops.push_back(op(OP_CHECKPOINT, 0, c)); }
              sc.f.allocop = (solo ? (int)body.size() + 1 : 0) + (g.chance(45) ? 0 : g.range(1, (int)body.size() - 1)); break; }
    case 23: { procs(g, sc, 1, 8); w.types = 0x3f; w.limit = 300; w.emptypct = 0; int c = some_comm(g, sc, 25); SPlan p = rand_plan(g, sc, c, w); create(sc, p); int k = g.range(1, 3);
              bool full = true; for (auto &b : p.in) full = full && !b.empty(); for (auto &b : p.out) full = full && !b.empty();
              for (int i = 0; i < k; i++) { SOp o = exec(g, p, 0, g.chance(50)); o.form = 4; if (g.chance(30)) o.b = g.range(1, g.chance(30) ? 300 : 9); scale_op(g, o); if (p.type == PT_C2C) o.real = g.chance(35); if (full && g.chance(25)) { o.kind = OP_SHORTVEC; o.b = 0; o.a = (int)g.below(1000); } sc.ops.push_back(o); } break; }
    case 24: { procs(g, sc, 1, 8); w.types = B(PT_C2C) | B(PT_R2C); w.fort = 100; w.limit = 300; w.orderpct = g.chance(50) ? 60 : 10; int k = g.range(1, 3), cyc = g.chance(40) ? 3 : 1; std::vector<SOp> body;
              for (int i = 0; i < k; i++) { int c = some_comm(g, sc, 35); if (i && g.chance(25)) w.fort = 0; sc.plans.push_back(rand_plan(g, sc, c, w)); body.push_back(op(OP_CREATE, i)); } // now and then next to a plan of C++
              for (int i = 0, m = g.range(1, cyc > 1 ? 3 : 6); i < m; i++) { int t = g.range(0, k - 1); SPlan const &p = sc.plans[t]; if (g.chance(20)) body.push_back(op(OP_MOVE, t, -1)); if (g.chance(8)) { body.push_back(op(OP_DESTROY, t)); body.push_back(op(OP_CREATE, t)); }
                  SOp o = exec(g, p, t, g.chance(50)); o.form = g.range(0, 3); if (o.form >= 2) o.batch = g.range(1, 4); scale_op(g, o); if (p.type == PT_C2C) { o.real = g.chance(35); o.inplace = !o.real && g.chance(25); } body.push_back(o); if (g.chance(15)) body.push_back(op(OP_SIZES, t)); if (p.capi && !p.invalid && g.chance(18)) body.push_back(sibling(g, p, t)); }
              for (int i = 0; i < k; i++) if (cyc > 1 || g.chance(60)) body.push_back(op(OP_DESTROY, i));
              for (int c = 0; c < cyc; c++) { for (auto &o : body) sc.ops.push_back(o); if (cyc > 1) sc.ops.push_back(op(OP_CHECKPOINT, 0, c)); } break; }
    case 25: { procs(g, sc, 1, 8); w.types = B(PT_C2C) | B(PT_R2C); w.py = 100; w.limit = 300; w.twodpct = 4; w.orderpct = g.chance(50) ? 60 : 10; int k = g.range(1, 3), cyc = g.chance(30) ? 3 : 1; std::vector<SOp> body;
              for (int i = 0; i < k; i++) { int c = some_comm(g, sc, 35); if (i && g.chance(20)) w.py = 0; SPlan p = rand_plan(g, sc, c, w); if (p.capi == 3 && !g.range(0, 4)) p.recipe = 1; if (p.capi == 3 && g.chance(8)) { p.recipe = 0; damage(g, p); } sc.plans.push_back(p); body.push_back(op(OP_CREATE, i)); }
              for (int i = 0, m = g.range(1, cyc > 1 ? 3 : 6); i < m; i++) { int t = g.range(0, k - 1); SPlan const &p = sc.plans[t]; if (g.chance(8)) { body.push_back(op(OP_DESTROY, t)); body.push_back(op(OP_CREATE, t)); }
                  if (p.capi == 3 && g.chance(40)) { int e = g.chance(20) ? g.range(20, 21) : g.range(0, 8); SOp o = op(OP_CAPIERR, t, e, e == 20 ? pick_of(g, {-1, 3, 9, 10, 11, 12}) : pick_of(g, {-1, 3, 4})); o.seed = (unsigned)g.below(1u << 30); body.push_back(o); }
                  SOp o = exec(g, p, t, g.chance(50)); o.form = g.range(0, 1); scale_op(g, o); if (p.type == PT_C2C) { o.real = g.chance(35); o.inplace = !o.real && g.chance(25); } body.push_back(o); if (g.chance(15)) body.push_back(op(OP_SIZES, t)); if (p.capi && !p.invalid && g.chance(18)) body.push_back(sibling(g, p, t)); }
              for (int i = 0; i < k; i++) if (cyc > 1 || g.chance(60)) body.push_back(op(OP_DESTROY, i));
              for (int c = 0; c < cyc; c++) { for (auto &o : body) sc.ops.push_back(o); if (cyc > 1) sc.ops.push_back(op(OP_CHECKPOINT, 0, c)); } break; }
    case 26: case 27: case 28: { procs(g, sc, 1, 6); w.types = g.chance(80) ? B(PT_C2C) | B(PT_R2C) | B(PT_COS) | B(PT_SIN) | (id == 28 ? 0 : B(PT_COS1)) | B(PT_RESHAPE) : B(g.range(PT_C2C, PT_R2C)); w.backends = B(BK_CUFFT); w.limit = 299; w.emptypct = g.chance(50) ? 30 : 0; int k = g.range(1, 3), cyc = g.chance(25) ? 3 : 1; std::vector<SOp> body;
              for (int i = 0; i < k; i++) { int c = some_comm(g, sc, 35); w.capi = id != 28 && g.chance(12) ? 1 : 0; SPlan p = rand_plan(g, sc, c, w); p.backend = BK_CUFFT; p.gstream = p.capi || g.chance(30) ? 0 : g.range(1, 4); if (p.gstream) p.ctor = 2; sc.plans.push_back(p); body.push_back(op(OP_CREATE, i)); }
              for (int i = 0, m = g.range(1, cyc > 1 ? 3 : 6); i < m; i++) { int t = g.range(0, k - 1); SPlan const &p = sc.plans[t]; if (g.chance(8)) body.push_back(op(OP_MOVE, t, -1)); if (g.chance(8)) { body.push_back(op(OP_DESTROY, t)); body.push_back(op(OP_CREATE, t)); }
                  SOp o = exec(g, p, t, p.type == PT_RESHAPE ? 0 : (int)g.chance(50)); if (p.type == PT_RESHAPE) o.batch = g.range(1, 3); else { o.form = g.range(0, g.chance(30) ? 4 : 3); if (o.form == 2 || o.form == 3) o.batch = g.range(1, 4); scale_op(g, o); if (p.type == PT_C2C) { o.real = g.chance(30); o.inplace = !o.real && o.form < 4 && g.chance(25); } } body.push_back(o); if (p.type != PT_RESHAPE && g.chance(10)) body.push_back(op(OP_SIZES, t)); }
              for (int i = 0; i < k; i++) if (cyc > 1 || g.chance(60)) body.push_back(op(OP_DESTROY, i));
              for (int c = 0; c < cyc; c++) { for (auto &o : body) sc.ops.push_back(o); if (cyc > 1) sc.ops.push_back(op(OP_CHECKPOINT, 0, c)); } break; }
    }
    for (auto &p : sc.plans) if (p.capi == 1) p.alg %= 3; // the C interface does not offer the exchange of equal blocks
    for (auto &o : sc.ops) if (o.kind == OP_EXEC && sc.plans[o.plan].capi == 1) { o.form &= 1; o.batch = 1; } // the C interface has no batches and no containers
    if (id != 14 && id != 18) { bool has = false; for (auto &o : sc.ops) if (o.kind == OP_DESTROY) has = true; if (!has && g.chance(80)) destroy_all(sc); }
    faults(g, sc);
    if (id >= 26 && id <= 28) { sc.f.gpulazy = g.range(0, 3); sc.f.gpumpi = g.chance(60); if (!sc.f.gpumpi) for (auto &p : sc.plans) p.gpuaware = p.defopts = 0; }
    if (id == 7) { sc.f.efence = g.chance(70); sc.f.misalign = g.chance(40); }
    if (id == 21 && g.chance(25)) sc.f.tracefault = g.range(1, 2);
    if (id == 22) { sc.f.allocrank = sc.nranks == 1 ? 0 : g.chance(30) ? -2 : g.range(0, sc.nranks - 1); int r = g.range(0, 9); sc.f.allocnth = r < 6 ? g.range(0, 12) : g.range(0, r < 9 ? 80 : 400); sc.f.alloccnt = g.chance(80) ? 1 : 1000000;
        if (sc.plans[0].backend != BK_STOCK && g.chance(50)) { sc.f.fftfail = g.range(1, g.chance(70) ? 4 : 12); sc.f.allocnth = 1 << 29; } if (g.chance(10)) { sc.f.allocrank = -1; } }
    if (g_outside) { sc.f.strict = 1; if (id == 16 && sc.nranks > 2) { SComm c; c.how = 2; int n = (int)sc.comms[sc.plans[0].comm].members.size(); for (int i = 1; i < n; i++) c.members.push_back(sc.comms[sc.plans[0].comm].members[i]); sc.comms.push_back(c); sc.plans[0].subranks = 0; sc.plans[0].subcomm = (int)sc.comms.size() - 1; sc.plans[0].alg = 0; } }
    return sc;
}

// ---- text -------------------------------------------------------------------------
static void put_box(std::ostream &o, SBox const &b) { for (int d = 0; d < 3; d++) o << b.lo[d] << ' ' << b.hi[d] << ' '; for (int d = 0; d < 3; d++) o << b.order[d] << (d < 2 ? " " : ""); }
static bool get_box(std::istream &i, SBox &b) { for (int d = 0; d < 3; d++) i >> b.lo[d] >> b.hi[d]; for (int d = 0; d < 3; d++) i >> b.order[d]; return (bool)i; }
#define OPF(X) X(kind) X(plan) X(dir) X(prec) X(batch) X(scale) X(form) X(inplace) X(real) X(wsfill) X(ctype) X(a) X(b) X(c) X(seed)
#define PLF(X) X(comm) X(type) X(backend) X(capi) X(idx64) X(defopts) X(reorder) X(alg) X(pencils) X(gpuaware) X(subranks) X(subcomm) X(r2cdir) X(recipe) X(ctor) X(gstream) X(twod) X(invalid)
#define FAF(X) X(rdv) X(eagerlimit) X(collsync) X(clock) X(efence) X(misalign) X(allocrank) X(allocnth) X(alloccnt) X(allocop) X(tracefault) X(stallrank) X(gpulazy) X(gpumpi) X(fftfail) X(strict)
std::string scenario_text(Scenario const &s) {
    std::ostringstream o; o << "ranks " << s.nranks << "\npolicy " << s.policy << "\nschedseed " << s.schedseed << "\ndataseed " << s.dataseed << "\nfaults";
#define W(x) o << " " #x "=" << s.f.x;
    FAF(W) o << "\n";
#undef W
    for (auto &c : s.comms) { o << "comm how=" << c.how << " parent=" << c.parent << " members="; for (size_t i = 0; i < c.members.size(); i++) o << (i ? "," : "") << c.members[i]; o << "\n"; }
    for (auto &p : s.plans) { o << "plan";
#define W(f) o << " " #f "=" << p.f;
        PLF(W) o << " world=" << p.world[0] << "," << p.world[1] << "," << p.world[2] << " n=" << p.in.size() << "\n";
#undef W
        for (auto &b : p.in) { o << "in "; put_box(o, b); o << "\n"; } for (auto &b : p.out) { o << "out "; put_box(o, b); o << "\n"; } }
    for (auto &p : s.ops) { o << "op";
#define W(f) o << " " #f "=" << p.f;
        OPF(W) o << "\n"; }
#undef W
    return o.str();
}
bool scenario_parse(std::string const &t, Scenario &s) {
    std::istringstream f(t); std::string line; s = Scenario();
    while (std::getline(f, line)) {
        std::istringstream i(line); std::string k; if (!(i >> k)) continue;
        if (k == "ranks") i >> s.nranks; else if (k == "policy") i >> s.policy; else if (k == "schedseed") i >> s.schedseed; else if (k == "dataseed") i >> s.dataseed;
        else if (k == "in" || k == "out") { if (s.plans.empty()) return false; SBox b; if (!get_box(i, b)) return false; (k == "in" ? s.plans.back().in : s.plans.back().out).push_back(b); }
        else if (k == "faults" || k == "comm" || k == "plan" || k == "op") {
            if (k == "comm") s.comms.push_back(SComm()); if (k == "plan") s.plans.push_back(SPlan()); if (k == "op") s.ops.push_back(SOp());
            std::string w; while (i >> w) { size_t e = w.find('='); if (e == std::string::npos) return false; std::string n = w.substr(0, e), v = w.substr(e + 1);
                if (n == "members") { std::istringstream m(v); std::string x; while (std::getline(m, x, ',')) s.comms.back().members.push_back(atoi(x.c_str())); continue; }
                if (n == "world") { sscanf(v.c_str(), "%lld,%lld,%lld", &s.plans.back().world[0], &s.plans.back().world[1], &s.plans.back().world[2]); continue; }
                if (k == "comm") { if (n == "how") s.comms.back().how = atoi(v.c_str()); if (n == "parent") s.comms.back().parent = atoi(v.c_str()); }
#define W(x) if (k == "faults" && n == #x) s.f.x = (decltype(s.f.x))atoll(v.c_str());
                FAF(W)
#undef W
#define W(f) if (k == "plan" && n == #f) s.plans.back().f = (decltype(s.plans.back().f))atoll(v.c_str());
                PLF(W)
#undef W
#define W(f) if (k == "op" && n == #f) s.ops.back().f = (decltype(s.ops.back().f))atoll(v.c_str());
                OPF(W)
#undef W
            } }
        else if (k == "end") return true;
    }
    return s.nranks > 0;
}
