/*
 * Reference results: the global arrays behind every execution, computed from the
 * definition of each transform, one direction after the other, without any of
 * the code under test.
 */
#include "core.h"
#include <complex>
#include <cmath>
#include <memory>
#include <algorithm>
typedef std::complex<double> cd;
static const double PI = 3.14159265358979323846;

struct Ref { bool have = false; std::vector<std::vector<cd>> in, out; double mag = 0; };
static std::vector<Ref> *refs = nullptr; static std::vector<double> *factors = nullptr;
void oracle_start() { refs = new std::vector<Ref>(S->sc.ops.size()); factors = new std::vector<double>(S->sc.ops.size(), 0.0); }

static double value(uint64_t seed, int b, long long idx, int part) { // multiples of 1/1024 in [-1,1]: exact in every precision
    uint64_t h = mix(mix(seed, (uint64_t)b * 7919 + part), (uint64_t)idx + 0x1234567);
    return ((int)(h % 2049) - 1024) / 1024.0;
}
static void dim_apply(std::vector<cd> &a, const long long n[3], int d, int m, std::vector<cd> const &mat) { // out[k] = sum_j mat[k*n+j] in[j], n[d] -> m
    long long nn[3] = {n[0], n[1], n[2]}; nn[d] = m; long long N = n[d];
    std::vector<cd> o((size_t)(nn[0] * nn[1] * nn[2]));
    long long st = d == 0 ? 1 : d == 1 ? n[0] : n[0] * n[1], so = d == 0 ? 1 : d == 1 ? nn[0] : nn[0] * nn[1];
    int e = d == 0 ? 1 : 0, g = d == 2 ? 1 : 2;
    long long se = e == 0 ? 1 : n[0], oe = e == 0 ? 1 : nn[0], sg = g == 1 ? n[0] : n[0] * n[1], og = g == 1 ? nn[0] : nn[0] * nn[1];
    std::vector<cd> row((size_t)N);
    for (long long y = 0; y < n[g]; y++) for (long long x = 0; x < n[e]; x++) {
        const cd *p = &a[(size_t)(x * se + y * sg)]; cd *q = &o[(size_t)(x * oe + y * og)];
        for (long long j = 0; j < N; j++) row[j] = p[j * st];
        if (N > 128) { for (int k = 0; k < m; k++) { long double re = 0, im = 0; const cd *mm = &mat[(size_t)k * N];
            for (long long j = 0; j < N; j++) { re += (long double)mm[j].real() * row[j].real() - (long double)mm[j].imag() * row[j].imag(); im += (long double)mm[j].real() * row[j].imag() + (long double)mm[j].imag() * row[j].real(); }
            q[k * so] = cd((double)re, (double)im); } continue; }
        for (int k = 0; k < m; k++) { double re = 0, im = 0; const cd *mm = &mat[(size_t)k * N];
            for (long long j = 0; j < N; j++) { re += mm[j].real() * row[j].real() - mm[j].imag() * row[j].imag(); im += mm[j].real() * row[j].imag() + mm[j].imag() * row[j].real(); }
            q[k * so] = cd(re, im); }
    }
    a.swap(o);
}
static std::vector<cd> matrix(int type, int dir, int n) { // forward: the transform; backward: its exact inverse (complex: unscaled)
    std::vector<cd> m((size_t)n * n), root;
    if (type == PT_C2C || type == PT_R2C) for (int t = 0; t < n; t++) { double a = 2 * PI * (double)t / n; root.push_back(cd(std::cos(a), dir == 0 ? -std::sin(a) : std::sin(a))); }
    for (int k = 0; k < n; k++) for (int j = 0; j < n; j++) {
        cd v; 
        switch (type) {
        case PT_C2C: case PT_R2C: { v = root[(size_t)((long long)k * j % n)]; break; }
        case PT_COS: v = dir == 0 ? 2 * std::cos(PI * (double)((2LL * j + 1) * k % (4LL * n)) / (2.0 * n)) : (j == 0 ? 1.0 : 2 * std::cos(PI * (double)((2LL * k + 1) * j % (4LL * n)) / (2.0 * n))) / (2.0 * n); break;
        case PT_SIN: v = dir == 0 ? 2 * std::sin(PI * (double)((2LL * j + 1) * (k + 1) % (4LL * n)) / (2.0 * n)) : (j == n - 1 ? (k % 2 ? -1.0 : 1.0) : 2 * std::sin(PI * (double)((2LL * k + 1) * (j + 1) % (4LL * n)) / (2.0 * n))) / (2.0 * n); break;
        case PT_COS1: { double c = (j == 0) ? 1.0 : (j == n - 1) ? (k % 2 ? -1.0 : 1.0) : 2 * std::cos(PI * (double)((long long)j * k % (2LL * (n - 1))) / (n - 1)); v = dir == 0 ? c : c / (2.0 * (n - 1)); break; }
        default: { double s = 2 * std::sin(PI * (double)((long long)(j + 1) * (k + 1) % (2LL * (n + 1))) / (n + 1)); v = dir == 0 ? s : s / (2.0 * (n + 1)); break; }
        }
        m[(size_t)k * n + j] = v;
    }
    return m;
}
static bool real_in(SPlan const &p, SOp const &o) { return p.type != PT_C2C && p.type != PT_RESHAPE ? (p.type != PT_R2C || o.dir == 0) : (p.type == PT_RESHAPE ? o.prec < 2 : (o.real && o.dir == 0)); }
static bool real_out(SPlan const &p, SOp const &o) { return p.type != PT_C2C && p.type != PT_RESHAPE ? (p.type != PT_R2C || o.dir == 1) : (p.type == PT_RESHAPE ? o.prec < 2 : (o.real && o.dir == 1)); }
typedef std::complex<long double> cl;
static void line(const cl *in, cl *out, long long n, long long stride, const cl *root, long long N) { // splits by the smallest factor; root[j] is the j-th of N roots
    if (n == 1) { out[0] = in[0]; return; }
    long long q = 2; while (q * q <= n && n % q) q++; if (q * q > n) q = n;
    long long m = n / q, rs = N / n; std::vector<cl> sub((size_t)n);
    for (long long r = 0; r < q; r++) line(in + r * stride, &sub[(size_t)(r * m)], m, stride * q, root, N);
    for (long long k = 0; k < n; k++) { long double re = 0, im = 0; for (long long r = 0; r < q; r++) { cl const &a = sub[(size_t)(r * m + k % m)], &w = root[(size_t)(r * k % n * rs)]; re += a.real() * w.real() - a.imag() * w.imag(); im += a.real() * w.imag() + a.imag() * w.real(); } out[k] = cl(re, im); }
}
static void dim_long(std::vector<cd> &a, const long long n[3], int d, int dir) { // the same for lengths whose matrix would be too large
    long long N = n[d], st = d == 0 ? 1 : d == 1 ? n[0] : n[0] * n[1]; std::vector<cl> root((size_t)N), x((size_t)N), y((size_t)N); const long double PIL = 3.14159265358979323846264338327950288L;
    for (long long t = 0; t < N; t++) { long double v = 2 * PIL * (long double)t / (long double)N; root[(size_t)t] = cl(cosl(v), dir == 0 ? -sinl(v) : sinl(v)); }
    for (long long b = 0; b < (long long)a.size(); b++) { if (b / st % N) continue; for (long long j = 0; j < N; j++) x[(size_t)j] = cl(a[(size_t)(b + j * st)].real(), a[(size_t)(b + j * st)].imag()); line(x.data(), y.data(), N, 1, root.data(), N); for (long long j = 0; j < N; j++) a[(size_t)(b + j * st)] = cd((double)y[(size_t)j].real(), (double)y[(size_t)j].imag()); }
}
static void full(SPlan const &p, int dir, std::vector<cd> &a) {
    long long n[3] = {p.world[0], p.world[1], p.world[2]};
    if (p.type == PT_C2C || p.type == PT_R2C) for (int d = 0; d < 3; d++) if (n[d] > 1030) { for (int e = 0; e < 3; e++) { if (n[e] > 1030) dim_long(a, n, e, dir); else dim_apply(a, n, e, (int)n[e], matrix(p.type, dir, (int)n[e])); } return; }
    for (int d = 0; d < 3; d++) dim_apply(a, n, d, (int)n[d], matrix(p.type, dir, (int)n[d]));
}
static Ref &ref(int op) {
    Ref &r = (*refs)[op]; if (r.have) return r;
    r.have = true; SOp const &o = S->sc.ops[op]; SPlan const &p = S->sc.plans[o.plan];
    uint64_t seed = mix(S->sc.dataseed, o.seed);
    long long N = p.count(); int nb = std::max(1, o.batch);
    for (int b = 0; b < nb; b++) {
        std::vector<cd> x((size_t)N);
        bool realdata = (p.type != PT_C2C && p.type != PT_RESHAPE) || o.real || (p.type == PT_RESHAPE && o.prec < 2);
        for (long long i = 0; i < N; i++) x[i] = cd(value(seed, b, i, 0), realdata ? 0.0 : value(seed, b, i, 1));
        if (p.type == PT_RESHAPE) { r.in.push_back(x); r.out.push_back(std::move(x)); continue; }
        bool roundtrip = o.dir == 1 && (p.type == PT_R2C || o.real); // the input has to be the spectrum of real data
        std::vector<cd> y = x;
        if (roundtrip) {
            full(p, 0, y);
            // the input handed over is y, the result N * x
            for (auto &v : x) v *= (double)N;
            r.in.push_back(std::move(y)); r.out.push_back(std::move(x));
        } else { full(p, o.dir, y); r.in.push_back(std::move(x)); r.out.push_back(std::move(y)); }
    }
    for (auto &v : r.out) for (auto &c : v) r.mag = std::max(r.mag, std::abs(c));
    return r;
}
static SBox const &boxof(SPlan const &p, bool inside, int r) { return inside ? p.in[r] : p.out[r]; }
template<typename F> static void each(SBox const &b, F f) { // local storage order
    if (b.empty()) return;
    long long k = 0; long long c[3];
    for (c[b.order[2]] = b.lo[b.order[2]]; c[b.order[2]] <= b.hi[b.order[2]]; c[b.order[2]]++)
        for (c[b.order[1]] = b.lo[b.order[1]]; c[b.order[1]] <= b.hi[b.order[1]]; c[b.order[1]]++)
            for (c[b.order[0]] = b.lo[b.order[0]]; c[b.order[0]] <= b.hi[b.order[0]]; c[b.order[0]]++) f(k++, c);
}
static void put(void *dst, long long i, cd v, bool dbl, bool re) {
    if (re) { if (dbl) ((double *)dst)[i] = v.real(); else ((float *)dst)[i] = (float)v.real(); }
    else { if (dbl) ((cd *)dst)[i] = v; else ((std::complex<float> *)dst)[i] = std::complex<float>((float)v.real(), (float)v.imag()); }
}
static cd get(const void *src, long long i, bool dbl, bool re) {
    if (re) return dbl ? cd(((const double *)src)[i], 0) : cd(((const float *)src)[i], 0);
    if (dbl) return ((const cd *)src)[i]; std::complex<float> v = ((const std::complex<float> *)src)[i]; return cd(v.real(), v.imag());
}
// a redistribution must not look at the values: any bit pattern, not-a-numbers and negative zeros included
static size_t rsize(SOp const &o) { return o.prec == 0 ? 4 : o.prec == 3 ? 16 : 8; }
static void bits(SOp const &o, int b, long long g, unsigned char *out) {
    uint64_t h[2]; for (int k = 0; k < 2; k++) h[k] = mix(mix(mix(S->sc.dataseed, o.seed), (uint64_t)b * 7919 + k), (uint64_t)g + 0x1234567);
    if (h[0] % 8 == 0) { uint32_t special[] = {0x80000000u, 0x7fc01234u, 0x7f800000u, 0x00000001u, 0xff812345u, 0x00000000u, 0x80000000u, 0x7ff00000u}; for (int k = 0; k < 2; k++) h[k] = (uint64_t)special[h[1] >> (8 + 8 * k) & 7] << 32 | special[h[1] >> (32 + 8 * k) & 7]; }
    memcpy(out, h, rsize(o));
}
extern "C" void sim_fill(int op, void *dst) {
    NoLib nl; Ref &r = ref(op); SOp const &o = S->sc.ops[op]; SPlan const &p = S->sc.plans[o.plan]; int cr = sim_comm_rank_of(p.comm);
    bool inside = o.dir == 0; SBox const &b = boxof(p, inside, cr); bool re = real_in(p, o), dbl = p.type == PT_RESHAPE ? (o.prec & 1) : o.prec;
    long long w[3] = {p.world[0], p.world[1], p.world[2]}; long long cnt = b.count();
    if (p.type == PT_RESHAPE) { for (int k = 0; k < (int)r.in.size(); k++) each(b, [&](long long i, long long *c) { bits(o, k, c[0] + w[0] * (c[1] + w[1] * c[2]), (unsigned char *)dst + (size_t)(i + k * cnt) * rsize(o)); }); return; }
    for (int k = 0; k < (int)r.in.size(); k++) each(b, [&](long long i, long long *c) { put(dst, i + k * cnt, r.in[k][(size_t)(c[0] + w[0] * (c[1] + w[1] * c[2]))], dbl, re); });
}
extern "C" void sim_check_input(int op, const void *src) {
    NoLib nl; Ref &r = ref(op); SOp const &o = S->sc.ops[op]; SPlan const &p = S->sc.plans[o.plan]; int cr = sim_comm_rank_of(p.comm);
    bool inside = o.dir == 0; SBox const &b = boxof(p, inside, cr); bool re = real_in(p, o), dbl = p.type == PT_RESHAPE ? (o.prec & 1) : o.prec;
    long long w[3] = {p.world[0], p.world[1], p.world[2]}; long long cnt = b.count(); bool bad = false;
    for (int k = 0; k < (int)r.in.size() && !bad; k++) each(b, [&](long long i, long long *c) { if (bad) return; cd want; if (p.type == PT_RESHAPE) bits(o, k, c[0] + w[0] * (c[1] + w[1] * c[2]), (unsigned char *)&want); else put(&want, 0, r.in[k][(size_t)(c[0] + w[0] * (c[1] + w[1] * c[2]))], dbl, re);
        size_t e = (dbl ? 8 : 4) * (re ? 1 : 2); if (memcmp(&want, (const char *)src + (size_t)(i + k * cnt) * e, e)) bad = true; });
    if (bad) sim_violation(C_INPUT, "process %d: the input array of operation %d changed although the output is a different array", S->cur, op);
}
extern "C" void sim_set_factor(int op, double full) { (*factors)[op] = full; }
// the same operation on the same plan with the same data has to give the same bits every time
struct Seen { int rank, op; uint64_t h; }; static std::vector<Seen> *seen = nullptr;
static void repeat_check(int op, uint64_t h) {
    if (!seen) seen = new std::vector<Seen>; SOp const &o = S->sc.ops[op];
    for (auto &s : *seen) { SOp const &q = S->sc.ops[s.op];
        if (s.rank == S->cur && q.plan == o.plan && q.dir == o.dir && q.prec == o.prec && q.batch == o.batch && q.scale == o.scale && q.real == o.real && q.form == o.form && q.inplace == o.inplace && q.seed == o.seed) {
            if (s.h != h) sim_violation(C_NONDET, "process %d: operation %d repeats operation %d with the same data and gives other bits", S->cur, op, s.op);
            return; } }
    seen->push_back(Seen{S->cur, op, h});
}
static const char *tname[] = {"complex", "real-to-complex", "cosine", "sine", "cosine-I", "sine-I", "reshape"};
extern "C" void sim_check_output(int op, const void *src) {
    NoLib nl; Ref &r = ref(op); SOp const &o = S->sc.ops[op]; SPlan const &p = S->sc.plans[o.plan]; int cr = sim_comm_rank_of(p.comm);
    bool inside = o.dir == 1; SBox const &b = boxof(p, inside, cr); bool re = real_out(p, o), dbl = p.type == PT_RESHAPE ? (o.prec & 1) : o.prec;
    long long w[3] = {p.world[0], p.world[1], p.world[2]}; long long cnt = b.count();
    bool r2r = p.type >= PT_COS && p.type <= PT_SIN1; double N = (double)p.count(), sc = 1.0;
    if (p.type != PT_RESHAPE) {
        if (!r2r) sc = o.scale == 1 ? 1.0 / N : o.scale == 2 ? 1.0 / std::sqrt(N) : 1.0;
        else { double f = (*factors)[op]; // the plan's own factor of full scaling
            if (o.dir == 0) sc = o.scale == 1 ? f : o.scale == 2 ? std::sqrt(f) : 1.0;
            else sc = o.scale == 1 ? 1.0 : o.scale == 2 ? 1.0 / std::sqrt(f) : 1.0 / f; }
    }
    double eps = dbl ? 2.220446049250313e-16 : 1.1920928955078125e-07, worst = 0; long long at = -1; int atb = 0; long long atc[3] = {0, 0, 0};
    double dims = 0; for (int d = 0; d < 3; d++) dims += std::sqrt((double)p.world[d]);
    double tol = p.type == PT_RESHAPE ? 0.0 : eps * 48.0 * (2.0 + dims) * r.mag * std::abs(sc);
    bool bad = false; size_t nbad = 0;
    for (int k = 0; k < (int)r.out.size(); k++) each(b, [&](long long i, long long *c) {
        long long g = c[0] + w[0] * (c[1] + w[1] * c[2]); cd want = r.out[k][(size_t)g] * sc; if (re) want = cd(want.real(), 0);
        cd have = get(src, i + k * cnt, dbl, re);
        double e = std::abs(have - want);
        if (p.type == PT_RESHAPE) { unsigned char x[16]; bits(o, k, g, x); if (memcmp(x, (const char *)src + (size_t)(i + k * cnt) * rsize(o), rsize(o))) { nbad++; if (!bad) { bad = true; at = i; atb = k; for (int d = 0; d < 3; d++) atc[d] = c[d]; } } return; }
        if (!(e <= tol)) { nbad++; if (!bad || !(e <= worst)) { at = i; atb = k; for (int d = 0; d < 3; d++) atc[d] = c[d]; worst = e; } bad = true; }
        else { double u = tol > 0 ? e / tol : 0; if (u > R->worst[dbl]) R->worst[dbl] = u; }
    });
    sim_output_hash(op, src, (size_t)(cnt * (long long)r.out.size()) * (dbl ? 8 : 4) * (re ? 1 : 2));
    if (!bad && op < MAXOPS) repeat_check(op, R->outhash[op][S->cur]);
    if (bad) {
        if (p.type == PT_RESHAPE) sim_violation(C_RESULT, "wrong redistribution in process %d, operation %d: entry (%lld,%lld,%lld) of batch entry %d does not have the bits it had before; %zu of %lld entries are wrong", S->cur, op, atc[0], atc[1], atc[2], atb, nbad, cnt * (long long)r.out.size());
        cd have = get(src, at + atb * cnt, dbl, re), want = r.out[atb][(size_t)(atc[0] + w[0] * (atc[1] + w[1] * atc[2]))] * sc;
        int cat = p.type == PT_RESHAPE ? C_RESULT : (atb > 0 && o.batch > 1) ? C_RESULT : C_RESULT;
        sim_violation(cat, "wrong %s %s result in process %d, operation %d: entry (%lld,%lld,%lld) of batch entry %d is (%.9g,%.9g), should be (%.9g,%.9g); %zu of %lld entries are wrong",
            o.dir ? "backward" : "forward", tname[p.type], S->cur, op, atc[0], atc[1], atc[2], atb, have.real(), have.imag(), want.real(), want.imag(), nbad, cnt * (long long)r.out.size());
    }
}
// facts that every member of a group has to agree on, or that are combined at the end
struct Fact { int op, tag, rank; std::vector<char> data; }; static std::vector<Fact> *facts = nullptr;
extern "C" void sim_stage(int op, int tag, const void *p, size_t n) {
    NoLib nl; if (!facts) facts = new std::vector<Fact>;
    for (auto &f : *facts) if (f.op == op && f.tag == tag && f.rank != S->cur && (f.data.size() != n || memcmp(f.data.data(), p, n))) {
        sim_violation(C_PLAN, "process %d and process %d derive different plans in operation %d (item %d)", f.rank, S->cur, op, tag); return; }
    facts->push_back(Fact{op, tag, S->cur, std::vector<char>((const char *)p, (const char *)p + n)});
}
void stage_finish() {}
extern "C" void sim_set_box(int plan, int side, int rank, SBox const *b) { NoLib nl; (side ? S->sc.plans[plan].out : S->sc.plans[plan].in)[rank] = *b; }
