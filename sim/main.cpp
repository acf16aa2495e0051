/* Driver: seeded search over scenarios, gating, minimisation, replay, evidence. */
#include "core.h"
#include <algorithm>
#include <set>
#include <sstream>
#include <fstream>
#include <chrono>
#include <dlfcn.h>
#include <dirent.h>
#include <fcntl.h>
#include <sched.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <fftw3.h>
#include <mkl_dfti.h>
#define B(c) (1ull << (c))

static std::string g_app, g_work, g_scratch; static rank_main_t g_entry[MAXR]; static int g_jobs = 8; static bool g_survey;
static std::string oneline(const char *m); static std::string brief(Scenario const &s, long long i);
rank_main_t rank_entry(int r) { return g_entry[r]; }
size_t rank_entries_ready() { size_t n = 0; for (auto e : g_entry) n += e != nullptr; return n; }
extern "C" const char *sim_scratch() { return g_scratch.c_str(); }
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
[[noreturn]] static void die(std::string const &m) { fprintf(stderr, "sim: %s\n", m.c_str()); exit(3); }

static bool copy_file(std::string const &a, std::string const &b) {
    int i = open(a.c_str(), O_RDONLY), o = open(b.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0755); if (i < 0 || o < 0) return false;
    static char buf[1 << 20]; ssize_t n; while ((n = read(i, buf, sizeof buf)) > 0) if (write(o, buf, (size_t)n) != n) return false;
    close(i); close(o); return n == 0;
}
static void load_app() {
    for (int r = 0; r < MAXR; r++) {
        std::string f = g_work + "/rank" + std::to_string(r) + ".so"; if (!copy_file(g_app, f)) die("cannot copy " + g_app);
        void *h = dlopen(f.c_str(), RTLD_NOW | RTLD_LOCAL); if (!h) die(std::string("dlopen: ") + dlerror());
        g_entry[r] = (rank_main_t)dlsym(h, "rank_main"); if (!g_entry[r]) die("no rank_main"); unlink(f.c_str());
    }
}
#include "pyapi.h"
static PyApi const *g_py; static std::string g_err; // the interpreter is started at need; a scenario can tell
PyApi const *sim_py() { return g_py; }
static void start_python() {
    if (g_py) return; std::string dir = g_app.substr(0, g_app.find_last_of('/') + 1), so = dir + "pydrv.so"; void *h = dlopen(so.c_str(), RTLD_NOW | RTLD_GLOBAL); if (!h) die(std::string("no Python: ") + dlerror());
    py_start_t f = (py_start_t)dlsym(h, "py_start"); char e[2000] = ""; g_py = f ? f((dir + "drive.py").c_str(), (dir + "heffte.py").c_str(), (g_work + "/rank%d.so").c_str(), MAXR, e, sizeof e) : nullptr; if (!g_py) die(e);
}
static void warm_up() { // the FFT libraries load their kernels and fill their caches before the first fork
    for (int n : {4, 8, 15, 64}) {
        std::vector<double> x(4 * n + 8, 1.0); std::vector<float> y(4 * n + 8, 1.0f); DFTI_DESCRIPTOR_HANDLE h;
        for (int pr = 0; pr < 2; pr++) for (int dom = 0; dom < 2; dom++) {
            if (DftiCreateDescriptor(&h, pr ? DFTI_DOUBLE : DFTI_SINGLE, dom ? DFTI_COMPLEX : DFTI_REAL, 1, (MKL_LONG)n)) die("mkl");
            DftiCommitDescriptor(h); if (pr) DftiComputeForward(h, x.data()); else DftiComputeForward(h, y.data()); DftiFreeDescriptor(&h); }
        fftw_plan p = fftw_plan_dft_1d(n, (fftw_complex *)x.data(), (fftw_complex *)x.data(), -1, FFTW_ESTIMATE); fftw_execute(p); fftw_destroy_plan(p);
        fftwf_plan q = fftwf_plan_dft_1d(n, (fftwf_complex *)y.data(), (fftwf_complex *)y.data(), -1, FFTW_ESTIMATE); fftwf_execute(q); fftwf_destroy_plan(q);
    }
}
// ---- one run ----------------------------------------------------------------------
static void clean_scratch() {
    DIR *d = opendir(g_scratch.c_str()); if (!d) return;
    while (dirent *e = readdir(d)) if (strncmp(e->d_name, "t", 1) == 0) unlink((g_scratch + "/" + e->d_name).c_str());
    closedir(d);
}
static void run_raw(Scenario const &sc, uint64_t cats, const std::vector<uint16_t> *trace, bool verbose) {
    bool tr = false; for (auto &o : sc.ops) if (o.kind == OP_TRACE_INIT) { tr = true; if (sc.f.tracefault == 2) { std::string l = g_scratch + "/t" + std::to_string(o.a) + "_0.log"; unlink(l.c_str()); if (symlink("/dev/full", l.c_str())) {} } }
    size_t head = offsetof(Result, dec); memset((void *)R, 0, head);
    fflush(nullptr);
    pid_t p = fork(); if (p < 0) die("fork");
    if (p == 0) { struct itimerval it; memset(&it, 0, sizeof it); it.it_value.tv_sec = 150; setitimer(ITIMER_REAL, &it, nullptr);
        static uint16_t none; run_child(sc, cats, trace ? (trace->empty() ? &none : trace->data()) : nullptr, trace ? (uint32_t)trace->size() : 0, verbose); }
    int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    if (R->status == 0) { R->status = 2; R->cat = C_FATAL; if (WIFSIGNALED(st)) snprintf(R->msg, sizeof R->msg, "the simulated program was ended by signal %d", WTERMSIG(st)); else snprintf(R->msg, sizeof R->msg, "the simulated program ended itself (exit code %d)", WEXITSTATUS(st)); snprintf(R->sig, sizeof R->sig, "%s", R->msg); }
    if (tr) clean_scratch();
}
static Scenario benign(Scenario s) { s.policy = 7; s.f.rdv = 0; s.f.eagerlimit = 1 << 30; s.f.collsync = 0; s.f.stallrank = -1; return s; }
// returns true when the scenario shows a violation the property owns; R then describes it
static bool violates(int prop, Scenario const &sc, const std::vector<uint16_t> *trace, bool verbose) {
    uint64_t cats = props[prop].cats;
    if (strcmp(props[prop].id, "H10")) { run_raw(sc, cats, trace, verbose); return R->status == 2; }
    run_raw(benign(sc), cats, nullptr, false); if (R->status == 2) return true;
    static uint64_t h[MAXOPS][MAXR]; memcpy(h, R->outhash, sizeof h);
    run_raw(sc, cats, trace, verbose); if (R->status == 2) return true;
    if (R->abandoned) return false;
    for (int o = 0; o < MAXOPS; o++) for (int r = 0; r < MAXR; r++) if (h[o][r] != R->outhash[o][r]) {
        R->status = 2; R->cat = C_NONDET; snprintf(R->msg, sizeof R->msg, "operation %d on process %d gives other bits under this schedule than under the benign one", o, r);
        snprintf(R->sig, sizeof R->sig, "bits depend on the schedule"); return true; }
    return false;
}
// ---- batch ------------------------------------------------------------------------
struct Stats { uint64_t runs, steps, simns, msgs, colls, calls, yields, abandoned, faulty, multi, replayed, mismatched, probes[PR_COUNT], ignored[C_COUNT]; double worst[2]; uint64_t policy[8]; char ignored_msg[300]; uint64_t ignored_at; uint64_t nh; double slowest; uint64_t slowest_at; };
static const size_t MAXH = 1 << 17;
struct Shared { volatile long long bad[64]; char why[64][200]; Stats st[64]; };
static Shared *SH; static Result *RS; static uint64_t *HS_; static uint64_t *HL_;
static void *shmem(size_t n) { void *p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) die("mmap"); return p; }
static bool injects(SFaults const &f) { return f.allocrank != -1 || f.fftfail || f.tracefault || f.clock >= 2 || f.stallrank >= 0; }

static void worker(int w, int prop, uint64_t seed, long long count, double deadline, double t0) {
    R = &RS[w]; Stats &s = SH->st[w]; g_scratch = g_work + "/s" + std::to_string(w); mkdir(g_scratch.c_str(), 0700);
    for (long long i = w; i < count; i += g_jobs) {
        long long mn = 1ll << 60; for (int k = 0; k < g_jobs; k++) if (SH->bad[k] >= 0 && SH->bad[k] < mn) mn = SH->bad[k];
        if (i > mn || now() - t0 > deadline) break;
        Scenario sc = make_scenario(prop, seed, (uint64_t)i);
        double t1 = now(); bool v = violates(prop, sc, nullptr, false); t1 = now() - t1; if (t1 > s.slowest) { s.slowest = t1; s.slowest_at = (uint64_t)i; }
        s.runs++; s.steps += R->steps; s.simns += R->simns; s.msgs += R->msgs; s.colls += R->colls; s.calls += R->calls; s.yields += R->yields; s.abandoned += R->abandoned; s.faulty += injects(sc.f); s.multi += sc.nranks > 1; s.policy[sc.policy & 7]++;
        for (int k = 0; k < PR_COUNT; k++) s.probes[k] += R->probes[k] != 0;
        for (int k = 0; k < C_COUNT; k++) if (R->ignored[k]) { if (!s.ignored[k] && !s.ignored_msg[0]) { snprintf(s.ignored_msg, sizeof s.ignored_msg, "%s", R->ignored_msg); s.ignored_at = (uint64_t)i; } s.ignored[k]++; }
        for (int k = 0; k < 2; k++) s.worst[k] = std::max(s.worst[k], R->worst[k]);
        if (s.nh < MAXH) { HS_[w * MAXH + s.nh] = R->schedhash; HL_[w * MAXH + s.nh] = R->loghash; s.nh++; }
        if (v && g_survey) { printf("SURVEY %lld [%s] %s | %s\n", i, R->sig, oneline(R->msg).c_str(), brief(sc, i).c_str()); fflush(stdout); continue; }
        if (v) { snprintf(SH->why[w], sizeof SH->why[w], "%s", oneline(R->msg).c_str()); SH->bad[w] = i; break; }
        if (i % 50 < g_jobs && i / 50 % 2 == 0) { uint64_t h = R->loghash; violates(prop, sc, nullptr, false); s.replayed++; if (h != R->loghash) s.mismatched++; } // determinism, continuously
    }
    _exit(0);
}
// ---- minimisation -----------------------------------------------------------------
static void drop_unused(Scenario &s) {
    std::vector<int> up(s.plans.size(), 0), uc(s.comms.size(), 0), np(s.plans.size()), nc(s.comms.size());
    auto isplan = [](int k) { return k == OP_CREATE || k == OP_DESTROY || k == OP_EXEC || k == OP_MOVE || k == OP_SIZES || k == OP_PLANLOGIC || k == OP_SHORTVEC || k == OP_CAPIERR || k == OP_SIBLING; };
    auto iscomm = [](int k) { return k == OP_BARRIER || k == OP_USERMSG || k == OP_USERCOLL || k == OP_USERPOST; };
    for (auto &o : s.ops) { if (isplan(o.kind)) { up[o.plan] = 1; if (o.kind == OP_MOVE && o.a >= 0) up[o.a] = 1; } if (iscomm(o.kind)) uc[o.plan] = 1; }
    uc[0] = 1; for (size_t i = 0; i < s.plans.size(); i++) if (up[i]) { uc[s.plans[i].comm] = 1; if (s.plans[i].subcomm >= 0) uc[s.plans[i].subcomm] = 1; }
    std::vector<SPlan> p; std::vector<SComm> c;
    for (size_t i = 0; i < s.comms.size(); i++) if (uc[i]) { nc[i] = (int)c.size(); c.push_back(s.comms[i]); }
    for (size_t i = 0; i < s.plans.size(); i++) if (up[i]) { np[i] = (int)p.size(); p.push_back(s.plans[i]); p.back().comm = nc[p.back().comm]; if (p.back().subcomm >= 0) p.back().subcomm = nc[p.back().subcomm]; }
    for (auto &o : s.ops) { if (isplan(o.kind)) { o.plan = np[o.plan]; if (o.kind == OP_MOVE && o.a >= 0) o.a = np[o.a]; } else if (iscomm(o.kind)) o.plan = nc[o.plan]; }
    s.plans = p; s.comms = c;
}
static bool merge_side(std::vector<SBox> &v, int a, int b) { // box b joins box a
    SBox &x = v[a], &y = v[b]; if (y.empty()) { v.erase(v.begin() + b); return true; } if (x.empty()) { x = y; v.erase(v.begin() + b); return true; }
    int diff = -1; for (int d = 0; d < 3; d++) if (x.lo[d] != y.lo[d] || x.hi[d] != y.hi[d]) { if (diff >= 0) return false; diff = d; }
    if (diff < 0) return false; if (x.hi[diff] + 1 == y.lo[diff]) x.hi[diff] = y.hi[diff]; else if (y.hi[diff] + 1 == x.lo[diff]) x.lo[diff] = y.lo[diff]; else return false;
    v.erase(v.begin() + b); return true;
}
static bool shrink_world(Scenario &s, int pi, int d, long long n) {
    SPlan &p = s.plans[pi]; if (n < 1 || n >= p.world[d] || p.invalid) return false; if (p.type == PT_COS1 && n < 2) return false;
    p.world[d] = n;
    for (auto &b : p.in) { if (b.empty()) continue; b.hi[d] = std::min(b.hi[d], n - 1); if (b.lo[d] > b.hi[d]) return false; }
    for (auto &b : p.out) { if (b.empty()) continue; b.hi[d] = std::min(b.hi[d], p.cworld(d) - 1); if (b.lo[d] > b.hi[d]) return false; }
    return true;
}
static void candidates(Scenario const &s, std::vector<Scenario> &out) {
    auto add = [&](Scenario x) { drop_unused(x); out.push_back(std::move(x)); };
    for (size_t i = s.ops.size(); i-- > 0;) { Scenario x = s; x.ops.erase(x.ops.begin() + (long)i); if (x.f.allocop == (int)i) continue; if (x.f.allocop > (int)i) x.f.allocop--; add(x); }
    for (size_t i = 0; i < s.plans.size(); i++) if (s.plans.size() > 1) { Scenario x = s; std::vector<SOp> k; for (auto &o : x.ops) if (!((o.kind <= OP_MOVE || o.kind == OP_SIZES || o.kind == OP_PLANLOGIC || o.kind == OP_SHORTVEC || o.kind == OP_CAPIERR || o.kind == OP_SIBLING) && o.kind != OP_BARRIER && o.plan == (int)i)) k.push_back(o); if (x.f.allocop >= 0) continue; x.ops = k; add(x); }
    if (s.nranks > 1 && s.comms.size() == 1 && s.f.allocrank < 0 && s.f.stallrank < 0) for (int b = s.nranks - 1; b > 0; b--) for (int a = 0; a < b; a++) { // two processes become one
        Scenario x = s; bool ok = true; for (auto &p : x.plans) { if (p.comm || p.invalid || (int)p.in.size() != x.nranks || (int)p.out.size() != x.nranks) ok = false; if (ok) ok = merge_side(p.in, a, b) && merge_side(p.out, a, b); if (p.subranks >= x.nranks - 1) p.subranks = x.nranks - 2 > 0 ? x.nranks - 2 : 0; }
        if (!ok) continue; x.nranks--; x.comms[0].members.pop_back(); add(x); }
    for (size_t i = 0; i < s.plans.size(); i++) {
        for (int d = 0; d < 3; d++) for (long long n : {1LL, 2LL, s.plans[i].world[d] / 2, s.plans[i].world[d] - 1}) { Scenario x = s; if (shrink_world(x, (int)i, d, n)) add(x); }
        SPlan const &p = s.plans[i];
#define TRY(f, v) if (p.f != v) { Scenario x = s; x.plans[i].f = v; add(x); }
        TRY(idx64, 0) if (!p.gstream) TRY(ctor, 0) TRY(gstream, 0) TRY(defopts, 0) if (p.backend != BK_CUFFT || s.f.gpumpi) TRY(gpuaware, 1) TRY(reorder, 1) TRY(pencils, 1) TRY(twod, 0) TRY(subranks, 0) if (s.comms[p.comm].members.size() == s.comms[0].members.size()) TRY(comm, 0) if (p.alg) TRY(alg, 0) if (p.backend && p.backend != BK_CUFFT && p.type != PT_SIN1) TRY(backend, 0)
#undef TRY
        { Scenario x = s; bool ch = false; for (auto *v : {&x.plans[i].in, &x.plans[i].out}) for (auto &b : *v) for (int d = 0; d < 3; d++) if (b.order[d] != d) { b.order[d] = d; ch = true; } if (ch) add(x); }
        if (p.type != PT_R2C) { bool same = true; for (size_t k = 0; k < p.in.size(); k++) for (int d = 0; d < 3; d++) same = same && p.in[k].lo[d] == p.out[k].lo[d] && p.in[k].hi[d] == p.out[k].hi[d] && p.in[k].order[d] == p.out[k].order[d]; if (!same && !p.invalid) { Scenario x = s; x.plans[i].out = p.in; add(x); x = s; x.plans[i].in = p.out; add(x); } }
    }
    for (size_t i = 0; i < s.ops.size(); i++) { SOp const &o = s.ops[i]; if (o.kind != OP_EXEC) continue;
#define TRY(f, v) if (o.f != v) { Scenario x = s; x.ops[i].f = v; add(x); }
        if (o.batch > 2) { Scenario x = s; x.ops[i].batch = 2; add(x); } TRY(batch, 1) if (o.form < 4) TRY(form, 0) TRY(scale, 0) if (s.plans[o.plan].type == PT_C2C) TRY(real, 0) TRY(inplace, 0) if (s.plans[o.plan].type != PT_RESHAPE) TRY(prec, 1) TRY(wsfill, 0) TRY(dir, 0) TRY(seed, 1u)
#undef TRY
    }
#define TRY(f_, v) if (s.f.f_ != v) { Scenario x = s; x.f.f_ = v; add(x); }
    TRY(clock, 0) TRY(efence, 0) TRY(misalign, 0) TRY(stallrank, -1) TRY(rdv, 0) TRY(collsync, 0) TRY(eagerlimit, (1 << 30)) TRY(tracefault, 0) TRY(fftfail, 0) if (s.f.gpulazy) TRY(gpulazy, 1) if (s.f.alloccnt > 1) TRY(alloccnt, 1)
#undef TRY
    if (s.policy != 7) { Scenario x = s; x.policy = 7; out.push_back(x); }
}
static std::string oneline(const char *m) { std::string s = m; size_t e = s.find('\n'); return e == std::string::npos ? s : s.substr(0, e); }
static std::string g_flavour = "std";
static void write_replay(std::string const &path, int prop, Scenario const &sc, std::vector<uint16_t> const &tr) {
    std::ofstream f(path); f << "property " << props[prop].id << "\ncategory " << R->cat << "\nsignature " << R->sig << "\nloghash " << std::hex << R->loghash << std::dec << "\nmessage " << oneline(R->msg) << "\nflavour " << g_flavour << "\nscenario\n" << scenario_text(sc) << "end\ntrace " << tr.size() << "\n";
    for (size_t i = 0; i < tr.size(); i++) f << tr[i] << ((i + 1) % 40 ? ' ' : '\n'); f << "\n";
}
static std::vector<uint16_t> taken() { std::vector<uint16_t> t(R->dec, R->dec + std::min<uint32_t>(R->ndec, MAXDEC)); while (!t.empty() && t.back() == 0) t.pop_back(); return t; }
static Scenario minimise(int prop, Scenario sc, double budget, int &tried, std::vector<uint16_t> &trace) {
    double t0 = now(); std::string sig = R->sig; int cat = R->cat; bool progress = true;
    auto same = [&]() { return R->status == 2 && R->cat == cat && sig == R->sig; };
    while (progress && now() - t0 < budget) {
        progress = false; std::vector<Scenario> c; candidates(sc, c);
        for (auto &x : c) { if (now() - t0 > budget) break; tried++; if (violates(prop, x, nullptr, false) && same()) { sc = x; progress = true; break; } }
    }
    violates(prop, sc, nullptr, false); trace = taken();
    auto holds = [&](std::vector<uint16_t> const &t) { tried++; return violates(prop, sc, &t, false) && same(); };
    if (holds({})) { trace.clear(); return sc; }
    size_t lo = 0, hi = trace.size(); // shortest prefix that still fails
    while (lo + 1 < hi && now() - t0 < budget * 1.5) { size_t m = (lo + hi) / 2; std::vector<uint16_t> t(trace.begin(), trace.begin() + (long)m); if (holds(t)) hi = m; else lo = m; }
    trace.resize(hi);
    for (size_t len = trace.size() / 2; len >= 1; len /= 2) for (size_t i = 0; i < trace.size() && now() - t0 < budget * 2; i += len) {
        std::vector<uint16_t> t = trace; bool nz = false; for (size_t k = i; k < std::min(i + len, t.size()); k++) { nz |= t[k] != 0; t[k] = 0; } if (nz && holds(t)) trace = t; }
    while (!trace.empty() && trace.back() == 0) trace.pop_back();
    return sc;
}
struct Replay { int prop = -1, cat = 0; std::string sig; uint64_t hash = 0; Scenario sc; std::vector<uint16_t> trace; };
static bool read_replay(std::string const &path, Replay &r) {
    std::ifstream f(path); if (!f) return false; std::string line, text; size_t n = 0;
    while (std::getline(f, line)) {
        if (line.compare(0, 9, "property ") == 0) { for (int i = 0; i < nprops; i++) if (line.substr(9) == props[i].id) r.prop = i; }
        else if (line.compare(0, 9, "category ") == 0) r.cat = atoi(line.c_str() + 9); else if (line.compare(0, 10, "signature ") == 0) r.sig = line.substr(10);
        else if (line.compare(0, 8, "loghash ") == 0) r.hash = strtoull(line.c_str() + 8, nullptr, 16);
        else if (line == "scenario") { while (std::getline(f, line) && line != "end") text += line + "\n"; }
        else if (line.compare(0, 6, "trace ") == 0) { n = strtoull(line.c_str() + 6, nullptr, 10); unsigned v; for (size_t i = 0; i < n && f >> v; i++) r.trace.push_back((uint16_t)v); }
    }
    return r.prop >= 0 && scenario_parse(text, r.sc);
}
static int do_replay(std::string const &path, bool verbose, bool quiet) {
    Replay r; if (!read_replay(path, r)) die("cannot read " + path);
    if (verbose) setenv("SIM_VERBOSE", "1", 1);
    bool v = violates(r.prop, r.sc, &r.trace, verbose); bool same = v && R->cat == r.cat && r.sig == R->sig;
    if (!quiet) { printf("replay of %s: %s\n", path.c_str(), v ? R->msg : "no violation"); if (v && !same) printf("note: the recorded violation was: %s\n", r.sig.c_str()); if (same) printf("event log hash %016llx, recorded %016llx\n", (unsigned long long)R->loghash, (unsigned long long)r.hash); }
    if (!v) return 0; 
    if (!quiet) printf("VIOLATION property=%s replay=%s\n", props[r.prop].id, path.c_str());
    return same && R->loghash == r.hash ? 1 : 4;
}
// ---- evidence ---------------------------------------------------------------------
static std::string js(std::string const &s) { std::string o = "\""; for (char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if ((unsigned char)c < 32) o += ' '; else o += c; } return o + "\""; }
static std::string brief(Scenario const &s, long long i) {
    std::ostringstream o; static const char *tn[] = {"c2c", "r2c", "cos", "sin", "cos1", "sin1", "reshape"}, *bn[] = {"stock", "fftw", "mkl", "cufft"}, *an[] = {"alltoallv", "p2p_plined", "p2p", "alltoall"};
    static const char *kn[] = {"create", "destroy", "exec", "move", "barrier", "usermsg", "usercoll", "trace-init", "trace-fin", "checkpoint", "sizes", "planlogic", "geometry", "shortvec", "capierr", "freecomm", "userpost", "userdone", "stall", "sibling"};
    o << "#" << i << ": " << s.nranks << " processes, policy " << s.policy << ", rendezvous " << s.f.rdv << "%";
    if (s.f.allocrank != -1) o << ", allocation " << s.f.allocnth << " fails in operation " << s.f.allocop;
    if (s.f.stallrank >= 0) o << ", process " << s.f.stallrank << " starved"; if (s.f.clock) o << ", clock " << s.f.clock; if (s.f.efence) o << ", guarded heap";
    for (auto &p : s.plans) { o << "; plan " << tn[p.type] << "/" << bn[p.backend] << (p.capi == 3 ? "/Python" : p.capi == 2 ? "/Fortran" : p.capi ? "/C" : "") << (p.idx64 ? "/64" : "") << " " << p.world[0] << "x" << p.world[1] << "x" << p.world[2] << " on " << p.in.size() << " " << an[p.alg & 3] << (p.reorder ? " contiguous" : " strided") << (p.pencils ? " pencils" : " slabs"); if (p.subranks) o << " subranks " << p.subranks; if (p.invalid) o << " illegal " << p.invalid; if (p.recipe) o << " recipe"; }
    o << "; "; int k = 0; for (auto &p : s.ops) { if (k++ > 9) { o << "..."; break; } o << kn[p.kind]; if (p.kind == OP_EXEC) o << (p.dir ? "-bwd" : "-fwd") << (p.prec ? "" : "-float") << (p.batch > 1 ? "-batch" : "") << (p.inplace ? "-inplace" : "") << (p.real ? "-real" : ""); o << " "; }
    return o.str();
}
int main(int argc, char **argv) {
    if (!getenv("SIM_NOREEXEC")) { // same addresses in every process, where the system allows it
        setenv("SIM_NOREEXEC", "1", 1); int p = personality(0xffffffff); if (p != -1 && !(p & ADDR_NO_RANDOMIZE) && personality((unsigned long)p | ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
    }
    setenv("MKL_NUM_THREADS", "1", 1); setenv("OMP_NUM_THREADS", "1", 1);
    std::string prop, tier = "quick", out, replay, replaydir = ".", known; uint64_t seed = 1; long long count = -1, index = -1; double deadline = 0, mintime = 25; bool verbose = false, quiet = false, print = false; 
    for (int i = 1; i < argc; i++) { std::string a = argv[i]; auto v = [&]() -> std::string { if (i + 1 >= argc) die("argument missing"); return argv[++i]; };
        if (a == "--app") g_app = v(); else if (a == "--work") g_work = v(); else if (a == "--prop") prop = v(); else if (a == "--tier") tier = v(); else if (a == "--evidence") out = v(); else if (a == "--seed") seed = strtoull(v().c_str(), nullptr, 10);
        else if (a == "--count") count = atoll(v().c_str()); else if (a == "--index") index = atoll(v().c_str()); else if (a == "--deadline") deadline = atof(v().c_str()); else if (a == "--replay") replay = v(); else if (a == "--replaydir") replaydir = v(); else if (a == "--known") known = v();
        else if (a == "--jobs") g_jobs = atoi(v().c_str()); else if (a == "--verbose") verbose = true; else if (a == "--quiet") quiet = true; else if (a == "--survey") g_survey = true; else if (a == "--print") print = true; else if (a == "--outside") g_outside = true; else if (a == "--flavour") g_flavour = v(); else if (a == "--mintime") mintime = atof(v().c_str()); else die("unknown argument " + a); }
    if (g_app.empty() || g_work.empty()) die("--app and --work are needed");
    if (g_jobs > 64) g_jobs = 64; if (g_jobs < 1) g_jobs = 1;
    mkdir(g_work.c_str(), 0700); g_scratch = g_work + "/s"; mkdir(g_scratch.c_str(), 0700);
    load_app(); warm_up();
    RS = (Result *)shmem(sizeof(Result) * 65); R = &RS[64];
    if (prop == "H25") start_python(); else if (!replay.empty()) { Replay r; if (read_replay(replay, r)) for (auto &p : r.sc.plans) if (p.capi == 3) { start_python(); break; } }
    if (!replay.empty()) return do_replay(replay, verbose, quiet);
    int pi = -1; for (int i = 0; i < nprops; i++) if (prop == props[i].id) pi = i; if (pi < 0) die("no such property " + prop);
    if (index >= 0) { Scenario sc = make_scenario(pi, seed, (uint64_t)index); if (print) printf("%s", scenario_text(sc).c_str()); printf("%s\n", brief(sc, index).c_str()); fflush(stdout); bool v = violates(pi, sc, nullptr, verbose); printf("%s\nsteps %llu hash %016llx\n", v ? R->msg : "no violation", (unsigned long long)R->steps, (unsigned long long)R->loghash); if (R->ignored_msg[0]) printf("ignored: %s\n", R->ignored_msg); return v; }
    if (count < 0) count = tier == "quick" ? props[pi].quick : props[pi].thorough;
    if (deadline <= 0) deadline = tier == "quick" ? 45 : 700;
    double t0 = now(); SH = (Shared *)shmem(sizeof(Shared)); for (auto &b : SH->bad) b = -1; HS_ = (uint64_t *)shmem(sizeof(uint64_t) * MAXH * 64); HL_ = (uint64_t *)shmem(sizeof(uint64_t) * MAXH * 64);
    printf("property %s, seed %llu, %lld scenarios, %d workers\n", props[pi].id, (unsigned long long)seed, count, g_jobs); fflush(stdout);
    // known findings: replayed first, reported, never searched for
    int nknown = 0;
    if (!known.empty()) { std::ifstream f(known); std::string line; while (std::getline(f, line)) { if (line.compare(0, 9, "finding: ")) continue; std::istringstream is(line.substr(9)); std::string a, b; is >> a >> b; if (a != std::string("property=") + props[pi].id || b.compare(0, 7, "replay=")) continue;
        std::string path = known.substr(0, known.find_last_of('/') + 1) + b.substr(7), rest; std::getline(is, rest); Replay r; if (!read_replay(path, r)) die("cannot read " + path);
        if (violates(r.prop, r.sc, &r.trace, false)) { if (R->cat == r.cat && r.sig == R->sig) { nknown++; printf("KNOWN-FINDING: property=%s%s\n", props[pi].id, rest.c_str()); } } } fflush(stdout); }
    std::vector<pid_t> pids; for (int w = 0; w < g_jobs; w++) { pid_t p = fork(); if (p == 0) worker(w, pi, seed, count, deadline, t0); pids.push_back(p); }
    for (auto p : pids) { int st; waitpid(p, &st, 0); }
    double wall = now() - t0; Stats T; memset(&T, 0, sizeof T); std::vector<uint64_t> hs, hl; std::vector<long long> bad;
    for (int w = 0; w < g_jobs; w++) { Stats &s = SH->st[w]; T.runs += s.runs; T.steps += s.steps; T.simns += s.simns; T.msgs += s.msgs; T.colls += s.colls; T.calls += s.calls; T.abandoned += s.abandoned; T.faulty += s.faulty; T.multi += s.multi; T.replayed += s.replayed; T.mismatched += s.mismatched;
        for (int k = 0; k < PR_COUNT; k++) T.probes[k] += s.probes[k]; for (int k = 0; k < C_COUNT; k++) T.ignored[k] += s.ignored[k]; for (int k = 0; k < 8; k++) T.policy[k] += s.policy[k]; for (int k = 0; k < 2; k++) T.worst[k] = std::max(T.worst[k], s.worst[k]);
        if (s.ignored_msg[0] && !T.ignored_msg[0]) { memcpy(T.ignored_msg, s.ignored_msg, sizeof T.ignored_msg); T.ignored_at = s.ignored_at; }
        for (uint64_t k = 0; k < s.nh; k++) { hs.push_back(HS_[w * MAXH + k]); hl.push_back(HL_[w * MAXH + k]); } if (s.slowest > T.slowest) { T.slowest = s.slowest; T.slowest_at = s.slowest_at; } if (SH->bad[w] >= 0) bad.push_back((long long)SH->bad[w]); }
    std::sort(hs.begin(), hs.end()); hs.erase(std::unique(hs.begin(), hs.end()), hs.end()); std::sort(hl.begin(), hl.end()); hl.erase(std::unique(hl.begin(), hl.end()), hl.end()); std::sort(bad.begin(), bad.end());
    int code = 0, nviol = 0; g_scratch = g_work + "/s"; R = &RS[64]; std::string vmsg;
    for (long long b : bad) { // gate, minimise, write, replay in a fresh process
        Scenario sc = make_scenario(pi, seed, (uint64_t)b);
        if (!violates(pi, sc, nullptr, false)) { const char *why = ""; for (int w = 0; w < g_jobs; w++) if (SH->bad[w] == b) why = SH->why[w]; printf("scenario %lld failed once and not again: not reported (%s)\n", b, why); code = 3; continue; }
        std::string sig = R->sig, msg = R->msg; uint64_t h = R->loghash; int cat = R->cat;
        if (!violates(pi, sc, nullptr, false)) { printf("scenario %lld does not fail in every run: not reported (%s)\n", b, sig.c_str()); code = 3; continue; }
        if (R->loghash != h) printf("note: the code under test does not run identically for one seed (it uses something outside the simulation, such as uninitialised memory)\n");
        printf("scenario %lld fails: %s\n", b, oneline(msg.c_str()).c_str()); fflush(stdout);
        int tried = 0; std::vector<uint16_t> tr; (void)cat; Scenario m = minimise(pi, sc, mintime, tried, tr); bool ok = violates(pi, m, &tr, false);
        if (!ok) { m = sc; violates(pi, sc, nullptr, false); tr = taken(); ok = violates(pi, m, &tr, false); }
        std::string path = replaydir + "/" + props[pi].id + "-" + std::to_string(seed) + "-" + std::to_string(b) + ".replay";
        if (ok) { write_replay(path, pi, m, tr); std::string full = R->msg;
            pid_t p = fork(); if (p == 0) { execl("/proc/self/exe", "sim", "--app", g_app.c_str(), "--work", (g_work + "/fresh").c_str(), "--replay", path.c_str(), "--quiet", (char *)nullptr); _exit(9); }
            int st; waitpid(p, &st, 0); int rc = WIFEXITED(st) ? WEXITSTATUS(st) : -1; ok = rc == 1 || rc == 4; if (!ok) printf("the replay in a fresh process does not reproduce it (%d)\n", rc);
            if (ok) { printf("%s\nminimised with %d runs to: %s; %zu recorded decisions\nVIOLATION property=%s replay=%s\n", full.c_str(), tried, brief(m, b).c_str(), tr.size(), props[pi].id, path.c_str()); nviol++; code = 1; vmsg = full; break; } }
        if (!ok) { printf("scenario %lld: no exact replay: not reported\n", b); code = 3; }
    }
    printf("%llu runs in %.1f s (%.0f per hour), %zu distinct interleavings, %zu distinct event logs, %.3f s simulated, %llu messages, %llu collectives, worst error %.3f/%.3f of the tolerance (float/double)\n", (unsigned long long)T.runs, wall, T.runs / wall * 3600, hs.size(), hl.size(), T.simns * 1e-9, (unsigned long long)T.msgs, (unsigned long long)T.colls, T.worst[0], T.worst[1]);
    printf("%llu runs repeated, %llu event logs differed; %llu ended early by an injected failure\n", (unsigned long long)T.replayed, (unsigned long long)T.mismatched, (unsigned long long)T.abandoned);
    for (int k = 0; k < C_COUNT; k++) if (T.ignored[k]) printf("note: %llu runs showed findings of kind %d, which other properties own: scenario %llu %s\n", (unsigned long long)T.ignored[k], k, (unsigned long long)T.ignored_at, T.ignored_msg);
    if (g_survey) printf("slowest run %llu: %.2f s\n", (unsigned long long)T.slowest_at, T.slowest);
    if (print) for (int k = 0; k < PR_COUNT; k++) printf("  probe %-28s %llu\n", probe_names[k], (unsigned long long)T.probes[k]);
    if (!out.empty()) {
        std::ostringstream e; static const char *pol[] = {"uniform random", "priorities with change points", "slow network", "fast network", "newest message first", "depth first", "one slow receiver", "benign"};
        e << "{\"property\":\"" << props[pi].id << "\",\"tier\":\"" << tier << "\",\"seed\":" << seed << ",\"level\":\"exploration\",\"coverage\":{\"evaluations\":" << T.runs << ",\"distinct_nontrivial\":" << hl.size()
          << ",\"rule\":\"a run is one scenario (processes, communicators, plans, operations, faults) executed under one seeded schedule; two runs are distinct when the hashes of their complete event logs (every MPI call with its arguments, every scheduling decision, every result) differ\",\"samples\":[";
        for (int k = 0; k < 6; k++) { long long i = (long long)k * std::max<long long>(1, (long long)T.runs / 6); e << (k ? "," : "") << js(brief(make_scenario(pi, seed, (uint64_t)i), i)); }
        e << "],\"runs_per_hour\":" << (long long)(T.runs / wall * 3600) << ",\"seeds_per_hour\":" << (long long)(T.runs / wall * 3600) << ",\"simulated_seconds\":" << T.simns * 1e-9 << ",\"scheduling_steps\":" << T.steps << ",\"mpi_calls\":" << T.calls << ",\"messages\":" << T.msgs << ",\"collectives\":" << T.colls
          << ",\"distinct_interleavings\":" << hs.size() << ",\"interleaving_measure\":\"hash of the sequence of (process resumed | message step with source and destination)\",\"runs_with_several_processes\":" << T.multi
          << ",\"fault_free_runs\":" << T.runs - T.faulty << ",\"fault_injecting_runs\":" << T.faulty << ",\"runs_ended_by_an_injected_failure\":" << T.abandoned << ",\"determinism\":{\"repeated\":" << T.replayed << ",\"different\":" << T.mismatched << "},\"known_findings_reproduced\":" << nknown << ",\"worst_error_of_tolerance\":[" << T.worst[0] << "," << T.worst[1] << "],\"runs_in_which_fired\":{";
        for (int k = 0; k < PR_COUNT; k++) e << (k ? "," : "") << "\"" << probe_names[k] << "\":" << T.probes[k];
        e << "},\"policies\":{"; for (int k = 0; k < 8; k++) e << (k ? "," : "") << "\"" << pol[k] << "\":" << T.policy[k];
        std::string fl = g_flavour.substr(0, 6) == "oneapi" ? "oneAPI" : g_flavour == "rocm" ? "ROCm" : g_flavour == "gpu" ? "CUDA" : "", lib = fl == "CUDA" ? "cuFFT" : fl == "ROCm" ? "rocFFT" : "oneMKL";
        if (!fl.empty()) e << "},\"real_code\":\"all of include/ and src/ for the " << fl << " backend, its kernels included (run on the simulated device, one thread of the kernel after the other in a seeded order), the host code shared with the CPU backends\",\"stubs\":\"MPI (simulated), the run-time system of " << fl << " (memory the host cannot touch, streams and events, work done as late as the program allows), " << lib << " (checks of plans, work spaces, alignment and ranges; the transforms themselves by FFTW), operator new/delete\"},"
          << "\"assumptions\":[\"a clean batch is evidence, not proof: schedules, inputs and faults are sampled\",\"the simulated MPI follows the MPI-3.1 standard\",\"the simulated device and " << lib << " follow the vendor's documentation; data races between the threads of one kernel show only as an effect of their order\"]";
        else
        e << "},\"real_code\":\"all of include/ and src/ for the CPU backends (stock with AVX, FFTW, MKL), the C interface, the generated Fortran modules (driven by a Fortran program), python/heffte.py (driven by CPython), tracing; FFTW and MKL themselves\",\"stubs\":\"MPI (simulated), MPI_Wtime, operator new/delete and aligned_alloc (accounting, failures, guard pages), mpi4py (the communicator handle only)\"},"
          << "\"assumptions\":[\"a clean batch is evidence, not proof: schedules, inputs and faults are sampled\",\"the simulated MPI follows the MPI-3.1 standard; implementations add no further restrictions\"]";
        e << ",\"wall_s\":" << wall << ",\"violations\":" << nviol << (vmsg.empty() ? "" : ",\"violation\":" + js(vmsg)) << "}\n";
        std::ofstream f(out); f << e.str(); if (!f) die("cannot write " + out);
    }
    if (code == 3 && nviol) code = 1;
    return code;
}
