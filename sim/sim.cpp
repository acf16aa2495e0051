/* Fibers, the seeded scheduler and the life of one simulated run. */
#include "core.h"
#include <cstdarg>
#include <cstdlib>
#include <csignal>
#include <exception>
#include <typeinfo>
#include <cxxabi.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <ucontext.h>
#include <dlfcn.h>
#include <execinfo.h>
#include <algorithm>

Sim *S = nullptr;
Result *R = nullptr;

// ---- context switch ---------------------------------------------------------------
extern "C" void sim_switch(void **save, void *to);
asm(".text\n.globl sim_switch\n.type sim_switch,@function\nsim_switch:\n"
    "  pushq %rbp\n  pushq %rbx\n  pushq %r12\n  pushq %r13\n  pushq %r14\n  pushq %r15\n"
    "  subq $8,%rsp\n  stmxcsr (%rsp)\n  fnstcw 4(%rsp)\n"
    "  movq %rsp,(%rdi)\n  movq %rsi,%rsp\n"
    "  ldmxcsr (%rsp)\n  fldcw 4(%rsp)\n  addq $8,%rsp\n"
    "  popq %r15\n  popq %r14\n  popq %r13\n  popq %r12\n  popq %rbx\n  popq %rbp\n  ret\n"
    ".size sim_switch,.-sim_switch\n");

static void eh_swap(void **save, void **load) {
    void **g = (void **)__cxxabiv1::__cxa_get_globals();
    save[0] = g[0]; save[1] = g[1]; g[0] = load[0]; g[1] = load[1];
}
static void to_fiber(int r) {
    S->cur = r; eh_swap(S->main_eh, S->fib[r].eh);
    sim_switch(&S->main_sp, S->fib[r].sp);
}
static void to_main() {
    Fiber &f = me(); int r = S->cur;
    eh_swap(f.eh, S->main_eh); S->cur = -1;
    sim_switch(&f.sp, S->main_sp);
    S->cur = r;
}
static void fiber_body() {
    Fiber &f = me();
    try { rank_entry(f.rank)(f.rank); }
    catch (std::exception const &e) { sim_violation(C_FATAL, "rank %d: exception left the rank program: %s", f.rank, e.what()); }
    f.done = true; f.what = "done";
    to_main();
    abort();
}

// ---- ending a run -----------------------------------------------------------------
[[noreturn]] void child_exit(int code) { _exit(code); }

static void fill_summary() {
    if (!S) return;
    R->loghash = S->log; R->schedhash = S->slog; R->steps = S->steps; R->simns = S->now;
    for (auto &f : S->fib) R->loghash = fnv(R->loghash, &f.hash, 8);
}
static void strip_sig(char *out, size_t n, const char *msg) { // message without its numbers
    size_t j = 0; bool num = false;
    for (const char *c = msg; *c && *c != '\n' && j + 1 < n; c++) {
        if (!strncmp(c, ": entry", 7)) break;
        if (*c >= '0' && *c <= '9') { if (!num) out[j++] = '#'; num = true; }
        else if (num && (*c == '.' || *c == '-' || *c == '+' || *c == 'e')) {}
        else { num = false; out[j++] = *c; }
    }
    out[j] = 0;
}
static void record(int cat, const char *msg) {
    R->status = 2; R->cat = cat;
    snprintf(R->msg, sizeof R->msg, "%s", msg);
    strip_sig(R->sig, sizeof R->sig, msg);
    fill_summary();
}
static void write_str(const char *s) { ssize_t k = write(2, s, strlen(s)); (void)k; }

extern "C" void sim_violation(int cat, const char *fmt, ...) {
    char buf[2500]; va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
    if (!(S->catmask & (1ull << cat))) {
        if (!R->ignored[cat]++) snprintf(R->ignored_msg, sizeof R->ignored_msg, "[cat %d] %s", cat, buf);
        return;
    }
    if (S->verbose) { write_str("  !! "); write_str(buf); write_str("\n"); }
    record(cat, buf);
    child_exit(2);
}

static void on_signal(int sig, siginfo_t *si, void *uc) {
    char buf[1200], m[600]; int cat = C_FATAL;
    int r = S ? S->cur : -1;
    if (sig == SIGPROF) {
        snprintf(buf, sizeof buf, "process %d never returns from %s (computes without end)", r, r >= 0 ? S->fib[r].libwhat : "?");
    } else if (sig == SIGSEGV || sig == SIGBUS) {
        ucontext_t *u = (ucontext_t *)uc; bool w = (u->uc_mcontext.gregs[REG_ERR] & 2) != 0;
        m[0] = 0;
        bool known = mem_fault(si->si_addr, w, m, sizeof m);
        if (known && m[0]) cat = (m[0] == 'R') ? C_INPUT : C_OOB;
        snprintf(buf, sizeof buf, "process %d in %s: %s", r, r >= 0 ? S->fib[r].libwhat : "?", known ? m + 1 : "invalid memory access (signal 11)");
        if (S && S->verbose) { char t[200]; snprintf(t, sizeof t, "  fault address %p\n", si->si_addr); write_str(t);
            void *bt[60]; int n = backtrace(bt, 60); backtrace_symbols_fd(bt, n, 2); }
    } else
        snprintf(buf, sizeof buf, "process %d in %s: killed by signal %d", r, r >= 0 ? S->fib[r].libwhat : "?", sig);
    if (S && cat != C_FATAL && !(S->catmask & (1ull << cat))) cat = C_FATAL; // it would have died all the same
    if (S && S->verbose) { write_str("  !! "); write_str(buf); write_str("\n"); }
    record(cat, buf);
    child_exit(2);
}
extern "C" void __assert_fail(const char *expr, const char *file, unsigned line, const char *fn) {
    (void)line; (void)fn;
    const char *b = strrchr(file, '/');
    char buf[600]; snprintf(buf, sizeof buf, "process %d in %s: assertion failed in %s: %s", S ? S->cur : -1, S && S->cur >= 0 ? me().libwhat : "?", b ? b + 1 : file, expr);
    if (S && S->verbose) { write_str("  !! "); write_str(buf); write_str("\n"); }
    record(C_FATAL, buf); child_exit(2);
}
static void on_terminate() {
    char buf[600]; const char *t = "no exception"; const char *w = "";
    std::exception_ptr p = std::current_exception();
    std::string keep;
    if (p) { try { std::rethrow_exception(p); } catch (std::exception &e) { t = typeid(e).name(); keep = e.what(); w = keep.c_str(); } catch (...) { t = "unknown"; } }
    snprintf(buf, sizeof buf, "process %d in %s: std::terminate called (%s: %s)", S ? S->cur : -1, S && S->cur >= 0 ? me().libwhat : "?", t, w);
    if (S && S->verbose) { write_str("  !! "); write_str(buf); write_str("\n"); }
    record(C_FATAL, buf); child_exit(2);
}

// ---- decisions --------------------------------------------------------------------
int decide(int kind, int n, int preferred) {
    int v;
    if (n <= 1) return 0;
    if (S->replay) { v = S->rpos < S->rlen ? S->rtrace[S->rpos] : 0; S->rpos++; if (v >= n) v = n - 1; }
    else v = preferred;
    if (R->ndec < MAXDEC) R->dec[R->ndec++] = (uint16_t)v;
    uint64_t x = (uint64_t)kind << 32 | (uint64_t)n << 16 | (uint64_t)v;
    S->log = fnv(S->log, &x, 8);
    return v;
}
void sim_log(const char *what, uint64_t a, uint64_t b, uint64_t c) {
    uint64_t v[4] = {a, b, c, (uint64_t)(S->cur + 1)};
    S->log = fnv(S->log, what, strlen(what)); S->log = fnv(S->log, v, sizeof v);
    if (S->verbose) { char t[256]; snprintf(t, sizeof t, "  [%llu] p%d %s %llu %llu %llu\n", (unsigned long long)S->steps, S->cur, what, (unsigned long long)a, (unsigned long long)b, (unsigned long long)c); write_str(t); }
}
void sim_yield(const char *what) { Fiber &f = me(); f.what = what; f.pred = nullptr; bool s = f.inmpi; f.inmpi = true; to_main(); f.inmpi = s; }
void sim_block(const char *what, bool (*pred)(void *), void *arg) {
    Fiber &f = me(); f.what = what; f.pred = pred; f.parg = arg; bool s = f.inmpi; f.inmpi = true; to_main(); f.inmpi = s; f.pred = nullptr;
}
void sim_post(Event *e, int src, int dst, const char *name) { e->id = S->nextid++; e->src = src; e->dst = dst; e->name = name; S->events.push_back(e); }

// ---- scheduler --------------------------------------------------------------------
static int pick(std::vector<int> const &ranks, int nev) { // actions: events [0,nev), then ranks
    int n = nev + (int)ranks.size(); Rng &g = S->sched;
    int st = S->sc.f.stallrank;
    auto anyrank = [&]() -> int { // honour the starved rank
        if (st >= 0 && ranks.size() > 1 && !g.chance(2)) {
            for (int t = 0; t < 8; t++) { int k = (int)g.below(ranks.size()); if (ranks[k] != st) { R->probes[PR_STALL] = 1; return nev + k; } }
        }
        return nev + (int)g.below(ranks.size());
    };
    switch (S->sc.policy) {
    case 1: { // priorities with change points
        if (g.below(60) == 0) { S->fib[g.below(S->fib.size())].prio = (int)g.below(1000); S->netprio = (int)g.below(1000); }
        int best = -1, bp = -1;
        for (size_t i = 0; i < ranks.size(); i++) if (S->fib[ranks[i]].prio > bp) { bp = S->fib[ranks[i]].prio; best = nev + (int)i; }
        if (nev && (best < 0 || S->netprio > bp)) return (int)g.below(nev);
        return best;
    }
    case 2: // the network is slow: messages move only when every process waits
        if (!ranks.empty() && !g.chance(3)) return anyrank();
        return nev ? (int)g.below(nev) : anyrank();
    case 3: // the network is fast
        if (nev && !g.chance(5)) return (int)g.below(nev);
        return ranks.empty() ? (int)g.below(nev) : anyrank();
    case 4: // newest message first, process with the highest rank first
        if (nev && g.chance(50)) return nev - 1;
        if (!ranks.empty()) return g.chance(90) ? nev + (int)ranks.size() - 1 : anyrank();
        return nev - 1;
    case 5: // depth first: stay with one process until it blocks
        if (!ranks.empty()) {
            if (S->pct_low >= 0 && !g.chance(4)) for (size_t i = 0; i < ranks.size(); i++) if (ranks[i] == S->pct_low) return nev + (int)i;
            if (nev && g.chance(20)) return (int)g.below(nev);
            int k = anyrank(); S->pct_low = ranks[k - nev]; return k;
        }
        return (int)g.below(nev);
    case 6: // all messages towards one process are slow
        if (nev) {
            int slow = (int)(S->sc.schedseed % S->fib.size()); int k = (int)g.below(nev);
            for (int t = 0; t < 6 && S->events[k]->dst == slow; t++) k = (int)g.below(nev);
            if (S->events[k]->dst == slow && !ranks.empty()) return anyrank();
            if (ranks.empty() || g.chance(50)) return k;
        }
        return ranks.empty() ? 0 : anyrank();
    case 7: // benign: oldest first, round robin
        return 0;
    default:
        if (st >= 0) { int k = (int)g.below(n); return k < nev ? k : anyrank(); }
        return (int)g.below(n);
    }
}
static void deadlock(std::vector<int> const &blocked) {
    char buf[2400]; size_t k = 0; 
    bool faulted = false; for (auto &f : S->fib) if (f.stopped || f.alloc_failed) faulted = true;
    if (faulted) { R->abandoned = 1; return; }
    const char *first = ""; std::string calls;
    for (int r : blocked) if (!calls.size() || calls.find(S->fib[r].what) == std::string::npos) { if (calls.size()) calls += ", "; calls += S->fib[r].what; (void)first; }
    k += snprintf(buf + k, sizeof buf - k, "deadlock: no process can go on and nothing is in transit; waiting in: %s\n", calls.c_str());
    for (int r : blocked) if (k < sizeof buf - 100) k += snprintf(buf + k, sizeof buf - k, "   process %d waits in %s within %s (operation %d)\n", r, S->fib[r].what, S->fib[r].libdepth ? S->fib[r].libwhat : "the user program", S->fib[r].op);
    std::string rep = mpi_blocked_report(); snprintf(buf + k, sizeof buf - k, "%s", rep.c_str());
    sim_violation(S->catmask & (1ull << C_PROGRESS) ? C_PROGRESS : C_FATAL, "%s", buf);
}
static void schedule() {
    std::vector<int> ready, blocked;
    for (;;) {
        ready.clear(); blocked.clear(); bool live = false;
        for (auto &f : S->fib) {
            if (f.done || f.stopped) continue;
            live = true;
            if (!f.pred || f.pred(f.parg)) ready.push_back(f.rank); else blocked.push_back(f.rank);
        }
        if (!live) return;
        int nev = (int)S->events.size(); if (nev > 4000) nev = 4000;
        int n = nev + (int)ready.size();
        if (n == 0) { deadlock(blocked); return; }
        if (++S->steps > S->steplimit) { sim_violation(S->catmask & (1ull << C_PROGRESS) ? C_PROGRESS : C_FATAL, "no end: %llu scheduling steps and the operations have not completed", (unsigned long long)S->steps); return; }
        int k = decide(D_SCHED, n, n > 1 ? (S->replay ? 0 : pick(ready, nev)) : 0);
        S->now += 20 + S->lat.below(400);
        if (k < nev) {
            Event *e = S->events[k]; S->events.erase(S->events.begin() + k);
            uint64_t v[2] = {1, (uint64_t)e->src << 32 | (uint64_t)e->dst}; S->slog = fnv(S->slog, v, 16);
            S->now += S->lat.below(2000);
            if (S->verbose) { char t[200]; snprintf(t, sizeof t, "  [%llu] network: %s %d -> %d\n", (unsigned long long)S->steps, e->name, e->src, e->dst); write_str(t); }
            e->fire(); delete e;
        } else {
            int r = ready[k - nev];
            uint64_t v[2] = {2, (uint64_t)r}; S->slog = fnv(S->slog, v, 16);
            to_fiber(r);
        }
    }
}

// ---- one run, in a forked child ---------------------------------------------------
void run_child(Scenario const &sc, uint64_t catmask, const uint16_t *trace, uint32_t len, bool verbose) {
    static Sim sim; S = &sim;
    S->sc = sc; S->catmask = catmask | (1ull << C_FATAL); S->verbose = verbose;
    S->replay = trace != nullptr; S->rtrace = trace; S->rlen = len;
    S->sched = Rng(mix(sc.schedseed, 11)); S->lat = Rng(mix(sc.schedseed, 12)); S->netprio = (int)S->sched.below(1000);
    S->fib.resize(sc.nranks);
    size_t ssz = 1 << 20;
    for (int r = 0; r < sc.nranks; r++) {
        Fiber &f = S->fib[r]; f.rank = r; f.data = Rng(mix(sc.dataseed, 1000 + r)); f.prio = (int)S->sched.below(1000);
        if (sc.f.clock) f.clockoff = S->lat.unit() * 3600.0 * (1 + r);
        f.stacksz = ssz; f.stack = (char *)mmap(nullptr, ssz + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        mprotect(f.stack, 4096, PROT_NONE);
        uint64_t *sp = (uint64_t *)(f.stack + 4096 + ssz - 64);
        *--sp = 0;                                       // leaves the stack pointer as after a call
        *--sp = (uint64_t)(void *)fiber_body;           // return address
        for (int i = 0; i < 6; i++) *--sp = 0;
        *--sp = 0; { uint32_t mx; uint16_t cw; asm volatile("stmxcsr %0" : "=m"(mx)); asm volatile("fnstcw %0" : "=m"(cw)); memcpy(sp, &mx, 4); memcpy((char *)sp + 4, &cw, 2); }
        f.sp = sp;
    }
    static char alt[64 * 1024]; stack_t st; memset(&st, 0, sizeof st); st.ss_sp = alt; st.ss_size = sizeof alt; sigaltstack(&st, nullptr);
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = on_signal; sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
    for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGPROF}) sigaction(s, &sa, nullptr);
    signal(SIGPIPE, SIG_IGN);
    std::set_terminate(on_terminate);
    struct itimerval it; memset(&it, 0, sizeof it); it.it_value.tv_sec = verbose ? 60 : 20; setitimer(ITIMER_PROF, &it, nullptr);
    mem_start(); mpi_start(); oracle_start();
    schedule();
    bool faulted = R->abandoned; for (auto &f : S->fib) if (f.stopped || f.alloc_failed) faulted = true;
    if (!faulted) { gpu_end(); mpi_end_check(); stage_finish(); }
    R->abandoned = faulted;
    R->status = 1; fill_summary();
    child_exit(0);
}

// ---- services for the rank programs -----------------------------------------------
extern "C" {
void sim_lib_enter(int op, const char *what) { Fiber &f = me(); f.libdepth++; if (op >= 0) f.op = op; f.libwhat = what; if (S->verbose) sim_log(what, op); }
void sim_lib_leave() { Fiber &f = me(); f.libdepth--; if (!f.libdepth) mpi_lib_leave(); }
void sim_set_op(int op) { me().op = op; }
int sim_in_lib() { return me().libdepth; }
int sim_rank() { return S->cur; }
Scenario const *sim_scenario() { return &S->sc; }
uint64_t sim_rand() { return me().data.next(); }
void sim_probe(int id) { R->probes[id]++; }
void sim_note(uint64_t v) { Fiber &f = me(); f.hash = fnv(f.hash, &v, 8); }
void sim_output_hash(int op, const void *p, size_t n) {
    uint64_t h = fnv(1469598103934665603ull, p, n); sim_note(h);
    if (op >= 0 && op < MAXOPS) R->outhash[op][S->cur] = h;
}
void sim_abandon(const char *why) { Fiber &f = me(); f.stopped = true; f.what = why; R->abandoned = 1; to_main(); abort(); }
void sim_survived() { me().alloc_failed = 0; }
int sim_faulted() { return me().alloc_failed; }
size_t sim_lib_live() { return (size_t)me().live; }
}
const char *probe_names[] = {"empty_box", "null_first_reshape", "batch", "inplace", "subranks", "odd_real_length", "guarded_library_heap", "alloc_failure_fired", "geometry_rejected",
    "index64", "plan_moved", "real_side_of_complex_plan", "documented_recipe", "user_message", "short_container", "trace_file_written", "c_error_path", "alloc_failure_survived", "permuted_communicator",
    "waitany_choice", "unexpected_message", "rendezvous_send", "eager_send", "collective_left_early", "collective_held_back", "clock_jump", "trace_io_fault", "several_plans",
    "alltoall", "alltoallv", "p2p", "p2p_pipelined", "user_order", "two_dimensional", "stalled_process", "long_dimension", "device_operation", "device_memory_in_mpi"};
