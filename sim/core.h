/* Internals of the simulator: scheduler, decisions, results of one run. */
#ifndef VERIF_CORE_H
#define VERIF_CORE_H
#include "api.h"
#include <functional>
#include <map>
#include <deque>
#include <cstring>
#include <cstdio>

enum { MAXR = 24, MAXOPS = 320, MAXDEC = 1 << 19 };

struct Rng { // splitmix64
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(seed) {}
    uint64_t next() { uint64_t z = (s += 0x9e3779b97f4a7c15ull); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    int range(int a, int b) { return a + (int)below((uint64_t)(b - a + 1)); } // inclusive
    bool chance(int percent) { return (int)below(100) < percent; }
    double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
};
inline uint64_t mix(uint64_t a, uint64_t b) { Rng r(a ^ (b * 0xff51afd7ed558ccdull)); r.next(); return r.next() ^ b; }
inline uint64_t fnv(uint64_t h, const void *p, size_t n) { const unsigned char *c = (const unsigned char *)p; for (size_t i = 0; i < n; i++) { h ^= c[i]; h *= 1099511628211ull; } return h; }

struct Result { // in memory shared with the parent
    int status;              // 0 unfinished 1 completed 2 violation
    int cat;
    char msg[3000];
    char sig[160];           // stable identity of the violation (no numbers that vary with the schedule)
    uint64_t loghash, schedhash;
    uint64_t steps, simns, msgs, colls, calls, yields;
    uint64_t outhash[MAXOPS][MAXR];
    uint32_t probes[PR_COUNT];
    uint32_t ignored[C_COUNT];   // findings of kinds the property does not own
    char ignored_msg[400];
    double worst[2];         // largest error in units of the tolerance, float and double
    int abandoned;           // an injected failure ended the run early (legal)
    uint32_t ndec;
    uint16_t dec[MAXDEC];
};
extern Result *R;

enum DecKind { D_SCHED = 0, D_EAGER, D_WAITANY, D_COLL, D_FAULT, D_GPU };

struct Fiber {
    void *sp = nullptr; char *stack = nullptr; size_t stacksz = 0;
    int rank = -1; bool started = false, done = false, stopped = false;
    bool (*pred)(void *) = nullptr; void *parg = nullptr; // blocked until pred(parg)
    const char *what = "start";      // the call it is in
    int op = -1; int libdepth = 0; const char *libwhat = ""; bool inmpi = false;
    void *eh[2] = {nullptr, nullptr};
    Rng data{1};
    uint64_t hash = 1469598103934665603ull;
    // memory accounting of library code
    long long live = 0, livecnt = 0, total = 0; int alloc_armed = 0; long long alloc_seen = 0; int alloc_failed = 0;
    double clockoff = 0, lastclock = 0; int clockcalls = 0; uint64_t profile = 0;
    int prio = 0;
};

struct Event { // something the network may do now
    virtual ~Event() {}
    virtual void fire() = 0;
    virtual int key() const { return 0; }   // destination rank
    const char *name = ""; uint64_t id = 0; int src = 0, dst = 0;
};

struct Sim {
    Scenario sc;
    uint64_t catmask = ~0ull;
    std::vector<Fiber> fib; int cur = -1; void *main_sp = nullptr; void *main_eh[2] = {nullptr, nullptr};
    std::deque<Event *> events; uint64_t nextid = 1;
    Rng sched{1}; Rng lat{1};
    bool replay = false; const uint16_t *rtrace = nullptr; uint32_t rlen = 0, rpos = 0;
    uint64_t steps = 0, now = 0; uint64_t log = 1469598103934665603ull, slog = 1469598103934665603ull;
    uint64_t steplimit = 2000000; int pct_change = 0; int pct_low = -1; int netprio = 0;
    bool verbose = false; FILE *vout = nullptr;
    bool in_sched = false;
};
extern Sim *S;

int decide(int kind, int n, int preferred);   // preferred: what the policy wants; recorded, or overruled by a replay
void sim_yield(const char *what);
void sim_block(const char *what, bool (*pred)(void *), void *arg);
void sim_post(Event *e, int src, int dst, const char *name);
void sim_log(const char *what, uint64_t a = 0, uint64_t b = 0, uint64_t c = 0);
void sim_finish();                            // end of a run: leftovers
inline Fiber &me() { return S->fib[S->cur]; }
void run_child(Scenario const &sc, uint64_t catmask, const uint16_t *trace, uint32_t len, bool verbose);
void mpi_start(); void mpi_lib_leave(); void mpi_end_check(); void mpi_checkpoint(int tag); std::string mpi_blocked_report();
void oracle_start(); void stage_finish();
void gpu_progress(); bool gpu_fault(void *addr); void gpu_live(long long *arrays, long long *plans); void gpu_end(); // gpu.cpp
void *sim_dev(const void *p);   // where the simulator finds a buffer handed to MPI
extern bool g_dev_on;
void mem_start(); bool mem_fault(void *addr, bool write, char *msg, size_t n);
size_t rank_entries_ready();
rank_main_t rank_entry(int rank);
extern bool g_mem_on;
struct NoLib { bool save; NoLib() { save = S && S->cur >= 0 ? me().inmpi : false; if (S && S->cur >= 0) me().inmpi = true; } ~NoLib() { if (S && S->cur >= 0) me().inmpi = save; } };
[[noreturn]] void child_exit(int code);
extern bool g_outside; // --outside: also generate what the listed findings are about
#endif
