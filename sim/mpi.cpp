/*
 * The simulated MPI: channels with non-overtaking envelopes, eager and rendezvous
 * sends, posted/unexpected matching, collectives that may or may not synchronise,
 * communicators and groups, a virtual clock.  Every choice the MPI standard leaves
 * open is a decision of the seeded scheduler; every use the standard forbids is
 * reported.
 */
#include "core.h"
#include <algorithm>
#include <set>
#include <memory>

char sim_handles[64];
enum { K_BYTE = 0, K_CHAR, K_SCHAR, K_UCHAR, K_SHORT, K_USHORT, K_INT, K_UINT, K_LONG, K_ULONG, K_LL, K_ULL, K_FLOAT, K_DOUBLE, K_LD, K_CF, K_CD, K_BOOL, K_I64, K_U64 };
sim_dtype_s sim_dt[32] = {{1,K_BYTE,1},{1,K_CHAR,1},{1,K_SCHAR,1},{1,K_UCHAR,1},{2,K_SHORT,1},{2,K_USHORT,1},{4,K_INT,1},{4,K_UINT,1},{8,K_LONG,1},{8,K_ULONG,1},
    {8,K_LL,1},{8,K_ULL,1},{4,K_FLOAT,1},{8,K_DOUBLE,1},{16,K_LD,1},{8,K_CF,1},{16,K_CD,1},{1,K_BOOL,1},{8,K_I64,1},{8,K_U64,1}};
sim_op_s sim_ops[16] = {{0},{1},{2},{3},{4},{5},{6},{7},{8},{9}};

struct Msg; struct Coll; struct CommShared;
struct sim_comm_s { CommShared *sh; int owner, myrank; bool freed, lib; int op; };
struct sim_group_s { std::vector<int> w; int owner; bool freed, lib; int op; };
enum ReqKind { RQ_SEND, RQ_RECV, RQ_COLL };
struct sim_req_s {
    int kind, owner, op; bool lib, complete = false, active = true, persistent = false, freed = false, wasfree = false;
    char *buf = nullptr; const char *sbuf = nullptr; size_t bytes = 0; int tkind = 0; int src = 0, tag = 0, count = 0; int ssync = 0; MPI_Datatype dt = nullptr;
    sim_comm_s *comm = nullptr; Msg *msg = nullptr; Coll *coll = nullptr;
    std::vector<char> saved; uint64_t sum = 0; MPI_Status st; const char *call = "";
};
struct Msg {
    CommShared *sh; int src, dst, tag; size_t bytes; int tkind; bool eager; bool lib; int op; const char *sbuf; std::vector<char> payload;
    sim_req_s *sreq = nullptr, *rreq = nullptr; uint64_t sum;
};
struct Slot {
    bool arrived = false, left = false, lib = false; int op = -1; std::string kind; int root = -1; int tkind = 0, esize = 0, opk = -1; long long aux = 0;
    std::vector<char> data; std::vector<size_t> off, len; // outgoing pieces
    std::vector<size_t> need;                              // bytes expected from each member
    std::vector<int> group; int color = 0, key = 0; CommShared *newcomm = nullptr; int newrank = -1;
    const char *sptr = nullptr; uint64_t ssum = 0; size_t sbytes = 0;
};
struct Coll { CommShared *sh; std::string kind; uint64_t seq; std::vector<Slot> s; int arrived = 0, left = 0; int sync = 0; };
struct CommShared {
    int id; std::vector<int> members; std::deque<Coll *> colls; std::vector<uint64_t> next; uint64_t base = 0; bool lib = false; int op = -1; std::string how;
    std::vector<int> freed;
    int rank_of(int w) const { for (size_t i = 0; i < members.size(); i++) if (members[i] == w) return (int)i; return -1; }
};
struct Channel { std::deque<Msg *> q; };
struct Mpi {
    std::vector<CommShared *> comms; CommShared *world = nullptr; std::vector<sim_comm_s *> wh, selfh; std::vector<std::vector<MPI_Comm>> user;
    std::map<std::pair<int, std::pair<int, int>>, Channel> chan;
    std::vector<std::deque<sim_req_s *>> posted; std::vector<std::deque<Msg *>> unexpected;
    std::vector<std::vector<sim_req_s *>> active; // per process, not yet waited for
    std::vector<sim_comm_s *> handles; std::vector<sim_group_s *> groups;
    std::map<std::pair<int, std::vector<int>>, std::vector<Coll *>> cgroups;
    int init = 1;
};
static Mpi *M = nullptr;

#define FATAL(...) sim_violation(C_FATAL, __VA_ARGS__)
static uint64_t sum_of(const void *p, size_t n) { return n ? fnv(1469598103934665603ull, p, n) : 0; }
static bool waits(const char *n) { return !strncmp(n, "MPI_Wait", 8) || !strncmp(n, "MPI_Test", 8) || !strncmp(n, "MPI_Probe", 9) || !strncmp(n, "MPI_Iprobe", 10); } // how often depends on the schedule
uint64_t sim_profile() { return me().profile; }
static void enter(const char *name, uint64_t a = 0, uint64_t b = 0) { if (!waits(name)) { uint64_t h = 0; for (const char *c = name; *c; c++) h = h * 131 + (unsigned char)*c; me().profile += mix(mix(h, a), b) | 1; } R->calls++; sim_log(name, a, b); gpu_progress(); }

static sim_comm_s *comm(MPI_Comm c, const char *call) {
    if (c == MPI_COMM_WORLD) return M->wh[S->cur];
    if (c == MPI_COMM_SELF) return M->selfh[S->cur];
    if (c == nullptr || c == MPI_COMM_NULL) { FATAL("process %d: %s on a null communicator", S->cur, call); return M->wh[S->cur]; }
    if ((char *)c >= sim_handles && (char *)c < sim_handles + sizeof sim_handles) FATAL("process %d: %s on an invalid communicator handle", S->cur, call);
    if (c->freed) FATAL("process %d: %s on a communicator that has been freed", S->cur, call);
    if (c->owner != S->cur) FATAL("process %d: %s with a handle of process %d", S->cur, call, c->owner);
    return c;
}
static sim_group_s *group(MPI_Group g, const char *call) {
    static sim_group_s empty;
    if (g == MPI_GROUP_EMPTY) { empty.w.clear(); empty.freed = false; empty.owner = S->cur; return &empty; }
    if (g == nullptr || g == MPI_GROUP_NULL) FATAL("process %d: %s on a null group", S->cur, call);
    if (g->freed) FATAL("process %d: %s on a group that has been freed", S->cur, call);
    return g;
}
static size_t tsize(MPI_Datatype t, const char *call) {
    if (t == MPI_DATATYPE_NULL || t == nullptr || (char *)t < (char *)sim_dt) { FATAL("process %d: %s with an invalid datatype", S->cur, call); return 1; }
    return (size_t)t->size;
}
static void check_count(int n, const char *call) { if (n < 0) FATAL("process %d: %s with a negative count (%d)", S->cur, call, n); }

static CommShared *new_shared(std::vector<int> const &m, const char *how) {
    CommShared *c = new CommShared; c->id = (int)M->comms.size(); c->members = m; c->next.assign(m.size(), 0); c->freed.assign(m.size(), 0); c->how = how; M->comms.push_back(c); return c;
}
static sim_comm_s *new_handle(CommShared *sh, int world, bool lib, int op) {
    sim_comm_s *h = new sim_comm_s{sh, world, sh->rank_of(world), false, lib, op}; M->handles.push_back(h); return h;
}
static sim_group_s *new_group(std::vector<int> const &w) {
    sim_group_s *g = new sim_group_s{w, S->cur, false, me().libdepth > 0, me().op}; M->groups.push_back(g); return g;
}

void mpi_start() {
    M = new Mpi; int n = S->sc.nranks; std::vector<int> all(n); for (int i = 0; i < n; i++) all[i] = i;
    M->world = new_shared(all, "world"); M->posted.resize(n); M->unexpected.resize(n); M->active.resize(n);
    for (int r = 0; r < n; r++) { M->wh.push_back(new_handle(M->world, r, false, -1)); CommShared *s = new_shared({r}, "self"); M->selfh.push_back(new_handle(s, r, false, -1)); }
    M->user.assign(S->sc.comms.size(), std::vector<MPI_Comm>(n, MPI_COMM_NULL));
    for (size_t i = 0; i < S->sc.comms.size(); i++) {
        SComm const &c = S->sc.comms[i];
        if (c.how == 0) { for (int r = 0; r < n; r++) M->user[i][r] = MPI_COMM_WORLD; continue; }
        CommShared *sh = new_shared(c.members, "user");
        for (int r : c.members) M->user[i][r] = new_handle(sh, r, false, -1);
    }
}
extern "C" MPI_Comm sim_comm(int i) { return M->user[i][S->cur]; }
extern "C" int sim_comm_rank_of(int i) {
    auto const &m = S->sc.comms[i].members; for (size_t k = 0; k < m.size(); k++) if (m[k] == S->cur) return (int)k; return -1;
}

// ---- point to point ---------------------------------------------------------------
static bool matches(sim_req_s *r, Msg *m) { return r->comm->sh == m->sh && (r->src == MPI_ANY_SOURCE || r->comm->sh->members[r->src] == m->src) && (r->tag == MPI_ANY_TAG || r->tag == m->tag); }
struct Transfer : Event { Msg *m; void fire() override; int key() const override { return m->dst; } };
struct Envelope : Event { std::pair<int, std::pair<int, int>> k; void fire() override; int key() const override { return k.second.second; } };

static bool process_failed(int r) { return S->fib[r].stopped && !S->sc.f.strict; }
static void check_send_untouched(sim_req_s *q) {
    if (process_failed(q->owner)) return;
    if (q->bytes && sum_of(q->sbuf, q->bytes) != q->sum)
        sim_violation(C_COMM, "process %d changed the buffer of its %s (%zu bytes, operation %d) before the send had completed", q->owner, q->call, q->bytes, q->op);
}
void Transfer::fire() {
    sim_req_s *r = m->rreq;
    R->msgs++;
    // a process that left a transform with an exception: its buffers are gone, whatever is still in transit is lost with it
    // (that requests are left behind at all is a listed finding; strict=1 in a scenario keeps the checks on)
    if (!m->eager && process_failed(m->src)) return;
    if (process_failed(m->dst)) { r->complete = true; if (!m->eager) m->sreq->complete = true; return; }
    if (m->bytes > r->bytes) FATAL("message truncated: process %d sent %zu bytes to process %d, which receives at most %zu", m->src, m->bytes, m->dst, r->bytes);
    for (size_t i = 0; i < r->bytes; i++) if ((unsigned char)r->buf[i] != 0xFD) {
        sim_violation(C_COMM, "process %d wrote into the buffer of a pending receive (%zu bytes, operation %d) before it had completed", r->owner, r->bytes, r->op); break; }
    if (m->tkind != r->tkind && m->tkind != K_BYTE && r->tkind != K_BYTE) sim_violation(C_COMM, "process %d sends a different datatype than process %d receives", m->src, m->dst);
    if (m->lib != r->lib) sim_violation(C_ISOLATION, "a message %s (process %d to %d, tag %d) was received by %s", m->lib ? "of the library" : "of the user", m->src, m->dst, m->tag, r->lib ? "the library" : "the user program");
    else if (m->op != r->op) sim_violation(C_ISOLATION, "a message sent in operation %d (process %d to %d, tag %d) was received in operation %d", m->op, m->src, m->dst, m->tag, r->op);
    const char *data = m->eager ? m->payload.data() : m->sbuf;
    if (!m->eager) check_send_untouched(m->sreq);
    if (m->bytes) memcpy(r->buf, data, m->bytes);
    if (r->bytes > m->bytes) memcpy(r->buf + m->bytes, r->saved.data() + m->bytes, r->bytes - m->bytes);
    S->log = fnv(S->log, r->buf, m->bytes);
    r->complete = true; r->st.MPI_SOURCE = m->sh->rank_of(m->src); r->st.MPI_TAG = m->tag; r->st.MPI_ERROR = 0; r->st.sim_bytes = m->bytes; r->st.sim_cancelled = 0;
    if (!m->eager) m->sreq->complete = true;
    m->payload.clear(); m->payload.shrink_to_fit();
}
static void bind(Msg *m, sim_req_s *r) { m->rreq = r; r->msg = m; Transfer *t = new Transfer; t->m = m; sim_post(t, m->src, m->dst, "data"); }
void Envelope::fire() {
    Channel &c = M->chan[k]; Msg *m = c.q.front(); c.q.pop_front();
    if (!c.q.empty()) { Envelope *e = new Envelope; e->k = k; sim_post(e, m->src, m->dst, "envelope"); }
    auto &po = M->posted[m->dst];
    for (size_t i = 0; i < po.size(); i++) if (matches(po[i], m)) { sim_req_s *r = po[i]; po.erase(po.begin() + i); bind(m, r); return; }
    R->probes[PR_UNEXPECTED]++;
    M->unexpected[m->dst].push_back(m);
}
static void check_overlap(const char *p, size_t n, bool write, const char *call) {
    if (!n) return;
    for (auto *q : M->active[S->cur]) {
        if (!q->active || q->complete || !q->bytes || q->kind == RQ_COLL) continue;
        const char *b = q->kind == RQ_RECV ? q->buf : q->sbuf; bool w = q->kind == RQ_RECV;
        if ((w || write) && p < b + q->bytes && b < p + n)
            sim_violation(C_COMM, "process %d: the buffer of %s overlaps the buffer of a pending %s (operation %d)", S->cur, call, w ? "receive" : "send", me().op);
    }
}
static void start_send(sim_req_s *q, int dst) {
    Fiber &f = me(); CommShared *sh = q->comm->sh;
    q->complete = false; q->active = true; q->op = f.op; q->lib = f.libdepth > 0;
    if (dst == MPI_PROC_NULL) { q->complete = true; q->sum = sum_of(q->sbuf, q->bytes); return; }
    if (dst < 0 || dst >= (int)sh->members.size()) { FATAL("process %d: %s to rank %d of a communicator with %zu members", S->cur, q->call, dst, sh->members.size()); q->complete = true; return; }
    if (q->tag < 0) FATAL("process %d: %s with tag %d", S->cur, q->call, q->tag);
    check_overlap(q->sbuf, q->bytes, false, q->call);
    Msg *m = new Msg; m->sh = sh; m->src = S->cur; m->dst = sh->members[dst]; m->tag = q->tag; m->bytes = q->bytes; m->tkind = q->tkind; m->lib = q->lib; m->op = q->op; m->sbuf = q->sbuf; m->sreq = q;
    bool rdv = q->ssync == 1 || (q->ssync == 0 && (q->bytes > (size_t)S->sc.f.eagerlimit || decide(D_EAGER, 2, S->sched.chance(S->sc.f.rdv))));
    m->eager = !rdv; R->probes[rdv ? PR_RDV_SEND : PR_EAGER_SEND]++;
    q->sum = m->sum = sum_of(q->sbuf, q->bytes);
    if (m->eager) { m->payload.assign(q->sbuf, q->sbuf + q->bytes); q->complete = true; }
    q->msg = m;
    auto k = std::make_pair(sh->id, std::make_pair(m->src, m->dst));
    Channel &c = M->chan[k]; c.q.push_back(m);
    if (c.q.size() == 1) { Envelope *e = new Envelope; e->k = k; sim_post(e, m->src, m->dst, "envelope"); }
}
static void start_recv(sim_req_s *q) {
    Fiber &f = me(); q->complete = false; q->active = true; q->op = f.op; q->lib = f.libdepth > 0;
    if (q->src == MPI_PROC_NULL) { q->complete = true; q->st.MPI_SOURCE = MPI_PROC_NULL; q->st.sim_bytes = 0; return; }
    if (q->src != MPI_ANY_SOURCE && (q->src < 0 || q->src >= (int)q->comm->sh->members.size())) { FATAL("process %d: %s from rank %d of a communicator with %zu members", S->cur, q->call, q->src, q->comm->sh->members.size()); }
    check_overlap(q->buf, q->bytes, true, q->call);
    q->saved.assign(q->buf, q->buf + q->bytes); if (q->bytes) memset(q->buf, 0xFD, q->bytes);
    auto &un = M->unexpected[S->cur];
    for (size_t i = 0; i < un.size(); i++) if (matches(q, un[i])) { Msg *m = un[i]; un.erase(un.begin() + i); bind(m, q); return; }
    M->posted[S->cur].push_back(q);
}
static sim_req_s *mkreq(int kind, sim_comm_s *c, const char *call) {
    sim_req_s *q = new sim_req_s; memset(&q->st, 0, sizeof q->st); q->kind = kind; q->owner = S->cur; q->op = me().op; q->lib = me().libdepth > 0; q->comm = c; q->call = call; return q;
}
static void finish_req(sim_req_s *q) { // the owner learns of the completion
    if (q->kind == RQ_SEND) check_send_untouched(q);
    q->active = false;
    auto &a = M->active[q->owner]; a.erase(std::remove(a.begin(), a.end(), q), a.end());
}
static bool req_done(void *p) { return ((sim_req_s *)p)->complete; }
static bool coll_ready(Coll *c, int r);
static void coll_deliver(sim_req_s *q);
static bool req_ready(sim_req_s *q) { if (q->kind == RQ_COLL) return q->complete || coll_ready(q->coll, q->src); return q->complete; }
static bool any_ready(void *p) { auto *v = (std::vector<sim_req_s *> *)p; for (auto *q : *v) if (q && req_ready(q)) return true; return false; }
static bool all_ready(void *p) { auto *v = (std::vector<sim_req_s *> *)p; for (auto *q : *v) if (q && !req_ready(q)) return false; return true; }
static void put_status(MPI_Status *st, sim_req_s *q) { if (st) { if (q) *st = q->st; else { st->MPI_SOURCE = MPI_ANY_SOURCE; st->MPI_TAG = MPI_ANY_TAG; st->MPI_ERROR = 0; st->sim_bytes = 0; st->sim_cancelled = 0; } } }
static void complete_handle(MPI_Request *r, MPI_Status *st) {
    sim_req_s *q = *r; if (q->kind == RQ_COLL && !q->complete) coll_deliver(q);
    finish_req(q); put_status(st, q);
    if (!q->persistent) { q->freed = true; *r = MPI_REQUEST_NULL; }
}
static sim_req_s *getreq(MPI_Request r, const char *call) { // null when inactive
    if (r == MPI_REQUEST_NULL) return nullptr;
    if (r == nullptr || ((char *)r >= sim_handles && (char *)r < sim_handles + sizeof sim_handles)) { FATAL("process %d: %s on an invalid request handle", S->cur, call); return nullptr; }
    if (r->freed) { FATAL("process %d: %s on a request that has already completed", S->cur, call); return nullptr; }
    if (!r->active) return nullptr;
    return r;
}
static int do_isend(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Request *r, const char *call, int ssync) {
    NoLib nl; enter(call, (uint64_t)n, (uint64_t)d); check_count(n, call); sim_comm_s *cm = comm(c, call); sim_yield(call);
    sim_req_s *q = mkreq(RQ_SEND, cm, call); q->sbuf = (const char *)sim_dev(b); q->bytes = (size_t)n * tsize(t, call); q->tkind = t->kind; q->tag = tag; q->ssync = ssync; q->src = d;
    start_send(q, d); M->active[S->cur].push_back(q); *r = q; return 0;
}
static int do_send(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, const char *call, int ssync) {
    MPI_Request r; do_isend(b, n, t, d, tag, c, &r, call, ssync); NoLib nl; sim_block(call, req_done, r); complete_handle(&r, nullptr); return 0;
}
static int do_irecv(void *b, int n, MPI_Datatype t, int s, int tag, MPI_Comm c, MPI_Request *r, const char *call) {
    NoLib nl; enter(call, (uint64_t)n, (uint64_t)s); check_count(n, call); sim_comm_s *cm = comm(c, call); sim_yield(call);
    sim_req_s *q = mkreq(RQ_RECV, cm, call); q->buf = (char *)sim_dev(b); q->bytes = (size_t)n * tsize(t, call); q->tkind = t->kind; q->src = s; q->tag = tag;
    start_recv(q); M->active[S->cur].push_back(q); *r = q; return 0;
}
extern "C" {
int MPI_Send(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c) { return do_send(b, n, t, d, tag, c, "MPI_Send", 0); }
int MPI_Ssend(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c) { return do_send(b, n, t, d, tag, c, "MPI_Ssend", 1); }
int MPI_Rsend(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c) { return do_send(b, n, t, d, tag, c, "MPI_Rsend", 0); }
int MPI_Bsend(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c) { return do_send(b, n, t, d, tag, c, "MPI_Bsend", 2); }
int MPI_Isend(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Request *r) { return do_isend(b, n, t, d, tag, c, r, "MPI_Isend", 0); }
int MPI_Issend(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Request *r) { return do_isend(b, n, t, d, tag, c, r, "MPI_Issend", 1); }
int MPI_Irsend(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Request *r) { return do_isend(b, n, t, d, tag, c, r, "MPI_Irsend", 0); }
int MPI_Ibsend(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Request *r) { return do_isend(b, n, t, d, tag, c, r, "MPI_Ibsend", 2); }
int MPI_Irecv(void *b, int n, MPI_Datatype t, int s, int tag, MPI_Comm c, MPI_Request *r) { return do_irecv(b, n, t, s, tag, c, r, "MPI_Irecv"); }
int MPI_Recv(void *b, int n, MPI_Datatype t, int s, int tag, MPI_Comm c, MPI_Status *st) {
    MPI_Request r; do_irecv(b, n, t, s, tag, c, &r, "MPI_Recv"); NoLib nl; sim_block("MPI_Recv", req_done, r); complete_handle(&r, st); return 0;
}
int MPI_Sendrecv(const void *sb, int sn, MPI_Datatype stp, int d, int stag, void *rb, int rn, MPI_Datatype rt, int s, int rtag, MPI_Comm c, MPI_Status *st) {
    MPI_Request r[2]; do_irecv(rb, rn, rt, s, rtag, c, &r[0], "MPI_Sendrecv"); do_isend(sb, sn, stp, d, stag, c, &r[1], "MPI_Sendrecv", 0);
    NoLib nl; std::vector<sim_req_s *> v{r[0], r[1]}; sim_block("MPI_Sendrecv", all_ready, &v); complete_handle(&r[0], st); complete_handle(&r[1], nullptr); return 0;
}
int MPI_Sendrecv_replace(void *b, int n, MPI_Datatype t, int d, int stag, int s, int rtag, MPI_Comm c, MPI_Status *st) {
    std::vector<char> tmp; { NoLib nl; tmp.assign((char *)b, (char *)b + (size_t)n * tsize(t, "MPI_Sendrecv_replace")); }
    MPI_Request r[2]; do_isend(tmp.data(), n, t, d, stag, c, &r[1], "MPI_Sendrecv_replace", 0); do_irecv(b, n, t, s, rtag, c, &r[0], "MPI_Sendrecv_replace");
    NoLib nl; std::vector<sim_req_s *> v{r[0], r[1]}; sim_block("MPI_Sendrecv_replace", all_ready, &v); complete_handle(&r[0], st); complete_handle(&r[1], nullptr);
    std::vector<char>().swap(tmp); return 0;
}
int MPI_Send_init(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Request *r) {
    NoLib nl; check_count(n, "MPI_Send_init"); sim_req_s *q = mkreq(RQ_SEND, comm(c, "MPI_Send_init"), "MPI_Send_init"); q->sbuf = (const char *)sim_dev(b); q->bytes = (size_t)n * tsize(t, "MPI_Send_init"); q->tkind = t->kind; q->tag = tag; q->src = d; q->persistent = true; q->active = false; *r = q; return 0;
}
int MPI_Recv_init(void *b, int n, MPI_Datatype t, int s, int tag, MPI_Comm c, MPI_Request *r) {
    NoLib nl; check_count(n, "MPI_Recv_init"); sim_req_s *q = mkreq(RQ_RECV, comm(c, "MPI_Recv_init"), "MPI_Recv_init"); q->buf = (char *)sim_dev(b); q->bytes = (size_t)n * tsize(t, "MPI_Recv_init"); q->tkind = t->kind; q->tag = tag; q->src = s; q->persistent = true; q->active = false; *r = q; return 0;
}
int MPI_Start(MPI_Request *r) {
    NoLib nl; enter("MPI_Start"); sim_yield("MPI_Start"); sim_req_s *q = *r; if (!q->persistent || q->active) FATAL("process %d: MPI_Start on a request that is not an inactive persistent one", S->cur);
    if (q->kind == RQ_SEND) start_send(q, q->src); else start_recv(q);
    M->active[S->cur].push_back(q); return 0;
}
int MPI_Startall(int n, MPI_Request *r) { for (int i = 0; i < n; i++) MPI_Start(&r[i]); return 0; }
int MPI_Request_free(MPI_Request *r) {
    NoLib nl; enter("MPI_Request_free"); sim_req_s *q = *r; if (q == MPI_REQUEST_NULL || q->freed) FATAL("process %d: MPI_Request_free on a null request", S->cur);
    q->wasfree = true; q->freed = true; auto &a = M->active[q->owner]; a.erase(std::remove(a.begin(), a.end(), q), a.end()); *r = MPI_REQUEST_NULL; return 0;
}
int MPI_Cancel(MPI_Request *r) {
    NoLib nl; enter("MPI_Cancel"); sim_req_s *q = getreq(*r, "MPI_Cancel"); if (!q) return 0;
    if (q->kind == RQ_RECV) { auto &po = M->posted[S->cur]; for (size_t i = 0; i < po.size(); i++) if (po[i] == q) { po.erase(po.begin() + i); if (q->bytes) memcpy(q->buf, q->saved.data(), q->bytes); q->complete = true; q->st.sim_cancelled = 1; break; } }
    return 0;
}
int MPI_Test_cancelled(const MPI_Status *st, int *f) { *f = st->sim_cancelled; return 0; }
int MPI_Get_count(const MPI_Status *st, MPI_Datatype t, int *n) { size_t z = (size_t)t->size; *n = st->sim_bytes % z ? MPI_UNDEFINED : (int)(st->sim_bytes / z); return 0; }
int MPI_Get_elements(const MPI_Status *st, MPI_Datatype t, int *n) { return MPI_Get_count(st, t, n); }
struct ProbeArg { sim_comm_s *c; int s, tag; Msg *found; };
static bool probe_pred(void *p) {
    ProbeArg *a = (ProbeArg *)p; a->found = nullptr;
    for (auto *m : M->unexpected[a->c->owner]) if (m->sh == a->c->sh && (a->s == MPI_ANY_SOURCE || a->c->sh->members[a->s] == m->src) && (a->tag == MPI_ANY_TAG || a->tag == m->tag)) { a->found = m; return true; }
    return false;
}
int MPI_Probe(int s, int tag, MPI_Comm c, MPI_Status *st) {
    NoLib nl; enter("MPI_Probe"); sim_yield("MPI_Probe"); ProbeArg a{comm(c, "MPI_Probe"), s, tag, nullptr}; sim_block("MPI_Probe", probe_pred, &a); probe_pred(&a);
    if (st) { st->MPI_SOURCE = a.c->sh->rank_of(a.found->src); st->MPI_TAG = a.found->tag; st->MPI_ERROR = 0; st->sim_bytes = a.found->bytes; st->sim_cancelled = 0; } return 0;
}
int MPI_Iprobe(int s, int tag, MPI_Comm c, int *flag, MPI_Status *st) {
    NoLib nl; enter("MPI_Iprobe"); sim_yield("MPI_Iprobe"); ProbeArg a{comm(c, "MPI_Iprobe"), s, tag, nullptr}; *flag = probe_pred(&a);
    if (*flag && st) { st->MPI_SOURCE = a.c->sh->rank_of(a.found->src); st->MPI_TAG = a.found->tag; st->MPI_ERROR = 0; st->sim_bytes = a.found->bytes; st->sim_cancelled = 0; } return 0;
}
int MPI_Wait(MPI_Request *r, MPI_Status *st) {
    NoLib nl; enter("MPI_Wait"); sim_yield("MPI_Wait"); sim_req_s *q = getreq(*r, "MPI_Wait"); if (!q) { put_status(st, nullptr); return 0; }
    std::vector<sim_req_s *> v{q}; sim_block("MPI_Wait", all_ready, &v); complete_handle(r, st); return 0;
}
static std::vector<sim_req_s *> reqs(int n, MPI_Request *r, const char *call) { std::vector<sim_req_s *> v; for (int i = 0; i < n; i++) v.push_back(getreq(r[i], call)); return v; }
int MPI_Waitall(int n, MPI_Request *r, MPI_Status *st) {
    NoLib nl; enter("MPI_Waitall", (uint64_t)n); check_count(n, "MPI_Waitall"); sim_yield("MPI_Waitall"); auto v = reqs(n, r, "MPI_Waitall"); sim_block("MPI_Waitall", all_ready, &v);
    for (int i = 0; i < n; i++) if (v[i]) complete_handle(&r[i], st ? &st[i] : nullptr); else if (st) put_status(&st[i], nullptr);
    return 0;
}
static int choose_ready(std::vector<sim_req_s *> &v, std::vector<int> &ready) {
    ready.clear(); for (size_t i = 0; i < v.size(); i++) if (v[i] && req_ready(v[i])) ready.push_back((int)i);
    if (ready.size() > 1) R->probes[PR_WAITANY_CHOICE]++;
    return ready[decide(D_WAITANY, (int)ready.size(), (int)S->sched.below(ready.size()))];
}
int MPI_Waitany(int n, MPI_Request *r, int *idx, MPI_Status *st) {
    NoLib nl; enter("MPI_Waitany", (uint64_t)n); check_count(n, "MPI_Waitany"); sim_yield("MPI_Waitany"); auto v = reqs(n, r, "MPI_Waitany"); bool some = false; for (auto *q : v) if (q) some = true;
    if (!some) { *idx = MPI_UNDEFINED; put_status(st, nullptr); return 0; }
    sim_block("MPI_Waitany", any_ready, &v); std::vector<int> ready; int k = choose_ready(v, ready); *idx = k; complete_handle(&r[k], st); return 0;
}
int MPI_Waitsome(int n, MPI_Request *r, int *cnt, int *idx, MPI_Status *st) {
    NoLib nl; enter("MPI_Waitsome", (uint64_t)n); sim_yield("MPI_Waitsome"); auto v = reqs(n, r, "MPI_Waitsome"); bool some = false; for (auto *q : v) if (q) some = true;
    if (!some) { *cnt = MPI_UNDEFINED; return 0; }
    sim_block("MPI_Waitsome", any_ready, &v); *cnt = 0;
    for (int i = 0; i < n; i++) if (v[i] && req_ready(v[i]) && (*cnt == 0 || decide(D_WAITANY, 2, (int)S->sched.below(2)) == 0)) { complete_handle(&r[i], st ? &st[*cnt] : nullptr); idx[(*cnt)++] = i; }
    return 0;
}
int MPI_Test(MPI_Request *r, int *f, MPI_Status *st) {
    NoLib nl; enter("MPI_Test"); sim_yield("MPI_Test"); sim_req_s *q = getreq(*r, "MPI_Test"); *f = 1; if (!q) { put_status(st, nullptr); return 0; }
    if (req_ready(q)) complete_handle(r, st); else *f = 0; return 0;
}
int MPI_Testall(int n, MPI_Request *r, int *f, MPI_Status *st) {
    NoLib nl; enter("MPI_Testall"); sim_yield("MPI_Testall"); auto v = reqs(n, r, "MPI_Testall"); *f = all_ready(&v);
    if (*f) for (int i = 0; i < n; i++) if (v[i]) complete_handle(&r[i], st ? &st[i] : nullptr);
    return 0;
}
int MPI_Testany(int n, MPI_Request *r, int *idx, int *f, MPI_Status *st) {
    NoLib nl; enter("MPI_Testany"); sim_yield("MPI_Testany"); auto v = reqs(n, r, "MPI_Testany"); bool some = false; for (auto *q : v) if (q) some = true;
    if (!some) { *idx = MPI_UNDEFINED; *f = 1; put_status(st, nullptr); return 0; }
    if (!any_ready(&v)) { *f = 0; *idx = MPI_UNDEFINED; return 0; }
    std::vector<int> ready; int k = choose_ready(v, ready); *idx = k; *f = 1; complete_handle(&r[k], st); return 0;
}
int MPI_Testsome(int n, MPI_Request *r, int *cnt, int *idx, MPI_Status *st) {
    NoLib nl; enter("MPI_Testsome"); sim_yield("MPI_Testsome"); auto v = reqs(n, r, "MPI_Testsome"); bool some = false; for (auto *q : v) if (q) some = true;
    if (!some) { *cnt = MPI_UNDEFINED; return 0; }
    *cnt = 0; for (int i = 0; i < n; i++) if (v[i] && req_ready(v[i])) { complete_handle(&r[i], st ? &st[*cnt] : nullptr); idx[(*cnt)++] = i; }
    return 0;
}
}

// ---- collectives ------------------------------------------------------------------
static bool needs(Coll *c, int r, int s) { // does member r need member s to have arrived before it may go on?
    Slot const &a = c->s[r]; std::string const &k = c->kind;
    if (r == s) return false;
    if (k == "MPI_Bcast" || k == "MPI_Scatter" || k == "MPI_Scatterv") return s == a.root;
    if (k == "MPI_Gather" || k == "MPI_Gatherv" || k == "MPI_Reduce") return r == a.root;
    if (k == "MPI_Alltoall" || k == "MPI_Alltoallv" || k == "MPI_Alltoallw" || k == "MPI_Allgather" || k == "MPI_Allgatherv") return a.need[s] > 0;
    if (k == "MPI_Scan" || k == "MPI_Exscan") return s < r;
    if (k == "MPI_Comm_free") return false;
    return true;
}
static bool coll_ready(Coll *c, int r) {
    if (c->sync) return c->arrived == (int)c->s.size();
    for (size_t s = 0; s < c->s.size(); s++) if (!c->s[s].arrived && needs(c, r, (int)s)) return false;
    return true;
}
struct CollArg { Coll *c; int r; };
static bool coll_pred(void *p) { CollArg *a = (CollArg *)p; return coll_ready(a->c, a->r); }

static Coll *coll_arrive(sim_comm_s *cm, Slot &&sl, const char *kind) {
    CommShared *sh = cm->sh; int r = cm->myrank; uint64_t seq = sh->next[r]++;
    while (sh->base + sh->colls.size() <= seq) { Coll *c = new Coll; c->sh = sh; c->seq = sh->base + sh->colls.size(); c->s.resize(sh->members.size()); sh->colls.push_back(c); }
    Coll *c = sh->colls[seq - sh->base]; Fiber &f = me();
    sl.arrived = true; sl.lib = f.libdepth > 0; sl.op = f.op; sl.kind = kind;
    if (c->arrived == 0) { c->kind = kind; R->colls++; c->sync = decide(D_COLL, 2, S->sched.chance(S->sc.f.collsync)); R->probes[c->sync ? PR_COLL_SYNC : PR_COLL_EARLY]++; }
    else {
        for (size_t i = 0; i < c->s.size(); i++) if (c->s[i].arrived) {
            Slot const &o = c->s[i];
            if (o.kind != kind && !S->sc.f.strict) for (int w : sh->members) if (S->fib[w].alloc_failed || S->fib[w].stopped) sim_abandon("a failed process is taking its plan down"); // legal end of the job
            if (o.kind != kind) FATAL("collective mismatch on a communicator of %zu: process %d calls %s where process %d called %s", c->s.size(), S->cur, kind, sh->members[i], o.kind.c_str());
            if (o.root != sl.root) FATAL("collective mismatch: process %d calls %s with root %d, process %d with root %d", S->cur, kind, sl.root, sh->members[i], o.root);
            if (o.opk != sl.opk) FATAL("collective mismatch: %s with different reduction operations", kind);
            if (o.lib != sl.lib) sim_violation(C_ISOLATION, "a collective (%s) of the library was matched with one of the user program (process %d, process %d)", kind, S->cur, sh->members[i]);
            else if (o.op != sl.op) sim_violation(C_ISOLATION, "%s of operation %d was matched with %s of operation %d (process %d, process %d)", kind, sl.op, kind, o.op, S->cur, sh->members[i]);
            break;
        }
    }
    // sizes that both sides know
    for (size_t i = 0; i < c->s.size(); i++) if (c->s[i].arrived || (int)i == r) {
        Slot const &o = (int)i == r ? sl : c->s[i];
        if (sl.need.size() && o.len.size() && o.len.size() > (size_t)r && sl.need.size() > i && sl.need[i] != o.len[r] && (o.len[r] || sl.need[i])) {
            if (strcmp(kind, "MPI_Bcast") || (int)i == sl.root)
            FATAL("%s: process %d sends %zu bytes to process %d, which expects %zu", kind, sh->members[i], o.len[r], S->cur, sl.need[i]); }
        if (o.need.size() && sl.len.size() > i && o.need.size() > (size_t)r && o.need[r] != sl.len[i] && (sl.len[i] || o.need[r])) {
            if (strcmp(kind, "MPI_Bcast") || r == sl.root)
            FATAL("%s: process %d sends %zu bytes to process %d, which expects %zu", kind, S->cur, sl.len[i], sh->members[i], o.need[r]); }
    }
    c->s[r] = std::move(sl); c->arrived++;
    return c;
}
static void coll_leave(Coll *c, int r) {
    c->s[r].left = true; c->left++;
    CommShared *sh = c->sh;
    while (!sh->colls.empty() && sh->colls.front()->left == (int)sh->colls.front()->s.size()) { delete sh->colls.front(); sh->colls.pop_front(); sh->base++; }
}
static const char *piece(Coll *c, int s, int r) { Slot &a = c->s[s]; return a.data.data() + a.off[r]; }

struct Seg { const char *p; size_t n; };
static void check_alias(std::vector<Seg> const &snd, std::vector<Seg> const &rcv, const char *call) {
    for (size_t i = 0; i < rcv.size(); i++) if (rcv[i].n) {
        for (auto &s : snd) if (s.n && s.p < rcv[i].p + rcv[i].n && rcv[i].p < s.p + s.n) { sim_violation(C_COMM, "process %d: %s with overlapping send and receive buffers (operation %d)", S->cur, call, me().op); return; }
        for (size_t j = 0; j < i; j++) if (rcv[j].n && rcv[j].p < rcv[i].p + rcv[i].n && rcv[i].p < rcv[j].p + rcv[j].n) { sim_violation(C_COMM, "process %d: %s with receive blocks that overlap (operation %d)", S->cur, call, me().op); return; }
    }
    for (auto &s : snd) check_overlap(s.p, s.n, false, call);
    for (auto &s : rcv) check_overlap(s.p, s.n, true, call);
}
// general data movement: every member sends a (possibly shared) piece to every member
struct Move { std::vector<Seg> snd; std::vector<Seg> rcv; bool inplace = false; };
static Slot make_slot(Move const &m, size_t n) {
    Slot s; s.off.assign(n, 0); s.len.assign(n, 0); s.need.assign(n, 0);
    for (size_t i = 0; i < m.snd.size() && i < n; i++) {
        s.len[i] = m.snd[i].n;
        if (i > 0 && m.snd[i].p == m.snd[i-1].p && m.snd[i].n == m.snd[i-1].n) { s.off[i] = s.off[i-1]; continue; }
        s.off[i] = s.data.size(); if (m.snd[i].n) s.data.insert(s.data.end(), m.snd[i].p, m.snd[i].p + m.snd[i].n);
    }
    for (size_t i = 0; i < m.rcv.size() && i < n; i++) s.need[i] = m.rcv[i].n;
    return s;
}
static int run_move(sim_comm_s *cm, Move &m, const char *kind, int root = -1) {
    enter(kind); sim_yield(kind);
    size_t n = cm->sh->members.size();
    if (!m.inplace) check_alias(m.snd, m.rcv, kind);
    Slot sl = make_slot(m, n); sl.root = root;
    Coll *c = coll_arrive(cm, std::move(sl), kind); CollArg a{c, cm->myrank};
    sim_block(kind, coll_pred, &a);
    for (size_t s = 0; s < n && s < m.rcv.size(); s++) if (m.rcv[s].n && c->s[s].len.size()) {
        if (c->s[s].len[cm->myrank] != m.rcv[s].n) continue; // reported at arrival
        memcpy((char *)m.rcv[s].p, piece(c, (int)s, cm->myrank), m.rcv[s].n); S->log = fnv(S->log, m.rcv[s].p, m.rcv[s].n);
    }
    coll_leave(c, cm->myrank); return 0;
}
#define CB(p) ((const char *)sim_dev(p))
extern "C" {
int MPI_Barrier(MPI_Comm c) { NoLib nl; Move m; return run_move(comm(c, "MPI_Barrier"), m, "MPI_Barrier"); }
int MPI_Bcast(void *b, int n, MPI_Datatype t, int root, MPI_Comm c) {
    NoLib nl; check_count(n, "MPI_Bcast"); sim_comm_s *cm = comm(c, "MPI_Bcast"); size_t z = (size_t)n * tsize(t, "MPI_Bcast"), p = cm->sh->members.size(); Move m; m.inplace = true;
    if (cm->myrank == root) { m.snd.assign(p, Seg{CB(b), z}); m.snd[root].n = 0; } else { m.rcv.assign(p, Seg{nullptr, 0}); m.rcv[root] = Seg{CB(b), z}; }
    return run_move(cm, m, "MPI_Bcast", root);
}
int MPI_Allgather(const void *sb, int sn, MPI_Datatype stp, void *rb, int rn, MPI_Datatype rt, MPI_Comm c) {
    NoLib nl; check_count(rn, "MPI_Allgather"); sim_comm_s *cm = comm(c, "MPI_Allgather"); size_t p = cm->sh->members.size(), rz = (size_t)rn * tsize(rt, "MPI_Allgather"); Move m;
    std::vector<char> own;
    if (sb == MPI_IN_PLACE) { m.inplace = true; own.assign(CB(rb) + rz * cm->myrank, CB(rb) + rz * (cm->myrank + 1)); m.snd.assign(p, Seg{own.data(), rz}); }
    else { check_count(sn, "MPI_Allgather"); m.snd.assign(p, Seg{CB(sb), (size_t)sn * tsize(stp, "MPI_Allgather")}); }
    for (size_t i = 0; i < p; i++) m.rcv.push_back(Seg{CB(rb) + rz * i, rz});
    return run_move(cm, m, "MPI_Allgather");
}
int MPI_Allgatherv(const void *sb, int sn, MPI_Datatype stp, void *rb, const int *rn, const int *rd, MPI_Datatype rt, MPI_Comm c) {
    NoLib nl; sim_comm_s *cm = comm(c, "MPI_Allgatherv"); size_t p = cm->sh->members.size(), e = tsize(rt, "MPI_Allgatherv"); Move m; std::vector<char> own;
    if (sb == MPI_IN_PLACE) { m.inplace = true; const char *q = CB(rb) + e * (size_t)rd[cm->myrank]; own.assign(q, q + e * (size_t)rn[cm->myrank]); m.snd.assign(p, Seg{own.data(), own.size()}); }
    else m.snd.assign(p, Seg{CB(sb), (size_t)sn * tsize(stp, "MPI_Allgatherv")});
    for (size_t i = 0; i < p; i++) { check_count(rn[i], "MPI_Allgatherv"); m.rcv.push_back(Seg{CB(rb) + (ptrdiff_t)e * rd[i], e * (size_t)rn[i]}); }
    return run_move(cm, m, "MPI_Allgatherv");
}
static int gather_like(const void *sb, size_t sz, void *rb, const int *rn, const int *rd, size_t e, int same, int root, sim_comm_s *cm, const char *kind) {
    size_t p = cm->sh->members.size(); Move m; m.inplace = true; m.snd.assign(p, Seg{nullptr, 0}); bool ip = sb == MPI_IN_PLACE;
    if (!ip) m.snd[root] = Seg{CB(sb), sz};
    if (cm->myrank == root) for (size_t i = 0; i < p; i++) { size_t z = rn ? (size_t)rn[i] * e : (size_t)same * e; ptrdiff_t d = rd ? (ptrdiff_t)e * rd[i] : (ptrdiff_t)(z * i); if (ip && (int)i == root) z = 0; m.rcv.push_back(Seg{CB(rb) + d, z}); }
    return run_move(cm, m, kind, root);
}
int MPI_Gather(const void *sb, int sn, MPI_Datatype stp, void *rb, int rn, MPI_Datatype rt, int root, MPI_Comm c) {
    NoLib nl; sim_comm_s *cm = comm(c, "MPI_Gather"); bool r = cm->myrank == root; return gather_like(sb, sb == MPI_IN_PLACE ? 0 : (size_t)sn * tsize(stp, "MPI_Gather"), rb, nullptr, nullptr, r ? tsize(rt, "MPI_Gather") : 1, r ? rn : 0, root, cm, "MPI_Gather");
}
int MPI_Gatherv(const void *sb, int sn, MPI_Datatype stp, void *rb, const int *rn, const int *rd, MPI_Datatype rt, int root, MPI_Comm c) {
    NoLib nl; sim_comm_s *cm = comm(c, "MPI_Gatherv"); bool r = cm->myrank == root; return gather_like(sb, sb == MPI_IN_PLACE ? 0 : (size_t)sn * tsize(stp, "MPI_Gatherv"), rb, rn, rd, r ? tsize(rt, "MPI_Gatherv") : 1, 0, root, cm, "MPI_Gatherv");
}
static int scatter_like(const void *sb, const int *sn, const int *sd, size_t e, int same, void *rb, size_t rz, int root, sim_comm_s *cm, const char *kind) {
    size_t p = cm->sh->members.size(); Move m; m.inplace = true; bool ip = rb == MPI_IN_PLACE; m.rcv.assign(p, Seg{nullptr, 0}); if (!ip) m.rcv[root] = Seg{CB(rb), rz};
    if (cm->myrank == root) for (size_t i = 0; i < p; i++) { size_t z = sn ? (size_t)sn[i] * e : (size_t)same * e; ptrdiff_t d = sd ? (ptrdiff_t)e * sd[i] : (ptrdiff_t)(z * i); if (ip && (int)i == root) z = 0; m.snd.push_back(Seg{CB(sb) + d, z}); }
    return run_move(cm, m, kind, root);
}
int MPI_Scatter(const void *sb, int sn, MPI_Datatype stp, void *rb, int rn, MPI_Datatype rt, int root, MPI_Comm c) {
    NoLib nl; sim_comm_s *cm = comm(c, "MPI_Scatter"); bool r = cm->myrank == root; return scatter_like(sb, nullptr, nullptr, r ? tsize(stp, "MPI_Scatter") : 1, r ? sn : 0, rb, rb == MPI_IN_PLACE ? 0 : (size_t)rn * tsize(rt, "MPI_Scatter"), root, cm, "MPI_Scatter");
}
int MPI_Scatterv(const void *sb, const int *sn, const int *sd, MPI_Datatype stp, void *rb, int rn, MPI_Datatype rt, int root, MPI_Comm c) {
    NoLib nl; sim_comm_s *cm = comm(c, "MPI_Scatterv"); bool r = cm->myrank == root; return scatter_like(sb, sn, sd, r ? tsize(stp, "MPI_Scatterv") : 1, 0, rb, rb == MPI_IN_PLACE ? 0 : (size_t)rn * tsize(rt, "MPI_Scatterv"), root, cm, "MPI_Scatterv");
}
int MPI_Alltoall(const void *sb, int sn, MPI_Datatype stp, void *rb, int rn, MPI_Datatype rt, MPI_Comm c) {
    NoLib nl; sim_comm_s *cm = comm(c, "MPI_Alltoall"); size_t p = cm->sh->members.size(); check_count(rn, "MPI_Alltoall"); size_t rz = (size_t)rn * tsize(rt, "MPI_Alltoall"); Move m; std::vector<char> own; R->probes[PR_A2A]++;
    if (sb == MPI_IN_PLACE) { m.inplace = true; own.assign(CB(rb), CB(rb) + rz * p); for (size_t i = 0; i < p; i++) m.snd.push_back(Seg{own.data() + rz * i, rz}); }
    else { check_count(sn, "MPI_Alltoall"); size_t sz = (size_t)sn * tsize(stp, "MPI_Alltoall"); for (size_t i = 0; i < p; i++) m.snd.push_back(Seg{CB(sb) + sz * i, sz}); }
    for (size_t i = 0; i < p; i++) m.rcv.push_back(Seg{CB(rb) + rz * i, rz});
    return run_move(cm, m, "MPI_Alltoall");
}
int MPI_Alltoallv(const void *sb, const int *sn, const int *sd, MPI_Datatype stp, void *rb, const int *rn, const int *rd, MPI_Datatype rt, MPI_Comm c) {
    NoLib nl; sim_comm_s *cm = comm(c, "MPI_Alltoallv"); size_t p = cm->sh->members.size(), re = tsize(rt, "MPI_Alltoallv"); Move m; std::vector<std::vector<char>> own; R->probes[PR_A2AV]++;
    if (sb == MPI_IN_PLACE) { m.inplace = true; own.resize(p); for (size_t i = 0; i < p; i++) { const char *q = CB(rb) + (ptrdiff_t)re * rd[i]; own[i].assign(q, q + re * (size_t)rn[i]); m.snd.push_back(Seg{own[i].data(), own[i].size()}); } }
    else { size_t se = tsize(stp, "MPI_Alltoallv"); if (stp->kind != rt->kind && stp->kind && rt->kind) sim_violation(C_COMM, "process %d: MPI_Alltoallv with different datatypes", S->cur);
        for (size_t i = 0; i < p; i++) { check_count(sn[i], "MPI_Alltoallv"); m.snd.push_back(Seg{CB(sb) + (ptrdiff_t)se * sd[i], se * (size_t)sn[i]}); } }
    for (size_t i = 0; i < p; i++) { check_count(rn[i], "MPI_Alltoallv"); m.rcv.push_back(Seg{CB(rb) + (ptrdiff_t)re * rd[i], re * (size_t)rn[i]}); }
    return run_move(cm, m, "MPI_Alltoallv");
}
int MPI_Alltoallw(const void *sb, const int *sn, const int *sd, const MPI_Datatype *st, void *rb, const int *rn, const int *rd, const MPI_Datatype *rt, MPI_Comm c) {
    NoLib nl; sim_comm_s *cm = comm(c, "MPI_Alltoallw"); size_t p = cm->sh->members.size(); Move m;
    for (size_t i = 0; i < p; i++) { m.snd.push_back(Seg{CB(sb) + sd[i], tsize(st[i], "MPI_Alltoallw") * (size_t)sn[i]}); m.rcv.push_back(Seg{CB(rb) + rd[i], tsize(rt[i], "MPI_Alltoallw") * (size_t)rn[i]}); }
    return run_move(cm, m, "MPI_Alltoallw");
}
}
template<typename T> static void fold(T *a, const T *b, size_t n, int op) {
    for (size_t i = 0; i < n; i++) switch (op) {
        case 0: if (b[i] > a[i]) a[i] = b[i]; break;
        case 1: if (b[i] < a[i]) a[i] = b[i]; break;
        case 2: a[i] = (T)(a[i] + b[i]); break;
        case 3: a[i] = (T)(a[i] * b[i]); break;
        case 4: a[i] = (T)(a[i] && b[i]); break;
        case 5: a[i] = (T)(a[i] || b[i]); break;
        case 6: a[i] = (T)((long long)a[i] & (long long)b[i]); break;
        case 7: a[i] = (T)((long long)a[i] | (long long)b[i]); break;
        case 8: a[i] = (T)(!a[i] != !b[i]); break;
        default: a[i] = (T)((long long)a[i] ^ (long long)b[i]); break;
    }
}
static void fold_kind(char *a, const char *b, size_t n, int kind, int op) {
    switch (kind) {
    case K_BYTE: case K_UCHAR: case K_BOOL: fold((unsigned char *)a, (const unsigned char *)b, n, op); break;
    case K_CHAR: case K_SCHAR: fold((signed char *)a, (const signed char *)b, n, op); break;
    case K_SHORT: fold((short *)a, (const short *)b, n, op); break;
    case K_USHORT: fold((unsigned short *)a, (const unsigned short *)b, n, op); break;
    case K_INT: fold((int *)a, (const int *)b, n, op); break;
    case K_UINT: fold((unsigned *)a, (const unsigned *)b, n, op); break;
    case K_LONG: case K_LL: case K_I64: fold((long long *)a, (const long long *)b, n, op); break;
    case K_ULONG: case K_ULL: case K_U64: fold((unsigned long long *)a, (const unsigned long long *)b, n, op); break;
    case K_FLOAT: fold((float *)a, (const float *)b, n, op); break;
    case K_DOUBLE: fold((double *)a, (const double *)b, n, op); break;
    case K_LD: fold((long double *)a, (const long double *)b, n, op); break;
    case K_CF: if (op == 2) fold((float *)a, (const float *)b, 2 * n, 2); else FATAL("unsupported reduction"); break;
    case K_CD: if (op == 2) fold((double *)a, (const double *)b, 2 * n, 2); else FATAL("unsupported reduction"); break;
    }
}
static int reduce_like(const void *sb, void *rb, int n, MPI_Datatype t, MPI_Op op, int root, MPI_Comm c, const char *kind) {
    NoLib nl; check_count(n, kind); sim_comm_s *cm = comm(c, kind); size_t p = cm->sh->members.size(), z = (size_t)n * tsize(t, kind); enter(kind, (uint64_t)n); sim_yield(kind);
    const char *src = sb == MPI_IN_PLACE ? CB(rb) : CB(sb);
    bool gets = root < 0 || cm->myrank == root; if (gets && sb != MPI_IN_PLACE) check_alias({Seg{src, z}}, {Seg{CB(rb), z}}, kind);
    Slot sl; sl.root = root; sl.opk = op->kind; sl.data.assign(src, src + z); sl.off.assign(p, 0); sl.len.assign(p, z); sl.need.assign(p, z);
    Coll *co = coll_arrive(cm, std::move(sl), kind); CollArg a{co, cm->myrank}; sim_block(kind, coll_pred, &a);
    if (gets) {
        int lo = 0, hi = (int)p - 1; std::string k = kind; if (k == "MPI_Scan") hi = cm->myrank; if (k == "MPI_Exscan") hi = cm->myrank - 1;
        if (hi >= lo) { std::vector<char> acc(co->s[lo].data); for (int s = lo + 1; s <= hi; s++) fold_kind(acc.data(), co->s[s].data.data(), (size_t)n, t->kind, op->kind);
            if (z) memcpy(rb, acc.data(), z); }
    }
    coll_leave(co, cm->myrank); return 0;
}
extern "C" {
int MPI_Reduce(const void *sb, void *rb, int n, MPI_Datatype t, MPI_Op op, int root, MPI_Comm c) { return reduce_like(sb, rb, n, t, op, root, c, "MPI_Reduce"); }
int MPI_Allreduce(const void *sb, void *rb, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c) { return reduce_like(sb, rb, n, t, op, -1, c, "MPI_Allreduce"); }
int MPI_Scan(const void *sb, void *rb, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c) { return reduce_like(sb, rb, n, t, op, -1, c, "MPI_Scan"); }
int MPI_Exscan(const void *sb, void *rb, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c) { return reduce_like(sb, rb, n, t, op, -1, c, "MPI_Exscan"); }
int MPI_Reduce_scatter_block(const void *sb, void *rb, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c) {
    int p, r; MPI_Comm_size(c, &p); MPI_Comm_rank(c, &r); std::vector<char> tmp; { NoLib nl; tmp.resize((size_t)n * p * t->size); }
    reduce_like(sb == MPI_IN_PLACE ? rb : sb, tmp.data(), n * p, t, op, -1, c, "MPI_Reduce_scatter_block"); memcpy(rb, tmp.data() + (size_t)n * r * t->size, (size_t)n * t->size); { NoLib nl; std::vector<char>().swap(tmp); } return 0;
}
}
// non-blocking collectives: the request carries the collective, the data moves at completion
struct Ncoll { Move m; uint64_t sum; };
static std::map<sim_req_s *, Ncoll> *ncolls = nullptr;
static int start_move(sim_comm_s *cm, Move &m, const char *kind, int root, MPI_Request *r) {
    enter(kind); sim_yield(kind); if (!m.inplace) check_alias(m.snd, m.rcv, kind);
    Slot sl = make_slot(m, cm->sh->members.size()); sl.root = root; sim_req_s *q = mkreq(RQ_COLL, cm, kind);
    uint64_t sum = 0; for (auto &s : m.snd) sum ^= sum_of(s.p, s.n);
    q->coll = coll_arrive(cm, std::move(sl), kind); q->src = cm->myrank; if (!ncolls) ncolls = new std::map<sim_req_s *, Ncoll>; (*ncolls)[q] = Ncoll{m, sum};
    M->active[S->cur].push_back(q); *r = q; return 0;
}
static void coll_deliver(sim_req_s *q) {
    Ncoll &n = (*ncolls)[q]; int me_ = q->src; Coll *c = q->coll; uint64_t sum = 0; for (auto &s : n.m.snd) sum ^= sum_of(s.p, s.n);
    if (!n.m.inplace && sum != n.sum) sim_violation(C_COMM, "process %d changed the send buffer of a pending %s (operation %d)", q->owner, q->call, q->op);
    for (size_t s = 0; s < n.m.rcv.size(); s++) if (n.m.rcv[s].n && c->s[s].len[me_] == n.m.rcv[s].n) memcpy((char *)n.m.rcv[s].p, piece(c, (int)s, me_), n.m.rcv[s].n);
    q->complete = true; coll_leave(c, me_); ncolls->erase(q);
}
extern "C" {
int MPI_Ibarrier(MPI_Comm c, MPI_Request *r) { NoLib nl; Move m; return start_move(comm(c, "MPI_Ibarrier"), m, "MPI_Ibarrier", -1, r); }
int MPI_Ibcast(void *b, int n, MPI_Datatype t, int root, MPI_Comm c, MPI_Request *r) {
    NoLib nl; sim_comm_s *cm = comm(c, "MPI_Ibcast"); size_t z = (size_t)n * tsize(t, "MPI_Ibcast"), p = cm->sh->members.size(); Move m; m.inplace = true;
    if (cm->myrank == root) { m.snd.assign(p, Seg{CB(b), z}); m.snd[root].n = 0; } else { m.rcv.assign(p, Seg{nullptr, 0}); m.rcv[root] = Seg{CB(b), z}; }
    return start_move(cm, m, "MPI_Bcast", root, r);
}
int MPI_Iallgather(const void *sb, int sn, MPI_Datatype st, void *rb, int rn, MPI_Datatype rt, MPI_Comm c, MPI_Request *r) {
    NoLib nl; sim_comm_s *cm = comm(c, "MPI_Iallgather"); size_t p = cm->sh->members.size(), rz = (size_t)rn * tsize(rt, ""); Move m; m.snd.assign(p, Seg{CB(sb), (size_t)sn * tsize(st, "")}); for (size_t i = 0; i < p; i++) m.rcv.push_back(Seg{CB(rb) + rz * i, rz});
    return start_move(cm, m, "MPI_Allgather", -1, r);
}
int MPI_Ialltoall(const void *sb, int sn, MPI_Datatype st, void *rb, int rn, MPI_Datatype rt, MPI_Comm c, MPI_Request *r) {
    NoLib nl; sim_comm_s *cm = comm(c, "MPI_Ialltoall"); size_t p = cm->sh->members.size(), rz = (size_t)rn * tsize(rt, ""), sz = (size_t)sn * tsize(st, ""); Move m; for (size_t i = 0; i < p; i++) { m.snd.push_back(Seg{CB(sb) + sz * i, sz}); m.rcv.push_back(Seg{CB(rb) + rz * i, rz}); }
    return start_move(cm, m, "MPI_Alltoall", -1, r);
}
int MPI_Ialltoallv(const void *sb, const int *sn, const int *sd, MPI_Datatype st, void *rb, const int *rn, const int *rd, MPI_Datatype rt, MPI_Comm c, MPI_Request *r) {
    NoLib nl; sim_comm_s *cm = comm(c, "MPI_Ialltoallv"); size_t p = cm->sh->members.size(); Move m;
    for (size_t i = 0; i < p; i++) { m.snd.push_back(Seg{CB(sb) + (ptrdiff_t)st->size * sd[i], (size_t)st->size * (size_t)sn[i]}); m.rcv.push_back(Seg{CB(rb) + (ptrdiff_t)rt->size * rd[i], (size_t)rt->size * (size_t)rn[i]}); }
    return start_move(cm, m, "MPI_Alltoallv", -1, r);
}
int MPI_Iallreduce(const void *sb, void *rb, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c, MPI_Request *r) { MPI_Allreduce(sb, rb, n, t, op, c); *r = MPI_REQUEST_NULL; return 0; }

// ---- communicators and groups -----------------------------------------------------
int MPI_Comm_rank(MPI_Comm c, int *r) { NoLib nl; *r = comm(c, "MPI_Comm_rank")->myrank; return 0; }
int MPI_Comm_size(MPI_Comm c, int *n) { NoLib nl; *n = (int)comm(c, "MPI_Comm_size")->sh->members.size(); return 0; }
static int make_comm(sim_comm_s *cm, Slot &&sl, const char *kind, MPI_Comm *out) {
    enter(kind); sim_yield(kind); *out = MPI_COMM_NULL; Coll *c = coll_arrive(cm, std::move(sl), kind);
    c->sync = 1; CollArg a{c, cm->myrank}; sim_block(kind, coll_pred, &a);
    Slot &mine = c->s[cm->myrank]; std::string k = kind;
    if (!mine.newcomm) { // the first to notice builds all the new communicators
        auto build = [&](std::vector<int> const &mem) { CommShared *sh = new_shared(mem, kind); sh->lib = mine.lib; sh->op = mine.op; for (size_t i = 0; i < c->s.size(); i++) if (std::find(mem.begin(), mem.end(), c->sh->members[i]) != mem.end()) c->s[i].newcomm = sh; };
        if (k == "MPI_Comm_dup") build(c->sh->members);
        else if (k == "MPI_Comm_create") {
            for (size_t i = 0; i < c->s.size(); i++) {
                if (c->s[i].newcomm) continue;
                std::vector<int> const &g = c->s[i].group; if (std::find(g.begin(), g.end(), c->sh->members[i]) == g.end()) continue;
                for (int w : g) { int q = c->sh->rank_of(w); if (q < 0) { FATAL("MPI_Comm_create: process %d names a member outside the communicator", c->sh->members[i]); continue; }
                    if (c->s[q].group != g) FATAL("MPI_Comm_create: process %d and process %d are in one group but pass different groups", c->sh->members[i], w); }
                build(g);
            }
        } else { // split
            std::set<int> cols; for (auto &s : c->s) if (s.color != MPI_UNDEFINED) cols.insert(s.color);
            for (int col : cols) { std::vector<std::pair<int, int>> v; for (size_t i = 0; i < c->s.size(); i++) if (c->s[i].color == col) v.push_back({c->s[i].key, (int)i}); std::stable_sort(v.begin(), v.end(), [](std::pair<int,int> const &a, std::pair<int,int> const &b) { return a.first < b.first; });
                std::vector<int> mem; for (auto &x : v) mem.push_back(c->sh->members[x.second]); build(mem); }
        }
    }
    if (mine.newcomm) *out = new_handle(mine.newcomm, S->cur, mine.lib, mine.op);
    coll_leave(c, cm->myrank); return 0;
}
int MPI_Comm_dup(MPI_Comm c, MPI_Comm *o) { NoLib nl; return make_comm(comm(c, "MPI_Comm_dup"), Slot(), "MPI_Comm_dup", o); }
int MPI_Comm_split(MPI_Comm c, int color, int key, MPI_Comm *o) { NoLib nl; Slot s; s.color = color; s.key = key; return make_comm(comm(c, "MPI_Comm_split"), std::move(s), "MPI_Comm_split", o); }
int MPI_Comm_split_type(MPI_Comm c, int, int key, MPI_Info, MPI_Comm *o) { return MPI_Comm_split(c, 0, key, o); }
int MPI_Comm_create(MPI_Comm c, MPI_Group g, MPI_Comm *o) { NoLib nl; Slot s; s.group = group(g, "MPI_Comm_create")->w; return make_comm(comm(c, "MPI_Comm_create"), std::move(s), "MPI_Comm_create", o); }
int MPI_Comm_create_group(MPI_Comm c, MPI_Group g, int tag, MPI_Comm *o) {
    NoLib nl; const char *kind = "MPI_Comm_create_group"; enter(kind); sim_comm_s *cm = comm(c, kind); std::vector<int> w = group(g, kind)->w; *o = MPI_COMM_NULL; sim_yield(kind);
    int pos = -1; for (size_t i = 0; i < w.size(); i++) if (w[i] == S->cur) pos = (int)i;
    if (pos < 0) return 0;
    auto key = std::make_pair(cm->sh->id * 1000 + tag, w); auto &v = M->cgroups[key]; Coll *co = nullptr;
    for (auto *x : v) if (!x->s[pos].arrived) { co = x; break; }
    if (!co) { co = new Coll; co->sh = cm->sh; co->kind = kind; co->s.resize(w.size()); co->sync = 1; v.push_back(co); }
    co->s[pos].arrived = true; co->arrived++; CollArg a{co, pos}; sim_block(kind, coll_pred, &a);
    if (!co->s[pos].newcomm) { CommShared *sh = new_shared(w, kind); sh->lib = me().libdepth > 0; sh->op = me().op; for (auto &s : co->s) s.newcomm = sh; }
    *o = new_handle(co->s[pos].newcomm, S->cur, me().libdepth > 0, me().op); return 0;
}
int MPI_Comm_free(MPI_Comm *c) {
    NoLib nl; const char *kind = "MPI_Comm_free"; if (*c == MPI_COMM_WORLD || *c == MPI_COMM_SELF) FATAL("process %d: MPI_Comm_free on a predefined communicator", S->cur);
    sim_comm_s *cm = comm(*c, kind); if (me().libdepth > 0 && !cm->lib) sim_violation(C_ISOLATION, "process %d: the library freed a communicator of the user", S->cur);
    enter(kind); sim_yield(kind); Coll *co = coll_arrive(cm, Slot(), kind); CollArg a{co, cm->myrank}; sim_block(kind, coll_pred, &a); coll_leave(co, cm->myrank);
    cm->freed = true; cm->sh->freed[cm->myrank] = 1; *c = MPI_COMM_NULL; return 0;
}
int MPI_Comm_group(MPI_Comm c, MPI_Group *g) { NoLib nl; *g = new_group(comm(c, "MPI_Comm_group")->sh->members); return 0; }
int MPI_Comm_compare(MPI_Comm a, MPI_Comm b, int *r) {
    NoLib nl; sim_comm_s *x = comm(a, "MPI_Comm_compare"), *y = comm(b, "MPI_Comm_compare"); if (x->sh == y->sh) *r = MPI_IDENT; else if (x->sh->members == y->sh->members) *r = MPI_CONGRUENT;
    else { auto p = x->sh->members, q = y->sh->members; std::sort(p.begin(), p.end()); std::sort(q.begin(), q.end()); *r = p == q ? MPI_SIMILAR : MPI_UNEQUAL; } return 0;
}
int MPI_Comm_set_errhandler(MPI_Comm, MPI_Errhandler) { return 0; }
int MPI_Comm_get_errhandler(MPI_Comm, MPI_Errhandler *e) { *e = MPI_ERRORS_ARE_FATAL; return 0; }
int MPI_Comm_test_inter(MPI_Comm, int *f) { *f = 0; return 0; }
MPI_Fint MPI_Comm_c2f(MPI_Comm c) { // 0 the world, 1 nothing, 2 oneself, 3... handles, with a gap so that they are not small numbers
    if (c == MPI_COMM_WORLD) return 0; if (c == MPI_COMM_NULL) return 1; if (c == MPI_COMM_SELF) return 2;
    for (size_t i = 0; i < M->handles.size(); i++) if (M->handles[i] == c) return (MPI_Fint)(1000003 + i * 17);
    FATAL("process %d: MPI_Comm_c2f on an invalid communicator", S->cur);
}
MPI_Comm MPI_Comm_f2c(MPI_Fint f) {
    if (f == 0) return MPI_COMM_WORLD; if (f == 1) return MPI_COMM_NULL; if (f == 2) return MPI_COMM_SELF;
    long long i = (long long)f - 1000003; if (i < 0 || i % 17 || i / 17 >= (long long)M->handles.size() || M->handles[i / 17]->owner != S->cur) FATAL("process %d: MPI_Comm_f2c on a number that is not a communicator of this process", S->cur);
    return M->handles[i / 17];
}
int MPI_Comm_set_name(MPI_Comm, const char *) { return 0; }
int MPI_Comm_get_name(MPI_Comm, char *n, int *l) { n[0] = 0; *l = 0; return 0; }
int MPI_Comm_get_attr(MPI_Comm, int key, void *v, int *f) { static int ub = 1 << 22; if (key == MPI_TAG_UB) { *(int **)v = &ub; *f = 1; } else *f = 0; return 0; }
int MPI_Group_incl(MPI_Group g, int n, const int *r, MPI_Group *o) {
    NoLib nl; check_count(n, "MPI_Group_incl"); sim_group_s *a = group(g, "MPI_Group_incl"); std::vector<int> w; for (int i = 0; i < n; i++) { if (r[i] < 0 || r[i] >= (int)a->w.size()) { FATAL("process %d: MPI_Group_incl with rank %d of a group of %zu", S->cur, r[i], a->w.size()); continue; } w.push_back(a->w[r[i]]); }
    for (size_t i = 0; i < w.size(); i++) for (size_t j = 0; j < i; j++) if (w[i] == w[j]) FATAL("process %d: MPI_Group_incl names one member twice", S->cur);
    if (n == 0) { *o = MPI_GROUP_EMPTY; return 0; }
    *o = new_group(w); return 0;
}
int MPI_Group_excl(MPI_Group g, int n, const int *r, MPI_Group *o) { NoLib nl; sim_group_s *a = group(g, "MPI_Group_excl"); std::vector<int> w; for (size_t i = 0; i < a->w.size(); i++) { bool x = false; for (int k = 0; k < n; k++) if (r[k] == (int)i) x = true; if (!x) w.push_back(a->w[i]); } *o = new_group(w); return 0; }
int MPI_Group_free(MPI_Group *g) {
    NoLib nl; if (*g == MPI_GROUP_EMPTY) { *g = MPI_GROUP_NULL; return 0; }
    sim_group_s *a = group(*g, "MPI_Group_free"); a->freed = true; *g = MPI_GROUP_NULL; return 0;
}
int MPI_Group_size(MPI_Group g, int *n) { NoLib nl; *n = (int)group(g, "MPI_Group_size")->w.size(); return 0; }
int MPI_Group_rank(MPI_Group g, int *r) { NoLib nl; *r = MPI_UNDEFINED; auto *a = group(g, "MPI_Group_rank"); for (size_t i = 0; i < a->w.size(); i++) if (a->w[i] == S->cur) *r = (int)i; return 0; }
int MPI_Group_translate_ranks(MPI_Group g, int n, const int *a, MPI_Group h, int *b) { NoLib nl; std::vector<int> x = group(g, "MPI_Group_translate_ranks")->w, y = group(h, "MPI_Group_translate_ranks")->w; for (int i = 0; i < n; i++) { b[i] = MPI_UNDEFINED; for (size_t k = 0; k < y.size(); k++) if (y[k] == x[a[i]]) b[i] = (int)k; } return 0; }
int MPI_Group_union(MPI_Group g, MPI_Group h, MPI_Group *o) { NoLib nl; std::vector<int> x = group(g, "u")->w; for (int w : group(h, "u")->w) if (std::find(x.begin(), x.end(), w) == x.end()) x.push_back(w); *o = new_group(x); return 0; }
int MPI_Group_intersection(MPI_Group g, MPI_Group h, MPI_Group *o) { NoLib nl; std::vector<int> y = group(h, "i")->w, r; for (int w : group(g, "i")->w) if (std::find(y.begin(), y.end(), w) != y.end()) r.push_back(w); *o = new_group(r); return 0; }
int MPI_Group_difference(MPI_Group g, MPI_Group h, MPI_Group *o) { NoLib nl; std::vector<int> y = group(h, "d")->w, r; for (int w : group(g, "d")->w) if (std::find(y.begin(), y.end(), w) == y.end()) r.push_back(w); *o = new_group(r); return 0; }
int MPI_Group_compare(MPI_Group g, MPI_Group h, int *r) { NoLib nl; std::vector<int> x = group(g, "c")->w, y = group(h, "c")->w; if (x == y) *r = MPI_IDENT; else { std::sort(x.begin(), x.end()); std::sort(y.begin(), y.end()); *r = x == y ? MPI_SIMILAR : MPI_UNEQUAL; } return 0; }

// ---- the rest ---------------------------------------------------------------------
int MPI_Init(int *, char ***) { return 0; }
int MPI_Init_thread(int *, char ***, int r, int *p) { *p = r; return 0; }
int MPI_Initialized(int *f) { *f = 1; return 0; }
int MPI_Finalized(int *f) { *f = 0; return 0; }
int MPI_Finalize(void) { return 0; }
int MPI_Abort(MPI_Comm, int code) { NoLib nl; FATAL("process %d called MPI_Abort(%d)", S->cur, code); child_exit(2); }
double MPI_Wtime(void) {
    NoLib nl; Fiber &f = me(); S->now += 1 + S->lat.below(300); f.clockcalls++;
    double t = S->now * 1e-9 + f.clockoff;
    if (S->sc.f.clock == 2 && S->lat.below(12) == 0) { f.clockoff += S->lat.unit() * 1000; R->probes[PR_CLOCK_JUMP]++; }
    if (S->sc.f.clock == 3 && S->lat.below(12) == 0) { f.clockoff -= S->lat.unit() * 50; R->probes[PR_CLOCK_JUMP]++; }
    f.lastclock = t; return t;
}
double MPI_Wtick(void) { return 1e-9; }
int MPI_Get_processor_name(char *n, int *l) { NoLib nl; *l = snprintf(n, MPI_MAX_PROCESSOR_NAME, "sim%d", S->cur); return 0; }
int MPI_Error_string(int c, char *s, int *l) { *l = snprintf(s, MPI_MAX_ERROR_STRING, "error %d", c); return 0; }
int MPI_Error_class(int c, int *k) { *k = c; return 0; }
int MPI_Query_thread(int *p) { *p = MPI_THREAD_FUNNELED; return 0; }
int MPI_Type_size(MPI_Datatype t, int *n) { NoLib nl; *n = (int)tsize(t, "MPI_Type_size"); return 0; }
int MPI_Type_contiguous(int n, MPI_Datatype t, MPI_Datatype *o) { NoLib nl; *o = new sim_dtype_s{(int)(n * tsize(t, "MPI_Type_contiguous")), t->kind, 1}; return 0; }
int MPI_Type_commit(MPI_Datatype *) { return 0; }
int MPI_Type_free(MPI_Datatype *t) { *t = MPI_DATATYPE_NULL; return 0; }
int MPI_Type_get_extent(MPI_Datatype t, MPI_Aint *lb, MPI_Aint *e) { *lb = 0; *e = t->size; return 0; }
int MPI_Get_address(const void *p, MPI_Aint *a) { *a = (MPI_Aint)p; return 0; }
int MPI_Op_free(MPI_Op *) { return 0; }
int MPI_Pcontrol(const int, ...) { return 0; }
}

// ---- what must hold when a library call returns, and when everything is over -------
void mpi_lib_leave() {
    Fiber &f = me(); if (f.alloc_failed && !S->sc.f.strict) return;
    int n = 0; const char *call = ""; for (auto *q : M->active[S->cur]) if (q->lib && q->active && !q->persistent) { n++; call = q->call; }
    if (n) sim_violation(C_COMM, "process %d: %s returned with %d of its own requests still pending (%s)", S->cur, f.libwhat, n, call);
}
static void leftovers(bool end) {
    for (auto &kv : M->chan) for (auto *m : kv.second.q) if (m->lib || end) { sim_violation(C_LEFTOVER, "a message of %zu bytes from process %d to process %d (operation %d) was never received", m->bytes, m->src, m->dst, m->op); return; }
    for (auto &u : M->unexpected) for (auto *m : u) if (m->lib || end) { sim_violation(C_LEFTOVER, "a message of %zu bytes from process %d to process %d (operation %d) was never received", m->bytes, m->src, m->dst, m->op); return; }
    for (auto &p : M->posted) for (auto *q : p) if (q->lib || end) { sim_violation(C_LEFTOVER, "a receive of process %d (operation %d) was never matched", q->owner, q->op); return; }
    for (auto *sh : M->comms) for (auto *c : sh->colls) if (c->arrived && c->arrived < (int)c->s.size()) { sim_violation(C_LEFTOVER, "%s was called by only %d of the %zu members of a communicator", c->kind.c_str(), c->arrived, c->s.size()); return; }
}
void mpi_end_check() {
    leftovers(true);
    for (auto &a : M->active) for (auto *q : a) if (q->active) { sim_violation(C_LEAK, "a request of process %d (%s, operation %d) was never completed", q->owner, q->call, q->op); return; }
    for (auto *h : M->handles) if (h->lib && !h->freed) { sim_violation(C_LEAK, "a communicator (%s) created by the library in process %d, operation %d, was never freed", h->sh->how.c_str(), h->owner, h->op); return; }
    for (auto *g : M->groups) if (g->lib && !g->freed) { sim_violation(C_LEAK, "a group created by the library in process %d, operation %d, was never freed", g->owner, g->op); return; }
}
// handles of the library that process r holds now
extern "C" void sim_mpi_live(int *comms, int *groups, int *requests) {
    *comms = *groups = *requests = 0; int r = S->cur;
    for (auto *h : M->handles) if (h->lib && !h->freed && h->owner == r) ++*comms;
    for (auto *g : M->groups) if (g->lib && !g->freed && g->owner == r) ++*groups;
    for (auto *q : M->active[r]) if (q->lib && q->active) ++*requests;
}
std::string mpi_blocked_report() {
    std::string s; char t[200]; int n = 0;
    for (size_t r = 0; r < M->posted.size(); r++) for (auto *q : M->posted[r]) if (n++ < 6) { snprintf(t, sizeof t, "   process %zu waits for a message from rank %d, tag %d, %zu bytes\n", r, q->src, q->tag, q->bytes); s += t; }
    for (size_t r = 0; r < M->unexpected.size(); r++) for (auto *m : M->unexpected[r]) if (n++ < 12) { snprintf(t, sizeof t, "   process %d has a message for process %zu, tag %d, %zu bytes, that nobody receives\n", m->src, r, m->tag, m->bytes); s += t; }
    for (auto *sh : M->comms) for (auto *c : sh->colls) if (c->arrived && c->arrived < (int)c->s.size() && n++ < 16) { snprintf(t, sizeof t, "   %s on a communicator of %zu has %d callers\n", c->kind.c_str(), c->s.size(), c->arrived); s += t; }
    return s;
}
