/*
 * The description of one simulated run: how many processes, which plans they
 * build, what they do with them, which faults they meet.  Plain data, shared by
 * the simulator (main program) and the rank programs (one shared object copy
 * per simulated process).  A scenario plus a decision trace is a replay file.
 */
#ifndef VERIF_SCENARIO_H
#define VERIF_SCENARIO_H
#include <string>
#include <vector>
#include <cstdint>

struct SBox { // inclusive bounds; empty when hi < lo
    long long lo[3] = {0,0,0}, hi[3] = {-1,-1,-1};
    int order[3] = {0,1,2};
    long long size(int d) const { return hi[d] - lo[d] + 1; }
    bool empty() const { return hi[0] < lo[0] || hi[1] < lo[1] || hi[2] < lo[2]; }
    long long count() const { return empty() ? 0 : size(0) * size(1) * size(2); }
};

enum PlanType { PT_C2C = 0, PT_R2C = 1, PT_COS = 2, PT_SIN = 3, PT_COS1 = 4, PT_SIN1 = 5, PT_RESHAPE = 6 };
enum Backend { BK_STOCK = 0, BK_FFTW = 1, BK_MKL = 2, BK_CUFFT = 3 };
enum Alg { ALG_A2AV = 0, ALG_P2P_PLINED = 1, ALG_P2P = 2, ALG_A2A = 3 };

struct SPlan {
    int comm = 0, type = PT_C2C, backend = BK_STOCK, capi = 0 /* 1 C, 2 Fortran, 3 Python */, idx64 = 0;
    int defopts = 0, reorder = 1, alg = 0, pencils = 1, gpuaware = 1, subranks = 0, subcomm = -1;
    int r2cdir = 0;
    int recipe = 0;           // 1: every rank computes its own box with the documented recipe
    int ctor = 0;             // constructor flavour: 0 class, 1 make_ helper, 2 with stream
    int gstream = 0;          // device plans: 0 the null stream, 1 a stream of the user, 2 a stream that ignores the null stream
    int twod = 0;             // use the 2-D box/class aliases
    int invalid = 0;          // >0: geometry deliberately illegal, kind in Invalid
    long long world[3] = {1,1,1};   // real-side (input) world
    std::vector<SBox> in, out;
    long long cworld(int d) const { return (type == PT_R2C && d == r2cdir) ? world[d]/2 + 1 : world[d]; }
    long long count() const { return world[0]*world[1]*world[2]; }
    long long ccount() const { return cworld(0)*cworld(1)*cworld(2); }
};
enum Invalid { INV_NONE = 0, INV_GAP_IN, INV_GAP_OUT, INV_OVERLAP_IN, INV_OVERLAP_OUT, INV_LOW_IN, INV_LOW_OUT, INV_MISMATCH };

enum OpKind { OP_CREATE = 0, OP_DESTROY, OP_EXEC, OP_MOVE, OP_BARRIER, OP_USERMSG, OP_USERCOLL, OP_TRACE_INIT, OP_TRACE_FIN,
              OP_CHECKPOINT, OP_SIZES, OP_PLANLOGIC, OP_GEOMETRY, OP_SHORTVEC, OP_CAPIERR, OP_FREECOMM, OP_USERPOST, OP_USERDONE, OP_STALL, OP_SIBLING };

struct SOp {
    int kind = OP_BARRIER;
    int plan = 0;        // plan index (or comm index for comm operations)
    int dir = 0;         // 0 forward 1 backward
    int prec = 1;        // 0 float 1 double (reshape: 0 float 1 double 2 cfloat 3 cdouble)
    int batch = 1;
    int scale = 0;       // 0 none 1 full 2 symmetric
    int form = 0;        // api form: 0 (in,out) 1 (+ws) 2 (batch,+ws) 3 (batch) 4 container 5 container to real
    int inplace = 0;
    int real = 0;        // complex plan, real data on the inbox side
    int wsfill = 0;      // 0 NaN 1 garbage 2 zero 3 huge
    int ctype = 0;       // complex flavour handed to the API: 0 std::complex 1 C99/FFTW/MKL type
    int a = 0, b = 0, c = 0;   // op specific
    unsigned seed = 1;   // data
};

struct SComm { std::vector<int> members; int how = 0; int parent = 0; }; // world ranks in rank order; how: 0 world itself 1 dup 2 split 3 create

struct SFaults {
    int rdv = 50;         // percent of sends that must rendezvous when under the limit
    int eagerlimit = 1<<30; // bytes above which a send always is a rendezvous
    int collsync = 50;    // percent of collectives that hold everybody back until all have arrived
    int clock = 0;        // 0 smooth 1 skewed 2 forward jumps 3 backward jumps
    int efence = 0;       // library allocations flush against guard pages
    int misalign = 0;     // user buffers only naturally aligned
    int allocrank = -1;   // allocation failure: rank (-1 none, -2 every rank)
    int allocnth = 0;     // n-th library allocation fails
    int alloccnt = 1;     // number of consecutive failures
    int allocop = -1;     // operation in which the count starts
    int tracefault = 0;   // 1 cannot open 2 disk full
    int stallrank = -1;   // this rank is starved by the scheduler
    int strict = 0;       // replay files of findings only: check the requests of a process that left with an exception, too
    int gpulazy = 0;      // device: 0 work is done at once, 1 as late as possible, 2 and 3 in between
    int gpumpi = 1;       // MPI takes device memory
    int fftfail = 0;      // n-th call that makes or runs a plan of FFTW or MKL fails (0 off)
};

struct Scenario {
    int nranks = 1;
    std::vector<SComm> comms;
    std::vector<SPlan> plans;
    std::vector<SOp> ops;
    SFaults f;
    int policy = 0;
    uint64_t schedseed = 1;
    uint64_t dataseed = 1;
};

struct Prop { const char *id; const char *title; uint64_t cats; int quick, thorough; };
extern Prop props[]; extern int nprops;
Scenario make_scenario(int prop, uint64_t seed, uint64_t index);
std::string scenario_text(Scenario const &);
bool scenario_parse(std::string const &, Scenario &);
#endif
