/* The rank program's view of a plan object of the code under test. */
#ifndef VERIF_PLAN_H
#define VERIF_PLAN_H
#include "../sim/api.h"
#include <stdexcept>
#include <string>
struct PlanObj {
    virtual ~PlanObj() {}
    virtual long long nin() = 0;
    virtual long long nout() = 0;
    virtual long long nwork() = 0;
    virtual double full_factor() { return 0; }
    virtual bool boxes(SBox &, SBox &) { return false; }
    virtual void exec(SOp const &o, const void *in, void *out, void *ws) = 0;
    // container interface: n elements are handed over; the result is copied to out, its length returned
    virtual long long exec_vec(SOp const &, const void *, long long, void *, long long) { return -1; }
    virtual bool move() { return false; }         // move the object to a new place
    virtual bool move_assign(PlanObj *) { return false; } // overwrite with another plan of the same class
};
PlanObj *make_stock(SPlan const &, int idx64, SBox const &in, SBox const &out, MPI_Comm comm, MPI_Comm sub);
PlanObj *make_fftw(SPlan const &, int idx64, SBox const &in, SBox const &out, MPI_Comm comm, MPI_Comm sub);
PlanObj *make_mkl(SPlan const &, int idx64, SBox const &in, SBox const &out, MPI_Comm comm, MPI_Comm sub);
PlanObj *make_dev(SPlan const &, SBox const &in, SBox const &out, int me, MPI_Comm comm, MPI_Comm sub);
#ifdef SIM_SYCL
namespace sycl { class queue; }
extern sycl::queue *sim_stream; // the queue the next plan is made for
#define SIM_STREAM (*sim_stream)
#elif defined(SIM_GPU)
extern struct SimStream *sim_stream; // the stream the next plan is made for
#define SIM_STREAM sim_stream
#endif
PlanObj *make_r2r(SPlan const &, int idx64, SBox const &in, SBox const &out, MPI_Comm comm, MPI_Comm sub);
PlanObj *make_reshape(SPlan const &, MPI_Comm comm, int myrank);
PlanObj *make_py(SPlan const &, SBox const &in, SBox const &out, MPI_Comm comm);
void py_refuse(PlanObj *p, SOp const &o, SPlan const &s);
void py_badplan(SPlan const &s, SBox const &in, SBox const &out, SOp const &o, MPI_Comm comm);
bool py_recipe(long long const *lo, long long const *hi, int order, int n, int *grid, std::vector<SBox> &v);
PlanObj *make_fort(SPlan const &, SBox const &in, SBox const &out, MPI_Comm comm);
PlanObj *make_capi(SPlan const &, SBox const &in, SBox const &out, MPI_Comm comm);
void capi_errors(int op, SOp const &o, MPI_Comm comm);
template<int BK, int I64> PlanObj *make_fft_impl(SPlan const &, SBox const &, SBox const &, MPI_Comm, MPI_Comm);
template<int BK, int I64> PlanObj *make_r2r_impl(SPlan const &, SBox const &, SBox const &, MPI_Comm, MPI_Comm);
struct LibCall { LibCall(int op, const char *w) { sim_lib_enter(op, w); } ~LibCall() { sim_lib_leave(); } };
#endif
