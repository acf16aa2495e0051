/* One combination of backend and index type per translation unit (VBK, VI64, VR). */
#include "plan_impl.h"
#if VI64
typedef long long IDX;
#else
typedef int IDX;
#endif
#if VR == 0
#if VBK == 0
typedef backend::stock TAG;
#elif VBK == 1
typedef backend::fftw TAG;
#else
typedef backend::mkl TAG;
#endif
template<> PlanObj *make_fft_impl<VBK, VI64>(SPlan const &s, SBox const &in, SBox const &out, MPI_Comm comm, MPI_Comm sub) {
    if (s.type == PT_C2C) return make_c2c<TAG, IDX>(s, in, out, comm, sub);
    return make_r2c<TAG, IDX>(s, in, out, comm, sub);
}
#else
template<> PlanObj *make_r2r_impl<VBK, VI64>(SPlan const &s, SBox const &in, SBox const &out, MPI_Comm comm, MPI_Comm sub) {
#if VBK == 0
    switch (s.type) { case PT_COS: return make_real<backend::stock_cos, IDX>(s, in, out, comm, sub); case PT_SIN: return make_real<backend::stock_sin, IDX>(s, in, out, comm, sub); case PT_COS1: return make_real<backend::stock_cos1, IDX>(s, in, out, comm, sub); }
#elif VBK == 1
    switch (s.type) { case PT_COS: return make_real<backend::fftw_cos, IDX>(s, in, out, comm, sub); case PT_SIN: return make_real<backend::fftw_sin, IDX>(s, in, out, comm, sub);
                      case PT_COS1: return make_real<backend::fftw_cos1, IDX>(s, in, out, comm, sub); case PT_SIN1: return make_real<backend::fftw_sin1, IDX>(s, in, out, comm, sub); }
#else
    switch (s.type) { case PT_COS: return make_real<backend::mkl_cos, IDX>(s, in, out, comm, sub); case PT_SIN: return make_real<backend::mkl_sin, IDX>(s, in, out, comm, sub); }
#endif
    return nullptr;
}
#endif
