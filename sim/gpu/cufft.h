#ifndef SIM_CUFFT_H
#define SIM_CUFFT_H
#include "cuda_runtime_api.h"
extern "C" {
typedef enum { CUFFT_SUCCESS = 0, CUFFT_INVALID_PLAN = 1, CUFFT_ALLOC_FAILED = 2, CUFFT_INVALID_TYPE = 3, CUFFT_INVALID_VALUE = 4, CUFFT_INTERNAL_ERROR = 5, CUFFT_EXEC_FAILED = 6, CUFFT_SETUP_FAILED = 7, CUFFT_INVALID_SIZE = 8 } cufftResult;
typedef enum { CUFFT_R2C = 0x2a, CUFFT_C2R = 0x2c, CUFFT_C2C = 0x29, CUFFT_D2Z = 0x6a, CUFFT_Z2D = 0x6c, CUFFT_Z2Z = 0x69 } cufftType;
enum { CUFFT_FORWARD = -1, CUFFT_INVERSE = 1 };
typedef int cufftHandle;
typedef float cufftReal; typedef double cufftDoubleReal;
typedef struct { float x, y; } cufftComplex; typedef struct { double x, y; } cufftDoubleComplex;
cufftResult cufftCreate(cufftHandle *h);
cufftResult cufftDestroy(cufftHandle h);
cufftResult cufftMakePlanMany(cufftHandle h, int rank, int *n, int *inembed, int istride, int idist, int *onembed, int ostride, int odist, cufftType t, int batch, size_t *work);
cufftResult cufftPlan3d(cufftHandle *h, int nx, int ny, int nz, cufftType t);
cufftResult cufftSetStream(cufftHandle h, cudaStream_t s);
cufftResult cufftExecC2C(cufftHandle h, cufftComplex *i, cufftComplex *o, int dir);
cufftResult cufftExecZ2Z(cufftHandle h, cufftDoubleComplex *i, cufftDoubleComplex *o, int dir);
cufftResult cufftExecR2C(cufftHandle h, cufftReal *i, cufftComplex *o);
cufftResult cufftExecC2R(cufftHandle h, cufftComplex *i, cufftReal *o);
cufftResult cufftExecD2Z(cufftHandle h, cufftDoubleReal *i, cufftDoubleComplex *o);
cufftResult cufftExecZ2D(cufftHandle h, cufftDoubleComplex *i, cufftDoubleReal *o);
}
#endif
