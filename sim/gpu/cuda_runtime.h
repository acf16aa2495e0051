#ifndef SIM_CUDA_RUNTIME_H
#define SIM_CUDA_RUNTIME_H
#include "cuda_runtime_api.h"
#endif
