#ifndef SIM_CUDA_H
#define SIM_CUDA_H
#include "cuda_runtime_api.h"
#endif
