/* Between the simulator, the rank programs and the library that holds the Python interpreter. */
#ifndef VERIF_PYAPI_H
#define VERIF_PYAPI_H
#include <stddef.h>
struct PyApi { long long (*call)(int rank, const char *fn, const long long *args, int n, char *err, size_t errlen); };
extern "C" { typedef PyApi const *(*py_start_t)(const char *driver, const char *source, const char *libpattern, int nranks, char *err, size_t errlen); PyApi const *sim_py(); }
#endif
