/* The Python interpreter of the simulated processes: one interpreter, one thread state per process. */
#define PY_SSIZE_T_CLEAN
#include <Python.h>
#include "../sim/pyapi.h"
#include <cstdio>
#include <cstring>
static PyInterpreterState *interp; static PyObject *mod; static PyThreadState *ts[64];
static void fail(char *err, size_t n) { // the exception as text
    PyObject *t, *v, *b; PyErr_Fetch(&t, &v, &b); PyErr_NormalizeException(&t, &v, &b);
    PyObject *s = v ? PyObject_Str(v) : nullptr; const char *c = s ? PyUnicode_AsUTF8(s) : nullptr;
    snprintf(err, n, "%s: %s", t ? ((PyTypeObject *)t)->tp_name : "exception", c ? c : "?"); PyErr_Clear(); Py_XDECREF(s); Py_XDECREF(t); Py_XDECREF(v); Py_XDECREF(b);
}
static bool text(PyObject *r, char *err, size_t n) { if (!PyUnicode_Check(r)) return false; snprintf(err, n, "%s", PyUnicode_AsUTF8(r)); return true; }
// returns the number the function gives; -1 and err when it raises
static long long call(int rank, const char *fn, const long long *a, int n, char *err, size_t en) {
    err[0] = 0; if (!ts[rank]) ts[rank] = PyThreadState_New(interp);
    PyEval_RestoreThread(ts[rank]); long long out = -1;
    PyObject *f = PyObject_GetAttrString(mod, fn), *t = PyTuple_New(n + 1); PyTuple_SET_ITEM(t, 0, PyLong_FromLong(rank)); for (int i = 0; i < n; i++) PyTuple_SET_ITEM(t, i + 1, PyLong_FromLongLong(a[i]));
    PyObject *r = f ? PyObject_CallObject(f, t) : nullptr; if (!r) fail(err, en); else if (PyLong_Check(r)) { out = PyLong_AsLongLong(r); if (out < 0) { snprintf(err, en, "negative"); } } else snprintf(err, en, "no number");
    Py_XDECREF(r); Py_DECREF(t); Py_XDECREF(f);
    if (!err[0]) { PyObject *g = PyObject_CallMethod(mod, "note", nullptr); if (!g) fail(err, en); else if (text(g, err, en)) out = -2; Py_XDECREF(g); }
    PyEval_SaveThread(); return out;
}
static PyApi api{call};
extern "C" PyApi const *py_start(const char *driver, const char *source, const char *libpattern, int nranks, char *err, size_t en) {
    PyConfig c; PyConfig_InitPythonConfig(&c); c.install_signal_handlers = 0; c.use_environment = 0; c.use_hash_seed = 1; c.hash_seed = 0; c.write_bytecode = 0; c.user_site_directory = 0; c.parse_argv = 0;
    PyStatus s = Py_InitializeFromConfig(&c); PyConfig_Clear(&c); if (PyStatus_Exception(s)) { snprintf(err, en, "Python does not start: %s", s.err_msg ? s.err_msg : "?"); return nullptr; }
    interp = PyInterpreterState_Get(); mod = PyModule_New("drive"); PyObject *d = PyModule_GetDict(mod); PyDict_SetItemString(d, "__builtins__", PyEval_GetBuiltins());
    FILE *f = fopen(driver, "r"); if (!f) { snprintf(err, en, "cannot open %s", driver); return nullptr; }
    PyObject *r = PyRun_FileEx(f, "drive.py", Py_file_input, d, d, 1); if (!r) { fail(err, en); return nullptr; } Py_DECREF(r);
    r = PyObject_CallMethod(mod, "setup", "sis", source, nranks, libpattern); if (!r) { fail(err, en); return nullptr; } Py_DECREF(r);
    PyEval_SaveThread(); return &api;
}
