/* The part of the DFT interface of oneMKL that the library uses, of the versions before 2025.1 and since, on the device of the simulator. */
#ifndef SIM_ONEMKL_HPP
#define SIM_ONEMKL_HPP
#include <sycl/sycl.hpp>
#include <cstdarg>
#include <initializer_list>
#ifndef INTEL_MKL_VERSION
#define INTEL_MKL_VERSION 20250100
#endif
#define MKL_LONG long
enum DFTI_CONFIG_VALUE { DFTI_COMPLEX_COMPLEX = 39, DFTI_COMPLEX_REAL = 40, DFTI_INPLACE = 43, DFTI_NOT_INPLACE = 44 };
namespace oneapi { namespace mkl {
struct exception : std::runtime_error { using std::runtime_error::runtime_error; };
namespace dft {
enum class precision { SINGLE, DOUBLE }; enum class domain { REAL, COMPLEX };
enum class config_param { FORWARD_DOMAIN, DIMENSION, LENGTHS, PRECISION, FORWARD_SCALE, BACKWARD_SCALE, NUMBER_OF_TRANSFORMS, COMPLEX_STORAGE, CONJUGATE_EVEN_STORAGE, PLACEMENT, INPUT_STRIDES, OUTPUT_STRIDES, FWD_STRIDES, BWD_STRIDES, FWD_DISTANCE, BWD_DISTANCE };
enum class config_value { COMMITTED, UNCOMMITTED, COMPLEX_COMPLEX, REAL_REAL, INPLACE, NOT_INPLACE };
template<precision P, domain D> class descriptor {
    SimDft d; bool fset = false, bset = false, committed = false; uint64_t q = 0; bool inorder = false;
    void init(std::vector<int64_t> const &n) { d = SimDft(); if (n.empty() || n.size() > 3) throw exception("oneMKL: invalid dimension"); d.dim = (int)n.size(); d.dbl = P == precision::DOUBLE; d.real = D == domain::REAL; d.inplace = 1; d.batch = 1;
        for (int i = 0; i < d.dim; i++) { if (n[i] < 1) throw exception("oneMKL: invalid length"); d.n[i] = n[i]; } int64_t v = 1, w = 1; for (int i = d.dim; i-- > 0;) { d.fs[i + 1] = v; d.bs[i + 1] = w; int64_t h = i == d.dim - 1 && d.real ? d.n[i] / 2 + 1 : d.n[i]; w *= h; v *= i == d.dim - 1 && d.real ? 2 * h : d.n[i]; } sim_sycl_plan(1); }
    void strides(config_param c, const int64_t *s) { int64_t *t = c == config_param::FWD_STRIDES ? d.fs : c == config_param::BWD_STRIDES ? d.bs : nullptr; if (!t) throw exception("oneMKL: invalid parameter"); for (int i = 0; i <= d.dim; i++) t[i] = s[i]; committed = false; }
    void number(config_param c, int64_t v) { committed = false; switch (c) { case config_param::NUMBER_OF_TRANSFORMS: if (v < 1) throw exception("oneMKL: invalid number of transforms"); d.batch = v; break; case config_param::FWD_DISTANCE: d.fd = v; break; case config_param::BWD_DISTANCE: d.bd = v; break;
        default: throw exception("oneMKL: invalid parameter"); } }
public:
    typedef typename std::conditional<P == precision::DOUBLE, double, float>::type real;
    descriptor(int64_t n) { init({n}); }
    descriptor(std::vector<int64_t> n) { init(n); }
    descriptor(descriptor const &o) : d(o.d), q(o.q), inorder(o.inorder) { sim_sycl_plan(1); }
    ~descriptor() { sim_sycl_plan(-1); }
    void set_value(config_param c, config_value v) { committed = false; if (c == config_param::PLACEMENT && (v == config_value::INPLACE || v == config_value::NOT_INPLACE)) d.inplace = v == config_value::INPLACE; else if (c == config_param::CONJUGATE_EVEN_STORAGE && v == config_value::COMPLEX_COMPLEX) {} else throw exception("oneMKL: invalid value"); }
    void set_value(config_param c, DFTI_CONFIG_VALUE v) { set_value(c, v == DFTI_INPLACE ? config_value::INPLACE : v == DFTI_NOT_INPLACE ? config_value::NOT_INPLACE : v == DFTI_COMPLEX_COMPLEX ? config_value::COMPLEX_COMPLEX : config_value::REAL_REAL); }
    void set_value(config_param c, std::vector<int64_t> const &v) { if ((int)v.size() != d.dim + 1) throw exception("oneMKL: invalid number of strides"); strides(c, v.data()); }
    void set_value(config_param c, MKL_LONG const *v) { strides(c, v); }
    void set_value(config_param c, MKL_LONG v) { number(c, v); }
    void set_value(config_param c, int v) { number(c, v); }
    void commit(sycl::queue &x) { if (d.batch > 1 && (d.fd <= 0 || d.bd <= 0)) throw exception("oneMKL: the distance of several transforms is not set"); if (d.inplace && !d.real) for (int i = 0; i <= d.dim; i++) if (d.fs[i] != d.bs[i]) throw exception("oneMKL: inconsistent strides in place"); q = x.sim_id(); inorder = x.is_in_order(); committed = true; }
    sycl::event run(void *in, void *out, bool inplace, bool inverse, std::vector<sycl::event> const &e) { if (!committed) { sim_sycl_bad("a transform of oneMKL is computed before its descriptor is committed"); throw exception("oneMKL: the descriptor is not committed"); } if (inplace != (bool)d.inplace) throw exception("oneMKL: the call does not fit the placement of the descriptor");
        auto l = sycl::sim::ids(e); sycl::event r; r.e = sim_sycl_dft(q, inorder, l.data(), l.size(), &d, in, out, inverse); return r; }
};
template<class D, class T> sycl::event compute_forward(D &d, T *io, std::vector<sycl::event> const &e = {}) { return d.run(io, io, true, false, e); }
template<class D, class T> sycl::event compute_backward(D &d, T *io, std::vector<sycl::event> const &e = {}) { return d.run(io, io, true, true, e); }
template<class D, class T, class U> sycl::event compute_forward(D &d, T *i, U *o, std::vector<sycl::event> const &e = {}) { return d.run(i, o, false, false, e); }
template<class D, class T, class U> sycl::event compute_backward(D &d, T *i, U *o, std::vector<sycl::event> const &e = {}) { return d.run(i, o, false, true, e); }
} } }
#endif
