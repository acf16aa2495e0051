#include "heffte.h"
#include "plan.h"
#include <complex>
#include <vector>
#include <memory>
#include <cstring>
using namespace heffte;
#ifndef SIM_STREAM
#define SIM_STREAM nullptr
#endif
// a complex type of the user, declared equivalent in the documented way
struct UserC { float re, im; }; struct UserZ { double re, im; };
namespace heffte { template<> struct is_ccomplex<UserC> : std::true_type {}; template<> struct is_zcomplex<UserZ> : std::true_type {}; }
// the complex types a user of a backend has at hand
template<class Tag, class T> struct OwnComplex { typedef typename std::conditional<std::is_same<T, float>::value, UserC, UserZ>::type type; };
template<class T> struct OwnComplex<backend::fftw, T> { typedef typename std::conditional<std::is_same<T, float>::value, fftwf_complex, fftw_complex>::type type; };
template<> struct OwnComplex<backend::mkl, float> { typedef float _Complex type; };
template<> struct OwnComplex<backend::mkl, double> { typedef double _Complex type; };

template<class I> inline box3d<I> to_box(SBox const &b) {
    return box3d<I>(std::array<I, 3>{(I)b.lo[0], (I)b.lo[1], (I)b.lo[2]}, std::array<I, 3>{(I)b.hi[0], (I)b.hi[1], (I)b.hi[2]}, std::array<int, 3>{b.order[0], b.order[1], b.order[2]});
}
template<class I> inline box3d<I> to_box(SBox const &b, bool plain, bool twod) { // other constructors when the order is the default one
    if (twod && b.lo[2] == 0 && b.hi[2] == 0 && b.order[2] == 2 && (b.order[0] == 1 || b.lo[0] % 2)) return box3d<I>(std::array<I, 2>{(I)b.lo[0], (I)b.lo[1]}, std::array<I, 2>{(I)b.hi[0], (I)b.hi[1]}, std::array<int, 2>{b.order[0], b.order[1]});
    if (b.order[0] == 0 && b.order[1] == 1 && b.order[2] == 2) {
        if (twod && b.lo[2] == 0 && b.hi[2] == 0) return box3d<I>(std::array<I, 2>{(I)b.lo[0], (I)b.lo[1]}, std::array<I, 2>{(I)b.hi[0], (I)b.hi[1]});
        if (plain) return box3d<I>(std::array<I, 3>{(I)b.lo[0], (I)b.lo[1], (I)b.lo[2]}, std::array<I, 3>{(I)b.hi[0], (I)b.hi[1], (I)b.hi[2]});
    }
    return to_box<I>(b);
}
template<class I> inline SBox from_box(box3d<I> const &b) { SBox s; for (int d = 0; d < 3; d++) { s.lo[d] = b.low[d]; s.hi[d] = b.high[d]; s.order[d] = b.order[d]; } return s; }
template<class Tag> inline plan_options to_options(SPlan const &p, MPI_Comm sub, bool usesub) {
    plan_options o = default_options<Tag>();
    if (!p.defopts) { o.use_reorder = p.reorder; o.algorithm = p.alg == ALG_A2AV ? reshape_algorithm::alltoallv : p.alg == ALG_A2A ? reshape_algorithm::alltoall : p.alg == ALG_P2P ? reshape_algorithm::p2p : reshape_algorithm::p2p_plined; o.use_pencils = p.pencils; o.use_gpu_aware = p.gpuaware; }
    if (p.subranks > 0) o.use_num_subranks(p.subranks);
    if (usesub) o.use_subcomm(sub);
    return o;
}
inline scale to_scale(int s) { return s == 1 ? scale::full : s == 2 ? scale::symmetric : scale::none; }
template<class P, class A, class B> void do_fwd(P const &p, SOp const &o, const void *in, void *out, void *ws) {
    A const *a = (A const *)in; B *b = (B *)out; B *w = (B *)ws; scale s = to_scale(o.scale);
    switch (o.form) { case 0: p.forward(a, b, s); break; case 1: p.forward(a, b, w, s); break; case 2: p.forward(o.batch, a, b, w, s); break; default: p.forward(o.batch, a, b, s); }
}
template<class P, class A, class B> void do_bwd(P const &p, SOp const &o, const void *in, void *out, void *ws) {
    A const *a = (A const *)in; B *b = (B *)out; A *w = (A *)ws; scale s = to_scale(o.scale);
    switch (o.form) { case 0: p.backward(a, b, s); break; case 1: p.backward(a, b, w, s); break; case 2: p.backward(o.batch, a, b, w, s); break; default: p.backward(o.batch, a, b, s); }
}
template<class V> struct Deliver { static void go(V const &v, void *out, long long n) { memcpy(out, v.data(), sizeof(v[0]) * (size_t)n); } };
template<class V> long long deliver(V const &v, void *out, long long cap) { long long n = (long long)v.size(); if (n > 0 && cap > 0) Deliver<V>::go(v, out, n < cap ? n : cap); return n; }
template<class V> void grow(V &v, int n) { typedef typename V::value_type T; for (int i = 0; i < n; i++) v.push_back(T(1.0e30f)); } // a container may be larger than the box
template<class Tag, class T> struct Fill { static std::vector<T> make(const void *in, long long n, int more) { std::vector<T> v((T const *)in, (T const *)in + n); grow(v, more); return v; } };
template<class Base, class Tag, class I> struct ObjBase : PlanObj {
    std::unique_ptr<Base> p; bool own = false; // own: call with the complex type of the backend
    long long nin() override { return p->size_inbox(); }
    long long nout() override { return p->size_outbox(); }
    long long nwork() override { return (long long)p->size_workspace(); }
    double full_factor() override { return p->get_scale_factor(scale::full); }
    bool move() override { std::unique_ptr<Base> q(new Base(std::move(*p))); p = std::move(q); return true; }
    bool move_assign(PlanObj *o) override { auto *other = dynamic_cast<ObjBase *>(o); if (!other) return false; *p = std::move(*other->p); return true; }
};
template<class Tag, class I> struct C2C : ObjBase<fft3d<Tag, I>, Tag, I> {
    typedef fft3d<Tag, I> P;
    bool boxes(SBox &a, SBox &b) override { a = from_box<I>(this->p->inbox()); b = from_box<I>(this->p->outbox()); return true; }
    template<class T> void go(SOp const &o, const void *in, void *out, void *ws) {
        typedef std::complex<T> C; typedef typename OwnComplex<Tag, T>::type V;
        if (this->own) { if (o.dir == 0) { if (o.real) do_fwd<P, T, V>(*this->p, o, in, out, ws); else do_fwd<P, V, V>(*this->p, o, in, out, ws); } else { if (o.real) do_bwd<P, V, T>(*this->p, o, in, out, ws); else do_bwd<P, V, V>(*this->p, o, in, out, ws); } return; }
        if (o.dir == 0) { if (o.real) do_fwd<P, T, C>(*this->p, o, in, out, ws); else do_fwd<P, C, C>(*this->p, o, in, out, ws); }
        else { if (o.real) do_bwd<P, C, T>(*this->p, o, in, out, ws); else do_bwd<P, C, C>(*this->p, o, in, out, ws); }
    }
    void exec(SOp const &o, const void *in, void *out, void *ws) override { LibCall lc(-1, o.dir ? "backward" : "forward"); if (o.prec) go<double>(o, in, out, ws); else go<float>(o, in, out, ws); }
    template<class T> long long vec(SOp const &o, const void *in, long long n, void *out, long long cap) {
        typedef std::complex<T> C; scale s = to_scale(o.scale);
        if (o.dir == 0 && o.real) { auto v = Fill<Tag, T>::make(in, n, o.b); LibCall lc(-1, "forward of a container"); auto r = this->p->forward(v, s); return deliver(r, out, cap); }
        auto v = Fill<Tag, C>::make(in, n, o.b); LibCall lc(-1, o.dir ? "backward of a container" : "forward of a container");
        if (o.dir == 0) { auto r = this->p->forward(v, s); return deliver(r, out, cap); }
        if (o.real) { auto r = this->p->backward_real(v, s); return deliver(r, out, cap); }
        auto r = this->p->backward(v, s); return deliver(r, out, cap);
    }
    long long exec_vec(SOp const &o, const void *in, long long n, void *out, long long cap) override { return o.prec ? vec<double>(o, in, n, out, cap) : vec<float>(o, in, n, out, cap); }
};
template<class Tag, class I> struct R2C : ObjBase<fft3d_r2c<Tag, I>, Tag, I> {
    typedef fft3d_r2c<Tag, I> P;
    void exec(SOp const &o, const void *in, void *out, void *ws) override {
        LibCall lc(-1, o.dir ? "backward" : "forward");
        if (this->own) {
            typedef typename OwnComplex<Tag, float>::type VC; typedef typename OwnComplex<Tag, double>::type VZ;
            if (o.prec) { if (o.dir) do_bwd<P, VZ, double>(*this->p, o, in, out, ws); else do_fwd<P, double, VZ>(*this->p, o, in, out, ws); }
            else { if (o.dir) do_bwd<P, VC, float>(*this->p, o, in, out, ws); else do_fwd<P, float, VC>(*this->p, o, in, out, ws); }
            return; }
        if (o.prec) { if (o.dir) do_bwd<P, std::complex<double>, double>(*this->p, o, in, out, ws); else do_fwd<P, double, std::complex<double>>(*this->p, o, in, out, ws); }
        else { if (o.dir) do_bwd<P, std::complex<float>, float>(*this->p, o, in, out, ws); else do_fwd<P, float, std::complex<float>>(*this->p, o, in, out, ws); }
    }
    template<class T> long long vec(SOp const &o, const void *in, long long n, void *out, long long cap) {
        typedef std::complex<T> C; scale s = to_scale(o.scale);
        if (o.dir == 0) { auto v = Fill<Tag, T>::make(in, n, o.b); LibCall lc(-1, "forward of a container"); auto r = this->p->forward(v, s); return deliver(r, out, cap); }
        auto v = Fill<Tag, C>::make(in, n, o.b); LibCall lc(-1, "backward of a container"); auto r = this->p->backward(v, s); return deliver(r, out, cap);
    }
    long long exec_vec(SOp const &o, const void *in, long long n, void *out, long long cap) override { return o.prec ? vec<double>(o, in, n, out, cap) : vec<float>(o, in, n, out, cap); }
};
template<class Tag, class I> struct R2R : ObjBase<fft3d<Tag, I>, Tag, I> {
    typedef fft3d<Tag, I> P;
    bool boxes(SBox &a, SBox &b) override { a = from_box<I>(this->p->inbox()); b = from_box<I>(this->p->outbox()); return true; }
    template<class T> void go(SOp const &o, const void *in, void *out, void *ws) { if (o.dir) do_bwd<P, T, T>(*this->p, o, in, out, ws); else do_fwd<P, T, T>(*this->p, o, in, out, ws); }
    void exec(SOp const &o, const void *in, void *out, void *ws) override { LibCall lc(-1, o.dir ? "backward" : "forward"); if (o.prec) go<double>(o, in, out, ws); else go<float>(o, in, out, ws); }
    template<class T> long long vec(SOp const &o, const void *in, long long n, void *out, long long cap) {
        scale s = to_scale(o.scale); auto v = Fill<Tag, T>::make(in, n, o.b); LibCall lc(-1, o.dir ? "backward of a container" : "forward of a container");
        if (o.dir == 0) { auto r = this->p->forward(v, s); return deliver(r, out, cap); }
        auto r = this->p->backward(v, s); return deliver(r, out, cap);
    }
    long long exec_vec(SOp const &o, const void *in, long long n, void *out, long long cap) override { return o.prec ? vec<double>(o, in, n, out, cap) : vec<float>(o, in, n, out, cap); }
};
template<class Tag, class I> PlanObj *make_c2c(SPlan const &s, SBox const &in, SBox const &out, MPI_Comm comm, MPI_Comm sub) {
    std::unique_ptr<C2C<Tag, I>> o(new C2C<Tag, I>); typedef fft3d<Tag, I> P;
    { LibCall lc(-1, "the construction of a plan"); bool us = s.subcomm >= 0;
      auto bi = to_box<I>(in, s.ctor == 1, s.twod), bo = to_box<I>(out, s.ctor == 1, s.twod);
      auto L = [](SBox const &b, int d) { return (int)b.lo[d]; }; auto H = [](SBox const &b, int d) { return (int)b.hi[d]; };
#define LO(b) L(b, 0), L(b, 1), L(b, 2)
#define HI(b) H(b, 0), H(b, 1), H(b, 2)
#define OR(b) b.order[0], b.order[1], b.order[2]
      bool d0 = in.order[0] == 0 && in.order[1] == 1 && out.order[0] == 0 && out.order[1] == 1; o->own = s.ctor == 1; plan_options w = to_options<Tag>(s, sub, us);
      if (s.ctor == 3 && !s.subranks && !us && w.use_gpu_aware == default_options<Tag>().use_gpu_aware) { // the constructors of the Fortran interface
        if (!s.defopts) o->p.reset(new P(LO(in), HI(in), OR(in), LO(out), HI(out), OR(out), comm, w.use_reorder, (int)w.algorithm, w.use_pencils));
        else if (d0) o->p.reset(new P(LO(in), HI(in), LO(out), HI(out), comm)); else o->p.reset(new P(LO(in), HI(in), OR(in), LO(out), HI(out), OR(out), comm));
      } else if (s.ctor == 1) o->p.reset(new P(make_fft3d<Tag, I>(bi, bo, comm, to_options<Tag>(s, sub, us))));
      else if (s.ctor == 2) o->p.reset(new P(SIM_STREAM, bi, bo, comm, to_options<Tag>(s, sub, us)));
      else if (s.defopts && !s.subranks && !us) o->p.reset(new P(bi, bo, comm));
      else o->p.reset(new P(bi, bo, comm, to_options<Tag>(s, sub, us))); }
    return o.release();
}
template<class Tag, class I> PlanObj *make_real(SPlan const &s, SBox const &in, SBox const &out, MPI_Comm comm, MPI_Comm sub) {
    std::unique_ptr<R2R<Tag, I>> o(new R2R<Tag, I>); typedef fft3d<Tag, I> P;
    { LibCall lc(-1, "the construction of a plan"); if (s.ctor == 2) o->p.reset(new P(SIM_STREAM, to_box<I>(in), to_box<I>(out), comm, to_options<Tag>(s, sub, s.subcomm >= 0)));
      else if (s.ctor == 1) o->p.reset(new P(make_fft3d<Tag, I>(to_box<I>(in), to_box<I>(out), comm, to_options<Tag>(s, sub, s.subcomm >= 0))));
      else o->p.reset(new P(to_box<I>(in, s.ctor == 1, s.twod), to_box<I>(out, s.ctor == 1, s.twod), comm, to_options<Tag>(s, sub, s.subcomm >= 0))); }
    return o.release();
}
template<class Tag, class I> PlanObj *make_r2c(SPlan const &s, SBox const &in, SBox const &out, MPI_Comm comm, MPI_Comm sub) {
    std::unique_ptr<R2C<Tag, I>> o(new R2C<Tag, I>); typedef fft3d_r2c<Tag, I> P;
    { LibCall lc(-1, "the construction of a plan"); bool us = s.subcomm >= 0;
      auto bi = to_box<I>(in, s.ctor == 1, s.twod), bo = to_box<I>(out, s.ctor == 1, s.twod);
      auto L = [](SBox const &b, int d) { return (int)b.lo[d]; }; auto H = [](SBox const &b, int d) { return (int)b.hi[d]; };
#define LO(b) L(b, 0), L(b, 1), L(b, 2)
#define HI(b) H(b, 0), H(b, 1), H(b, 2)
#define OR(b) b.order[0], b.order[1], b.order[2]
      bool d0 = in.order[0] == 0 && in.order[1] == 1 && out.order[0] == 0 && out.order[1] == 1; o->own = s.ctor == 1; plan_options w = to_options<Tag>(s, sub, us);
      if (s.ctor == 3 && !s.subranks && !us && w.use_gpu_aware == default_options<Tag>().use_gpu_aware) { // the constructors of the Fortran interface
        if (!s.defopts) o->p.reset(new P(LO(in), HI(in), OR(in), LO(out), HI(out), OR(out), s.r2cdir, comm, w.use_reorder, (int)w.algorithm, w.use_pencils));
        else if (d0) o->p.reset(new P(LO(in), HI(in), LO(out), HI(out), s.r2cdir, comm)); else o->p.reset(new P(LO(in), HI(in), OR(in), LO(out), HI(out), OR(out), s.r2cdir, comm));
      } else if (s.ctor == 1) o->p.reset(new P(make_fft3d_r2c<Tag, I>(bi, bo, s.r2cdir, comm, to_options<Tag>(s, sub, us))));
      else if (s.ctor == 2) o->p.reset(new P(SIM_STREAM, bi, bo, s.r2cdir, comm, to_options<Tag>(s, sub, us)));
      else if (s.defopts && !s.subranks && !us) o->p.reset(new P(bi, bo, s.r2cdir, comm));
      else o->p.reset(new P(bi, bo, s.r2cdir, comm, to_options<Tag>(s, sub, us))); }
    return o.release();
}
