/* Plans of the CUDA or the ROCm backend on the simulated device: the arrays of the user live on the device, uploads and downloads go through the stream of the plan. */
#include "plan_impl.h"
#include <map>
#ifdef SIM_SYCL
typedef backend::onemkl GFft; typedef backend::onemkl_cos GCos; typedef backend::onemkl_sin GSin; typedef sycl::queue *Stream;
sycl::queue *sim_stream = nullptr;
#else
#include <cuda_runtime_api.h>
typedef cudaStream_t Stream;
cudaStream_t sim_stream = nullptr;
#ifdef SIM_ROCM
typedef backend::rocfft GFft; typedef backend::rocfft_cos GCos; typedef backend::rocfft_sin GSin; typedef backend::rocfft_cos1 GCos1;
#else
typedef backend::cufft GFft; typedef backend::cufft_cos GCos; typedef backend::cufft_sin GSin; typedef backend::cufft_cos1 GCos1;
template<class T> struct OwnComplex<backend::cufft, T> { typedef typename std::conditional<std::is_same<T, float>::value, cufftComplex, cufftDoubleComplex>::type type; };
#endif
static void ok(cudaError_t e, const char *what) { if (e != cudaSuccess) sim_violation(C_GPU, "process %d: %s fails: %s", sim_rank(), what, cudaGetErrorString(e)); }
#endif
// what the user does with the device
#ifdef SIM_SYCL
static Stream new_stream(int kind) { return kind % 2 ? new sycl::queue(sycl::gpu_selector_v) : new sycl::queue(sycl::gpu_selector_v, sycl::property::queue::in_order()); } // an ordinary queue is out of order
static void del_stream(Stream s) { s->wait(); delete s; }
static void sync_stream(Stream s) { s->wait(); }
static void *dev_alloc(size_t n, Stream s) { return n ? sycl::malloc_device<char>(n, *s) : nullptr; }
static void dev_free(void *p, Stream s) { sycl::free(p, *s); }
static void to_dev(void *d, const void *h, size_t n, Stream s) { auto e = s->memcpy(d, h, n); if (!s->is_in_order()) e.wait(); }
static void to_host(void *h, const void *d, size_t n, Stream s) { if (!s->is_in_order()) s->wait(); s->memcpy(h, d, n).wait(); }
static void no_error() {}
#else
static Stream new_stream(int kind) { Stream s = nullptr; ok(cudaStreamCreateWithFlags(&s, kind % 2 ? cudaStreamDefault : cudaStreamNonBlocking), "cudaStreamCreate"); return s; }
static void del_stream(Stream s) { ok(cudaStreamDestroy(s), "cudaStreamDestroy"); }
static void sync_stream(Stream s) { ok(cudaStreamSynchronize(s), "cudaStreamSynchronize"); }
static void *dev_alloc(size_t n, Stream) { void *d = nullptr; ok(cudaMalloc(&d, n), "cudaMalloc"); return d; }
static void dev_free(void *p, Stream) { ok(cudaFree(p), "cudaFree"); }
static void to_dev(void *d, const void *h, size_t n, Stream s) { ok(cudaMemcpyAsync(d, h, n, cudaMemcpyHostToDevice, s), "a copy to the device"); }
static void to_host(void *h, const void *d, size_t n, Stream s) { if (s) ok(cudaMemcpyAsync(h, d, n, cudaMemcpyDeviceToHost, s), "a copy from the device"); else ok(cudaMemcpy(h, d, n, cudaMemcpyDeviceToHost), "a copy from the device"); }
static void no_error() { if (cudaPeekAtLastError() != cudaSuccess) sim_violation(C_GPU, "process %d: a transform leaves an error of the device behind: %s", sim_rank(), cudaGetErrorString(cudaGetLastError())); }
#endif
#ifdef SIM_SYCL
static void synced(sycl::queue &s) { s.wait(); }
#define STREAM_ARG std::ref(*sim_stream)
#else
static void synced(Stream s) { cudaStreamSynchronize(s); }
#define STREAM_ARG sim_stream
#endif
template<class T> struct Deliver<heffte::gpu::vector<T>> { static void go(heffte::gpu::vector<T> const &v, void *out, long long n) {
    LibCall lc(-1, "a download"); std::vector<T> h = heffte::gpu::transfer::unload(v); synced(v.device_stream()); memcpy(out, h.data(), sizeof(T) * (size_t)n); } };
template<class T> struct DevFill { static heffte::gpu::vector<T> make(const void *in, long long n, int more) { std::vector<T> v((T const *)in, (T const *)in + n); grow(v, more); LibCall lc(-1, "an upload"); return heffte::gpu::transfer::load(STREAM_ARG, v.data(), v.size()); } };
template<class T> struct Fill<GFft, T> : DevFill<T> {};
template<class T> struct Fill<GCos, T> : DevFill<T> {};
template<class T> struct Fill<GSin, T> : DevFill<T> {};
#ifndef SIM_SYCL
template<class T> struct Fill<GCos1, T> : DevFill<T> {};
#endif
struct DevPlan : PlanObj {
    std::unique_ptr<PlanObj> p; SPlan s; int me = 0; Stream st = nullptr; bool own = false; std::vector<void *> keep;
    long long nin() override { return p->nin(); }
    long long nout() override { return p->nout(); }
    long long nwork() override { return p->nwork(); }
    double full_factor() override { return p->full_factor(); }
    bool boxes(SBox &a, SBox &b) override { return p->boxes(a, b); }
    bool move() override { return p->move(); }
    bool move_assign(PlanObj *o) override { auto *d = dynamic_cast<DevPlan *>(o); if (!d || d->st != st || own || d->own || !p->move_assign(d->p.get())) return false; s = d->s; return true; }
    void drop() { if (keep.empty()) return;
#ifdef SIM_SYCL
        sync_stream(st); // the release of an array does not wait
#endif
        for (void *d : keep) dev_free(d, st); keep.clear(); }
    ~DevPlan() override { p.reset(); int n = sim_in_lib(); if (n) sim_lib_leave(); drop(); if (own) del_stream(st); if (n) sim_lib_enter(-1, "the destruction of a plan"); }
    size_t esize(SOp const &o, bool inside) const {
        if (s.type == PT_RESHAPE) return o.prec == 0 ? 4 : o.prec == 3 ? 16 : 8;
        size_t r = o.prec ? 8 : 4; bool real = s.type == PT_C2C ? inside && o.real : s.type == PT_R2C ? inside : true; return real ? r : 2 * r;
    }
    void *array(size_t n, const void *from) { void *d = dev_alloc(n, st); if (d) keep.push_back(d); if (n && from) to_dev(d, from, n, st); return d; }
    void exec(SOp const &o, const void *in, void *out, void *ws) override {
        sim_stream = st; long long ni = s.in[me].count(), no = s.out[me].count(); int nb = (o.form == 2 || o.form == 3 || s.type == PT_RESHAPE) ? o.batch : 1; bool f = o.dir == 0;
        size_t bin = (size_t)(f ? ni : no) * esize(o, f) * nb, bout = (size_t)(f ? no : ni) * esize(o, !f) * nb, wz = s.type == PT_RESHAPE ? esize(o, true) : (o.prec ? 8 : 4) * (s.type <= PT_R2C ? 2 : 1);
        if (keep.size() > 12 || (o.seed & 64)) drop(); // the arrays of earlier calls
        void *di, *dout, *dw = nullptr;
        if (in == out) { di = dout = array(std::max(bin, bout), nullptr); if (bin) to_dev(di, in, bin, st); }
        else { di = array(bin, in); dout = array(bout, nullptr); }
        if (ws) dw = array((size_t)nwork() * nb * wz, ws);
        p->exec(o, di, dout, dw);
        if (bout) to_host(out, dout, bout, st);
        if (st && (o.seed & 128)) sync_stream(st);
        if (in != out && bin) { std::vector<char> back(bin); to_host(back.data(), di, bin, st); sync_stream(st); if (memcmp(back.data(), in, bin)) sim_violation(C_INPUT, "process %d: the input array on the device is changed by %s", sim_rank(), f ? "forward" : "backward"); }
        no_error();
    }
    long long exec_vec(SOp const &o, const void *in, long long n, void *out, long long cap) override { sim_stream = st; return p->exec_vec(o, in, n, out, cap); }
};
template<class I> static PlanObj *make(SPlan const &s, SBox const &in, SBox const &out, MPI_Comm comm, MPI_Comm sub) {
    switch (s.type) {
    case PT_C2C: return make_c2c<GFft, I>(s, in, out, comm, sub);
    case PT_R2C: return make_r2c<GFft, I>(s, in, out, comm, sub);
    case PT_COS: return make_real<GCos, I>(s, in, out, comm, sub);
    case PT_SIN: return make_real<GSin, I>(s, in, out, comm, sub);
#ifndef SIM_SYCL
    case PT_COS1: return make_real<GCos1, I>(s, in, out, comm, sub);
#endif
    }
    return nullptr;
}
#ifdef SIM_SYCL
static const bool SYCL = true; // the C interface has no backend for oneAPI
#else
static const bool SYCL = false;
#endif
PlanObj *make_dev(SPlan const &s, SBox const &in, SBox const &out, int me, MPI_Comm comm, MPI_Comm sub) {
    static std::map<std::pair<int, int>, Stream> shared; std::unique_ptr<DevPlan> d(new DevPlan); d->s = s; d->me = me;
#ifdef SIM_SYCL
    d->st = &heffte::oapi::internal_sycl_queue;
#endif
    if (s.gstream == 1 || s.gstream == 2) { auto &x = shared[{sim_rank(), s.gstream}]; if (!x) x = new_stream(s.gstream); d->st = x; }
    else if (s.gstream) { d->st = new_stream(s.gstream); d->own = true; }
    sim_stream = d->st;
    if (s.type == PT_RESHAPE) d->p.reset(make_reshape(s, comm, me)); else if (s.capi == 1 && !SYCL) d->p.reset(make_capi(s, in, out, comm));
    else d->p.reset(s.idx64 ? make<long long>(s, in, out, comm, sub) : make<int>(s, in, out, comm, sub));
    if (!d->p) { if (d->own) del_stream(d->st); return nullptr; }
    return d.release();
}
