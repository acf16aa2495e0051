/* The part of SYCL that the library uses, on the device of the simulator: a queue is out of order unless made otherwise. */
#ifndef SIM_SYCL_HPP
#define SIM_SYCL_HPP
#include "../sim_sycl.h"
#include <complex>
#include <functional>
#include <memory>
#include <stdexcept>
#include <type_traits>
#include <utility>
#include <vector>
namespace sycl {
struct exception : std::runtime_error { using std::runtime_error::runtime_error; };
struct gpu_selector_t {}; struct cpu_selector_t {}; struct default_selector_t {};
static const gpu_selector_t gpu_selector_v{}; static const cpu_selector_t cpu_selector_v{}; static const default_selector_t default_selector_v{};
namespace property { namespace queue { struct in_order {}; } }
struct property_list { bool inorder = false; property_list() {} property_list(property::queue::in_order) : inorder(true) {} };
template<int D> struct range { size_t v[D]; template<class... T> range(T... t) : v{static_cast<size_t>(t)...} { static_assert(sizeof...(T) == D, "range"); } size_t operator[](int i) const { return v[i]; } size_t size() const { size_t s = 1; for (int i = 0; i < D; i++) s *= v[i]; return s; } };
template<int D> struct id { size_t v[D]; size_t operator[](int i) const { return v[i]; } };
template<> struct id<1> { size_t v[1]; size_t operator[](int i) const { return v[i]; } operator size_t() const { return v[0]; } };
template<int D> struct item { id<D> i; id<D> get_id() const { return i; } size_t get_id(int k) const { return i[k]; } size_t operator[](int k) const { return i[k]; } operator id<D>() const { return i; } };
class event { public: uint64_t e = 0; void wait() const { sim_sycl_wait_event(e); } void wait_and_throw() const { wait(); } static void wait(std::vector<event> const &l) { for (auto const &x : l) x.wait(); } };
class queue;
namespace sim { inline std::vector<uint64_t> ids(std::vector<event> const &l) { std::vector<uint64_t> r; for (auto const &x : l) if (x.e) r.push_back(x.e); return r; }
template<class F, int D> struct Clo { F f; range<D> r; Clo(F const &g, range<D> const &q) : f(g), r(q) {} template<class G> static auto call(G &f, id<D> const &i, int) -> decltype(f(i), void()) { f(i); } template<class G> static auto call(G &f, id<D> const &i, long) -> decltype(f(item<D>{i}), void()) { f(item<D>{i}); }
    static void body(void *p, uint64_t x) { Clo *c = (Clo *)p; id<D> i; for (int k = D; k-- > 0;) { i.v[k] = x % c->r.v[k]; x /= c->r.v[k]; } call(c->f, i, 0); } static void drop(void *p) { delete (Clo *)p; } }; }
class handler {
    friend class queue; uint64_t q; bool inorder, used = false; std::vector<event> deps; event ev; handler(uint64_t a, bool b) : q(a), inorder(b) {}
public:
    void depends_on(event e) { deps.push_back(e); }
    void depends_on(std::vector<event> const &e) { deps.insert(deps.end(), e.begin(), e.end()); }
    void once() { if (used) sim_sycl_bad("a command group has two commands"); used = true; }
    template<class Name = void, int D, class F> void parallel_for(range<D> r, F const &f) { once(); auto d = sim::ids(deps); typedef sim::Clo<F, D> C; C *c = new C(f, r); ev.e = sim_sycl_kernel(q, inorder, d.data(), d.size(), r.size(), C::body, c, sizeof(F), C::drop); }
    template<class Name = void, class F> void single_task(F const &f) { auto g = [f](id<1>) { f(); }; parallel_for<Name>(range<1>{(size_t)1}, g); }
    void memcpy(void *d, const void *s, size_t n) { once(); auto l = sim::ids(deps); ev.e = sim_sycl_copy(q, inorder, l.data(), l.size(), d, s, n); }
};
class queue {
    struct State { uint64_t id; bool inorder; }; std::shared_ptr<State> s; static uint64_t next() { static uint64_t n = 0; return ++n; }
public:
    explicit queue(property_list const &p = {}) : s(new State{next(), p.inorder}) {}
    template<class Sel, class = typename std::enable_if<std::is_same<Sel, gpu_selector_t>::value || std::is_same<Sel, cpu_selector_t>::value || std::is_same<Sel, default_selector_t>::value>::type> explicit queue(Sel const &, property_list const &p = {}) : s(new State{next(), p.inorder}) {}
    uint64_t sim_id() const { return s->id; } bool is_in_order() const { return s->inorder; }
    bool operator==(queue const &o) const { return s == o.s; } bool operator!=(queue const &o) const { return s != o.s; }
    template<class F> event submit(F &&f) { handler h(s->id, s->inorder); f(h); return h.ev; }
    template<class Name = void, int D, class F> event parallel_for(range<D> r, F const &f) { return submit([&](handler &h) { h.template parallel_for<Name>(r, f); }); }
    template<class Name = void, int D, class F> event parallel_for(range<D> r, std::vector<event> const &e, F const &f) { return submit([&](handler &h) { h.depends_on(e); h.template parallel_for<Name>(r, f); }); }
    event memcpy(void *d, const void *a, size_t n) { return submit([&](handler &h) { h.memcpy(d, a, n); }); }
    event memcpy(void *d, const void *a, size_t n, event e) { return submit([&](handler &h) { h.depends_on(e); h.memcpy(d, a, n); }); }
    event memcpy(void *d, const void *a, size_t n, std::vector<event> const &e) { return submit([&](handler &h) { h.depends_on(e); h.memcpy(d, a, n); }); }
    template<class T> event copy(const T *a, T *d, size_t n) { return memcpy(d, a, n * sizeof(T)); }
    template<class T> event fill(void *p, T const &v, size_t n) { T *t = (T *)p; return parallel_for(range<1>{n}, [=](id<1> i) { t[i[0]] = v; }); }
    void wait() { sim_sycl_wait_queue(s->id); } void wait_and_throw() { wait(); } void throw_asynchronous() {}
};
template<class T> T *malloc_device(size_t n, queue const &) { return (T *)sim_sycl_malloc(n * sizeof(T)); }
inline void free(void *p, queue const &) { sim_sycl_free(p); }
}
#endif
