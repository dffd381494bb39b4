// Stand-in for pybind11 used only when the extension sources are compiled to LLVM IR for symbolic execution.
// Arrays are plain descriptors; every bound function is registered under its Python name with a uniform caller.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>
typedef long ssize_t_;
namespace pybind11 {
struct object { };
struct arr_desc { void *ptr; long nd; long shape[6]; long flags; long writeable; long dtype; };
template <typename T> struct dtype_of;
#define D_(T, n) template <> struct dtype_of<T> { static constexpr long v = n; };
D_(int8_t, 1) D_(uint8_t, 2) D_(int16_t, 3) D_(uint16_t, 4) D_(int32_t, 5) D_(uint32_t, 6) D_(int64_t, 7) D_(uint64_t, 8) D_(float, 9) D_(double, 10) D_(bool, 11)
#undef D_
struct array : object {
    enum { c_style = 1, f_style = 2, forcecast = 16 };
    arr_desc d{};
    array() {}
    explicit array(const arr_desc &x) : d(x) {}
    ssize_t_ ndim() const { return d.nd; }
    ssize_t_ shape(long i) const { return d.shape[i]; }
    const long *shape() const { return d.shape; }
    ssize_t_ size() const { long n = 1; for (long i = 0; i < d.nd; i++) n *= d.shape[i]; return n; }
    int flags() const { return (int)d.flags; }
    bool writeable() const { return d.writeable != 0; }
};
[[noreturn]] inline void bad_dims() { throw std::domain_error("array has incorrect number of dimensions"); }
template <typename T, long N> struct view_ {
    T *p; long s[N > 0 ? N : 1];
    ssize_t_ shape(long i) const { return s[i]; }
    ssize_t_ size() const { long n = 1; for (long i = 0; i < N; i++) n *= s[i]; return n; }
    static constexpr ssize_t_ ndim() { return N; }
    template <typename... I> long at(I... i) const { long ix[] = {(long)i...}; long o = 0; for (long k = 0; k < N; k++) o = o * s[k] + ix[k]; return o; }
    template <typename... I> T &operator()(I... i) const { static_assert(sizeof...(I) == N, "dims"); return p[at(i...)]; }
    T &operator[](long i) const { return p[i]; }
    template <typename... I> T *data(I... i) const { return p + at(i...); }
    template <typename... I> T *mutable_data(I... i) const { return p + at(i...); }
};
template <typename T, int F = array::forcecast> struct array_t : array {
    typedef T value_type;
    array_t() { alloc(0); }
    explicit array_t(const arr_desc &x) : array(x) {}
    template <typename N, typename = std::enable_if_t<std::is_integral_v<N>>> array_t(N n) { alloc((long)n); }
    void alloc(long n) { d.nd = 1; d.shape[0] = n; d.flags = 1; d.writeable = 1; d.dtype = dtype_of<T>::v; d.ptr = ::operator new(n * sizeof(T) + 1); }
    T *mutable_data() { return (T *)d.ptr; }
    const T *data() const { return (const T *)d.ptr; }
    template <typename... I> const T *data(I... i) const { long ix[] = {(long)i...}; long o = 0; for (size_t k = 0; k < sizeof...(I); k++) o = o * d.shape[k] + ix[k]; return (const T *)d.ptr + o; }
    template <typename... I> T &mutable_at(I... i) { long ix[] = {(long)i...}; long o = 0; for (size_t k = 0; k < sizeof...(I); k++) o = o * d.shape[k] + ix[k]; return ((T *)d.ptr)[o]; }
    template <typename... I> const T &at(I... i) const { return *data(i...); }
    template <long N> view_<const T, N> unchecked() const { if (d.nd != N) bad_dims(); view_<const T, N> v; v.p = (const T *)d.ptr; for (long i = 0; i < N; i++) v.s[i] = d.shape[i]; return v; }
    template <long N> view_<T, N> mutable_unchecked() { if (d.nd != N) bad_dims(); view_<T, N> v; v.p = (T *)d.ptr; for (long i = 0; i < N; i++) v.s[i] = d.shape[i]; return v; }
    static bool is(const array &a) { return a.d.dtype == dtype_of<T>::v; }
};
template <typename A> bool isinstance(const array &a) { return A::is(a); }
template <typename A> A reinterpret_borrow(const array &a) { return A(a.d); }
struct gil_scoped_release { gil_scoped_release() {} ~gil_scoped_release() {} };
struct gil_scoped_acquire { gil_scoped_acquire() {} ~gil_scoped_acquire() {} };

// ---- uniform calling ----
struct slot { uint64_t i; arr_desc a; };
template <typename A, typename = void> struct conv;
template <typename A> struct conv<A, std::enable_if_t<std::is_integral_v<A>>> {
    static A in(slot &s) { return (A)s.i; }
    static void out(slot &s, A v) { s.i = (uint64_t)v; }
};
template <typename A> struct conv<A, std::enable_if_t<std::is_base_of_v<array, A>>> {
    static A in(slot &s) { return A(s.a); }
    static void out(slot &s, const A &v) { s.a = v.d; }
};
typedef void (*caller_t)(void *fn, void *self, slot *args, slot *ret);
// kinds: integers 100 + dtype code; py::array 0; py::array_t<T, F> 1000 + 100 * F + dtype code
template <typename A, typename = void> struct kind;
template <typename A> struct kind<A, std::enable_if_t<std::is_integral_v<A>>> { static constexpr long v = std::is_same_v<A, bool> ? 111 : sizeof(A) == 1 ? (std::is_signed_v<A> ? 101 : 102) : sizeof(A) == 2 ? (std::is_signed_v<A> ? 103 : 104) : sizeof(A) == 4 ? (std::is_signed_v<A> ? 105 : 106) : (std::is_signed_v<A> ? 107 : 108); };
template <> struct kind<array> { static constexpr long v = 0; };
template <> struct kind<void> { static constexpr long v = -1; };
template <typename T, int F> struct kind<array_t<T, F>> { static constexpr long v = 1000 + 100 * F + dtype_of<T>::v; };
struct entry { const char *name; caller_t call; void *fn; long nargs; entry *next; long ret; long kinds[8]; const char *argn[8]; long has_def[8]; long def[8]; };
inline entry *g_registry = nullptr;
template <typename R, typename... A> entry *add_entry(const char *name, caller_t c, void *fn) {
    static_assert(sizeof...(A) <= 8, "args");
    entry *e = new entry{};
    e->name = name; e->call = c; e->fn = fn; e->nargs = sizeof...(A); e->next = g_registry; e->ret = kind<std::decay_t<R>>::v;
    long ks[] = {kind<std::decay_t<A>>::v..., 0};
    for (size_t i = 0; i < sizeof...(A); i++) e->kinds[i] = ks[i];
    g_registry = e;
    return e;
}
struct arg { const char *n; long has = 0; long v = 0; arg(const char *x) : n(x) {} template <typename V> arg &operator=(V x) { has = 1; v = (long)x; return *this; } arg &noconvert() { return *this; } arg &none(bool = true) { return *this; } };
inline void note_arg(entry *e, int &k, const arg &a) { e->argn[k] = a.n; e->has_def[k] = a.has; e->def[k] = a.v; k++; }
template <typename X> inline void note_arg(entry *, int &, const X &) {}
template <typename... X> void note_args(entry *e, X &&...x) { int k = 0; (note_arg(e, k, x), ...); (void)k; }
template <typename R, typename... A> struct free_caller {
    template <size_t... I> static void go(R (*f)(A...), slot *a, slot *r, std::index_sequence<I...>) {
        if constexpr (std::is_void_v<R>) f(conv<std::decay_t<A>>::in(a[I])...);
        else conv<std::decay_t<R>>::out(*r, f(conv<std::decay_t<A>>::in(a[I])...));
    }
};
template <typename T, typename M, typename R, typename... A> struct mem_caller {
    template <size_t... I> static void go(T *t, M f, slot *a, slot *r, std::index_sequence<I...>) {
        if constexpr (std::is_void_v<R>) (t->*f)(conv<std::decay_t<A>>::in(a[I])...);
        else conv<std::decay_t<R>>::out(*r, (t->*f)(conv<std::decay_t<A>>::in(a[I])...));
    }
};
template <typename T, typename M, typename R, typename... A> entry *bind_mem(const char *name, M f) {
    M *h = new M(f);
    return add_entry<R, A...>(name, [](void *fn, void *self, slot *a, slot *r) { mem_caller<T, M, R, A...>::go((T *)self, *(M *)fn, a, r, std::index_sequence_for<A...>{}); }, h);
}
template <typename R, typename... A> entry *bind_free(const char *name, R (*f)(A...)) {
    return add_entry<R, A...>(name, [](void *fn, void *, slot *a, slot *r) { free_caller<R, A...>::go((R(*)(A...))fn, a, r, std::index_sequence_for<A...>{}); }, (void *)f);
}
template <typename F> struct lambda_sig;
template <typename C, typename R, typename... A> struct lambda_sig<R (C::*)(A...) const> { typedef R (*type)(A...); };
namespace literals { inline arg operator""_a(const char *n, size_t) { return arg{n}; } }
template <typename R, typename... A> struct call_guard { };
struct doc_ { doc_ &operator=(const char *) { return *this; } };
struct module_ {
    struct dd { template <typename V> dd &operator=(V &&) { return *this; } dd operator()() { return *this; } } doc;

    template <typename R, typename... A, typename... X> module_ &def(const char *n, R (*f)(A...), X &&...x) { note_args(bind_free<R, A...>(n, f), x...); return *this; }
    template <typename F, typename = std::enable_if_t<std::is_class_v<std::decay_t<F>>>, typename... X> module_ &def(const char *n, F f, X &&...x) { return def(n, (typename lambda_sig<decltype(&F::operator())>::type)f, x...); }
};
template <typename... A> struct init { };
template <typename T, typename... A> struct init_caller {
    template <size_t... I> static void go(slot *a, slot *r, std::index_sequence<I...>) { r->i = (uint64_t)(uintptr_t) new T(conv<std::decay_t<A>>::in(a[I])...); }
};
template <typename T, typename... O> struct class_ {
    class_(module_ &, const char *) {}
    template <typename... A, typename... X> class_ &def(init<A...>, X &&...x) {
        note_args(add_entry<void, A...>("__init__", [](void *, void *, slot *a, slot *r) { init_caller<T, A...>::go(a, r, std::index_sequence_for<A...>{}); }, nullptr), x...);
        return *this;
    }
    template <typename C, typename R, typename... A, typename... X> class_ &def(const char *n, R (C::*f)(A...), X &&...x) { note_args(bind_mem<T, R (C::*)(A...), R, A...>(n, f), x...); return *this; }
    template <typename C, typename R, typename... A, typename... X> class_ &def(const char *n, R (C::*f)(A...) const, X &&...x) { note_args(bind_mem<T, R (C::*)(A...) const, R, A...>(n, f), x...); return *this; }
    template <typename C, typename R, typename... X> class_ &def_property_readonly(const char *n, R (C::*f)() const, X &&...) { bind_mem<T, R (C::*)() const, R>(n, f)->ret += 100000; return *this; }
    template <typename C, typename V, typename... X> class_ &def_readonly(const char *n, V C::*f, X &&...) {
        typedef V C::*M; M *h = new M(f);
        add_entry<V>(n, [](void *fn, void *self, slot *, slot *r) { conv<V>::out(*r, ((T *)self)->*(*(M *)fn)); }, h)->ret += 100000;
        return *this;
    }
};
typedef std::invalid_argument value_error;
}  // namespace pybind11
namespace py_stub_ns = pybind11;
#define PYBIND11_MODULE(name, var, ...) static void symx_module_body(::pybind11::module_ &var); \
    extern "C" void symx_init() { ::pybind11::module_ m_; symx_module_body(m_); } \
    extern "C" ::pybind11::entry *symx_registry() { return ::pybind11::g_registry; } \
    static void symx_module_body(::pybind11::module_ &var)
