// pybind11 stand-in: arrays with NumPy's memory rules, an interpreter lock the scheduler can see, a function registry.
// Every access to a Python object checks that the calling thread holds the interpreter lock.
#pragma once
#include <any>
#include <complex>
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <pthread.h>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>

namespace pysim {
void need_gil(char const* what);  // violation if the running thread does not hold it
void gil_acquire();
void gil_release();

struct Object
{
    std::vector<std::ptrdiff_t> shape, strides;  // strides in bytes
    std::vector<unsigned char> memory;           // owned
    unsigned char* data{};                       // first element (may lie inside another object's memory)
    std::shared_ptr<Object> base;
    std::size_t itemsize{};
    bool writeable{true};
};
inline std::map<std::string, std::vector<std::any>>& registry()
{
    static std::map<std::string, std::vector<std::any>> r;
    return r;
}
}  // namespace pysim

namespace pybind11 {
using ssize_t = std::ptrdiff_t;

struct object
{
    object() = default;
    std::shared_ptr<pysim::Object> p;
    object(object const& o)
    {
        pysim::need_gil("reference count");
        p = o.p;
    }
    object(object&& o) noexcept : p{std::move(o.p)} {}
    object& operator=(object const& o)
    {
        pysim::need_gil("reference count");
        p = o.p;
        return *this;
    }
    object& operator=(object&& o) noexcept
    {
        if (p) {
            pysim::need_gil("reference count");
        }
        p = std::move(o.p);
        return *this;
    }
    ~object()
    {
        if (p) {
            pysim::need_gil("reference count");
        }
    }
};

struct array : object
{
    enum
    {
        c_style   = 0x0001,
        f_style   = 0x0002,
        forcecast = 0x0010
    };
    [[nodiscard]] ssize_t ndim() const
    {
        pysim::need_gil("ndim");
        return static_cast<ssize_t>(p->shape.size());
    }
    [[nodiscard]] ssize_t size() const
    {
        pysim::need_gil("size");
        ssize_t n = 1;
        for (auto s : p->shape) {
            n *= s;
        }
        return n;
    }
    [[nodiscard]] ssize_t itemsize() const
    {
        pysim::need_gil("itemsize");
        return static_cast<ssize_t>(p->itemsize);
    }
    [[nodiscard]] ssize_t shape(ssize_t i) const
    {
        pysim::need_gil("shape");
        if (i < 0 or i >= static_cast<ssize_t>(p->shape.size())) {
            throw std::out_of_range("IndexError: invalid axis");
        }
        return p->shape[static_cast<std::size_t>(i)];
    }
    [[nodiscard]] ssize_t strides(ssize_t i) const
    {
        pysim::need_gil("strides");
        if (i < 0 or i >= static_cast<ssize_t>(p->strides.size())) {
            throw std::out_of_range("IndexError: invalid axis");
        }
        return p->strides[static_cast<std::size_t>(i)];
    }
    [[nodiscard]] ssize_t const* shape() const
    {
        pysim::need_gil("shape");
        return p->shape.data();
    }
    [[nodiscard]] ssize_t const* strides() const
    {
        pysim::need_gil("strides");
        return p->strides.data();
    }
    [[nodiscard]] ssize_t nbytes() const { return size() * itemsize(); }
    [[nodiscard]] bool writeable() const
    {
        pysim::need_gil("writeable");
        return p->writeable;
    }
    [[nodiscard]] int flags() const
    {
        pysim::need_gil("flags");
        // NumPy: dimensions of length 1 do not matter, an empty array is contiguous both ways
        auto contiguous = [this](bool c) {
            for (auto s : p->shape) {
                if (s == 0) {
                    return true;
                }
            }
            auto expect = static_cast<ssize_t>(p->itemsize);
            auto const n = p->shape.size();
            for (std::size_t k = 0; k < n; ++k) {
                auto const i = c ? n - 1 - k : k;
                if (p->shape[i] == 1) {
                    continue;
                }
                if (p->strides[i] != expect) {
                    return false;
                }
                expect *= p->shape[i];
            }
            return true;
        };
        return (contiguous(true) ? c_style : 0) | (contiguous(false) ? f_style : 0);
    }
};

struct buffer_info
{
    void* ptr;
    ssize_t itemsize, size, ndim;
    std::vector<ssize_t> shape, strides;
};
struct builtin_exception : std::runtime_error
{
    using std::runtime_error::runtime_error;
};
struct value_error : builtin_exception
{
    using builtin_exception::builtin_exception;
};
struct type_error : builtin_exception
{
    using builtin_exception::builtin_exception;
};
struct index_error : builtin_exception
{
    using builtin_exception::builtin_exception;
};
struct none
{};
enum class return_value_policy
{
    automatic,
    automatic_reference,
    take_ownership,
    copy,
    move,
    reference,
    reference_internal
};

template<typename T, int ExtraFlags = array::forcecast>
struct array_t : array
{
    array_t() = default;
    explicit array_t(ssize_t n)
    {
        pysim::need_gil("array creation");
        if (n < 0) {
            throw std::runtime_error("ValueError: negative dimensions are not allowed");
        }
        if (n > (ssize_t(1) << 26)) {
            throw std::runtime_error("MemoryError: Unable to allocate array");
        }
        p           = std::make_shared<pysim::Object>();
        p->itemsize = sizeof(T);
        p->shape    = {n};
        p->strides  = {static_cast<ssize_t>(sizeof(T))};
        p->memory.assign(static_cast<std::size_t>(n) * sizeof(T), 0x7f);  // uninitialised
        p->memory.shrink_to_fit();
        p->data = p->memory.data();
    }
    [[nodiscard]] T* mutable_data()
    {
        pysim::need_gil("data");
        if (not p->writeable) {
            throw std::domain_error("array is not writeable");
        }
        return reinterpret_cast<T*>(p->data);
    }
    template<typename... I>
    [[nodiscard]] T const& at(I... i) const
    {
        return *reinterpret_cast<T const*>(address(i...));
    }
    template<typename... I>
    [[nodiscard]] T& mutable_at(I... i)
    {
        return *reinterpret_cast<T*>(address(i...));
    }
    [[nodiscard]] unsigned char* address(ssize_t i) const
    {
        pysim::need_gil("element");
        if (p->shape.size() != 1 or i < 0 or i >= p->shape[0]) {
            throw std::out_of_range("IndexError: index out of bounds");
        }
        return p->data + i * p->strides[0];
    }
    [[nodiscard]] T const* data() const
    {
        pysim::need_gil("data");
        return reinterpret_cast<T const*>(p->data);
    }
    [[nodiscard]] T const* data(ssize_t i) const { return reinterpret_cast<T const*>(address(i)); }
    [[nodiscard]] T* mutable_data(ssize_t i) { return reinterpret_cast<T*>(address(i)); }
    array_t(ssize_t n, T const* src) : array_t(n)
    {
        if (src != nullptr) {
            std::memcpy(p->data, src, static_cast<std::size_t>(n) * sizeof(T));
        }
    }
    explicit array_t(std::vector<ssize_t> const& shape) : array_t(shape.size() == 1 ? shape[0] : throw std::runtime_error("ValueError: dimensions")) {}
    // unchecked access: plain memory, may be used without the lock
    template<typename U>
    struct proxy
    {
        unsigned char* d;
        ssize_t step, n;
        U& operator()(ssize_t i) const { return *reinterpret_cast<U*>(d + i * step); }
        U& operator[](ssize_t i) const { return (*this)(i); }
        [[nodiscard]] ssize_t size() const { return n; }
        [[nodiscard]] ssize_t shape(ssize_t) const { return n; }
        [[nodiscard]] ssize_t ndim() const { return 1; }
    };
    template<ssize_t Dims = 1>
    [[nodiscard]] proxy<T const> unchecked() const
    {
        if (ndim() != 1) {
            throw std::domain_error("array has incorrect number of dimensions");
        }
        return {p->data, p->strides[0], p->shape[0]};
    }
    template<ssize_t Dims = 1>
    [[nodiscard]] proxy<T> mutable_unchecked()
    {
        (void)mutable_data();
        if (ndim() != 1) {
            throw std::domain_error("array has incorrect number of dimensions");
        }
        return {p->data, p->strides[0], p->shape[0]};
    }
    [[nodiscard]] buffer_info request(bool writable = false) const
    {
        pysim::need_gil("buffer");
        if (writable and not p->writeable) {
            throw std::domain_error("array is not writeable");
        }
        return {p->data, static_cast<ssize_t>(p->itemsize), size(), ndim(), p->shape, p->strides};
    }
};

struct gil_scoped_release
{
    explicit gil_scoped_release(bool = false) { pysim::gil_release(); }
    gil_scoped_release(gil_scoped_release const&)            = delete;
    gil_scoped_release& operator=(gil_scoped_release const&) = delete;
    ~gil_scoped_release() { pysim::gil_acquire(); }
};
struct gil_scoped_acquire
{
    gil_scoped_acquire() { pysim::gil_acquire(); }
    ~gil_scoped_acquire() { pysim::gil_release(); }
};

struct vectorized
{};
template<typename R, typename... A>
vectorized vectorize(R (*)(A...))
{
    return {};
}
template<typename F>
vectorized vectorize(F const&)
{
    return {};
}
struct attr_ref
{
    template<typename T>
    attr_ref& operator=(T const&)
    {
        return *this;
    }
};
// argument conversion, as pybind11's casters do it: references and layout flags of a parameter do not change who may call
template<typename T>
struct plain
{
    using type = std::remove_cvref_t<T>;
    static type& to(type& v) { return v; }
};
template<typename T, int Flags>
struct plain_array
{
    using type = array_t<T>;
    static array_t<T, Flags> to(array_t<T>& v)
    {
        array_t<T, Flags> r;
        if ((Flags & array::c_style) != 0 and (v.flags() & array::c_style) == 0 and v.ndim() == 1) {
            array_t<T, Flags> c(v.size());
            for (ssize_t i = 0; i < v.size(); ++i) {
                std::memcpy(c.p->data + i * static_cast<ssize_t>(sizeof(T)), v.p->data + i * v.p->strides[0], sizeof(T));
            }
            return c;
        }
        r.p = v.p;
        return r;
    }
};
template<typename T, int F>
struct plain<array_t<T, F>> : plain_array<T, F>
{};
template<typename T, int F>
struct plain<array_t<T, F> const&> : plain_array<T, F>
{};
template<typename T, int F>
struct plain<array_t<T, F>&&> : plain_array<T, F>
{};
template<typename T, int F>
struct plain<array_t<T, F> const> : plain_array<T, F>
{};
template<typename T, int F>
struct plain<array_t<T, F>&> : plain_array<T, F>
{};

template<typename... G>
struct call_guard
{};
template<typename F, typename... A>
auto guarded(bool unlocked, F const& f, A&&... a)
{
    if (unlocked) {
        gil_scoped_release const r;
        return f(std::forward<A>(a)...);
    }
    return f(std::forward<A>(a)...);
}

struct module_
{
    template<typename R, typename F, typename... A>
    void put(char const* name, F f, bool unlocked = false)
    {
        pysim::registry()[name].push_back(std::any(std::function<typename plain<R>::type(typename plain<A>::type...)>(
            [f, unlocked](typename plain<A>::type... a) -> typename plain<R>::type {
                auto r = guarded(unlocked, f, plain<A>::to(a)...);
                typename plain<R>::type out;
                if constexpr (requires { out.p = r.p; }) {
                    out.p = std::move(r.p);
                } else {
                    out = std::move(r);
                }
                return out;
            })));
    }
    template<typename R, typename... A, typename... Extra>
    module_& def(char const* name, R (*f)(A...), Extra const&...)
    {
        put<R, R (*)(A...), A...>(name, f, (std::is_same_v<Extra, call_guard<gil_scoped_release>> or ...));
        return *this;
    }
    template<typename... Extra>
    module_& def(char const*, vectorized, Extra const&...)
    {
        return *this;
    }
    template<typename F, typename... Extra>
        requires requires { &F::operator(); }
    module_& def(char const* name, F f, Extra const&...)
    {
        def_lambda(name, f, &F::operator(), (std::is_same_v<Extra, call_guard<gil_scoped_release>> or ...));
        return *this;
    }
    template<typename F, typename R, typename... A>
    void def_lambda(char const* name, F f, R (F::*)(A...) const, bool unlocked)
    {
        put<R, F, A...>(name, f, unlocked);
    }
    template<typename F, typename R, typename... A>
    void def_lambda(char const* name, F f, R (F::*)(A...) const noexcept, bool unlocked)
    {
        put<R, F, A...>(name, f, unlocked);
    }
    attr_ref attr(char const*) { return {}; }
    module_ def_submodule(char const*, ...) { return {}; }
    char const*& doc()
    {
        static char const* d = nullptr;
        return d;
    }
};
struct arg
{
    explicit arg(char const*) {}
    template<typename T>
    arg& operator=(T const&)
    {
        return *this;
    }
};
namespace literals {
inline arg operator""_a(char const* s, std::size_t) { return arg{s}; }
}  // namespace literals
struct options
{};
template<typename T>
struct enum_
{
    template<typename... A>
    enum_(module_&, char const*, A const&...)
    {}
    template<typename... A>
    enum_& value(char const*, T, A const&...)
    {
        return *this;
    }
};
}  // namespace pybind11
#define PYBIND11_MODULE(name, var, ...) void pysim_module_init(pybind11::module_& var)
