// Objects of neo other than the streaming engines: transform plans, convolvers, overlap stages, delay lines,
// sparse matrices, short-time transforms.  Each wrapper owns one library object and the reference model of it.
#pragma once
#include "ref.hpp"

#include <map>
#include <memory>
#include <string>
#include <type_traits>
#include <vector>

struct IXf
{
    virtual ~IXf()                                  = default;
    virtual void call(sim::Op const& op)            = 0;  // performs one operation and checks it against the model
    virtual std::unique_ptr<IXf> clone() const      = 0;
    virtual std::unique_ptr<IXf> take()             = 0;
    virtual void assign(IXf const& o)               = 0;
    virtual void assign_move(IXf& o)                = 0;
    virtual bool allocates() const { return false; }  // call() may allocate
    bool noalloc{false};  // the run exhausts the heap while calling
};

struct XfInfo
{
    char const* name;
    std::unique_ptr<IXf> (*make)(sim::Op const& op);  // x.new slot kind a b c d
};
std::vector<XfInfo>& xf_kinds();
struct XfReg
{
    XfReg(char const* n, std::unique_ptr<IXf> (*m)(sim::Op const&));
};
XfInfo const* xf_named(std::string const& n);

struct XfSlot
{
    std::string kind;
    std::unique_ptr<IXf> obj;
    bool valid{false};
};

struct XfWorld
{
    sim::Plan const& plan;
    std::map<std::pair<int, int>, XfSlot> slots;
    bool no_alloc{false};
    explicit XfWorld(sim::Plan const& p) : plan{p} {}
    bool exec(int task, sim::Op const& op);
    void shutdown() { slots.clear(); }
};

// heap exhausted while alive (for calls that must not allocate)
struct Exhausted
{
    bool on;
    char const* what;
    Exhausted(bool o, char const* w) : on{o}, what{w}
    {
        if (on) {
            sim::alloc_arm(1, 1 << 30);
        }
    }
    ~Exhausted()
    {
        if (on) {
            auto const f = sim::alloc_disarm();
            sim::count("fault_heap_exhausted_calls");
            if (f != 0) {
                sim::violation("allocates", "%s allocates while processing", what);
            }
        }
    }
};

// Common shell: copyable library object T and model M inside Derived.
template<typename Derived>
struct XfBase : IXf
{
    std::unique_ptr<IXf> clone() const override
    {
        if constexpr (std::is_copy_constructible_v<Derived>) {
            auto const& me = static_cast<Derived const&>(*this);
            return std::make_unique<Derived>(me);
        } else {
            return nullptr;  // vendor backed plans only move
        }
    }
    std::unique_ptr<IXf> take() override
    {
        auto& me = static_cast<Derived&>(*this);
        return std::make_unique<Derived>(std::move(me));
    }
    void assign(IXf const& o) override
    {
        if constexpr (std::is_copy_assignable_v<Derived>) {
            static_cast<Derived&>(*this) = static_cast<Derived const&>(o);
        }
    }
    void assign_move(IXf& o) override { static_cast<Derived&>(*this) = std::move(static_cast<Derived&>(o)); }
};

// Library object held so that construction, copying and destruction are library regions, models are not.
template<typename T>
struct Held
{
    alignas(T) unsigned char raw[sizeof(T)];
    T* p{};
    template<typename F>
    explicit Held(std::in_place_t, F f)
    {
        sim::Lib l;
        p = new (raw) T(f());
    }
    Held(Held const& o)
        requires std::is_copy_constructible_v<T>
    {
        sim::Lib l;
        p = new (raw) T(*o.p);
    }
    Held(Held&& o)
    {
        sim::Lib l;
        p = new (raw) T(std::move(*o.p));
    }
    Held& operator=(Held const& o)
        requires std::is_copy_assignable_v<T>
    {
        sim::Lib l;
        *p = *o.p;
        return *this;
    }
    Held& operator=(Held&& o)
    {
        sim::Lib l;
        *p = std::move(*o.p);
        return *this;
    }
    ~Held()
    {
        sim::Lib l;
        p->~T();
    }
};

inline ref::cvec xf_data(sim::Rng& r, std::size_t n, int kind, double amp, bool f32)
{
    auto re = ref::make(r, n, kind, amp);
    auto im = ref::make(r, n, kind, amp);
    ref::cvec o(n);
    for (std::size_t i = 0; i < n; ++i) {
        o[i] = f32 ? ref::cd{static_cast<float>(re[i]), static_cast<float>(im[i])} : ref::cd{re[i], im[i]};
    }
    return o;
}
