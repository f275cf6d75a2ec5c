// C17: the Python module's functions, called from interpreter threads.
#include "ref.hpp"

#include <neo/convolution.hpp>
#include <neo/fft.hpp>

#include <pybind11/complex.h>
#include <pybind11/numpy.h>
#include <pybind11/pybind11.h>
#include <pybind11/stl.h>

void pysim_module_init(pybind11::module_& m);  // extra/python/src/main.cpp

#include <atomic>
#include <cmath>
#include <complex>
#include <cstring>
#include <functional>
#include <optional>
#include <string>
#include <vector>

namespace pysim {
static pthread_mutex_t g_gil = PTHREAD_MUTEX_INITIALIZER;
static int g_owner           = -1;
static thread_local int t_me = -1;

void need_gil(char const* what)
{
    if (g_owner != t_me) {
        sim::NotLib n;
        sim::violation("gil", "%s used without the interpreter lock", what);
    }
}
void gil_acquire()
{
    pthread_mutex_lock(&g_gil);  // the lock seam hands over to another thread while it is taken
    g_owner = t_me;
    sim::count("gil_acquired");
}
void gil_release()
{
    if (g_owner != t_me) {
        sim::NotLib n;
        sim::violation("gil", "interpreter lock released by a thread that does not hold it");
    }
    g_owner = -1;
    pthread_mutex_unlock(&g_gil);
}
}  // namespace pysim

namespace {
using namespace sim;
namespace nc = neo::convolution;

template<typename Sig>
std::function<Sig> find(char const* name)
{
    for (auto const& a : pysim::registry()[name]) {
        if (auto const* f = std::any_cast<std::function<Sig>>(&a)) {
            return *f;
        }
    }
    violation("missing", "the module has no function %s of the expected signature", name);
}

template<typename T>
struct Arr
{
    pybind11::array_t<T> a;
    std::vector<T> values;          // logical content (first axis, second index 0)
    std::vector<unsigned char> raw;  // memory before the call
};

// view: 0 contiguous, 1 step 2, 2 reversed, 3 field of a record (stride not a multiple of the item), 4 broadcast scalar,
//       5 two-dimensional, 6 read-only, 7 zero-dimensional
template<typename T>
void build(Arr<T>& out, Rng& r, std::size_t n, int view, int kind, double amp)
{
    std::size_t const rec = view == 1 ? 2 * sizeof(T) : view == 3 ? sizeof(T) + sizeof(T) / 2 : sizeof(T);
    auto obj              = std::make_shared<pysim::Object>();
    obj->itemsize         = sizeof(T);
    obj->writeable        = view != 6;
    std::size_t const cells = view == 4 ? 1 : n;
    obj->memory.assign(cells * rec, 0x5a);
    obj->memory.shrink_to_fit();
    obj->data = obj->memory.data();
    auto re   = ref::make(r, n, kind, amp);
    auto im   = ref::make(r, n, kind, amp);
    out.values.resize(n);
    for (std::size_t i = 0; i < n; ++i) {
        auto const k = view == 4 ? 0 : i;
        T v;
        if constexpr (sizeof(T) == sizeof(typename neo::value_type_t<std::vector<T>>) and std::is_floating_point_v<T>) {
            v = static_cast<T>(re[k]);
        } else {
            v = T(static_cast<typename T::value_type>(re[k]), static_cast<typename T::value_type>(im[k]));
        }
        out.values[i]  = v;
        auto const pos = view == 2 ? n - 1 - i : k;
        std::memcpy(obj->data + pos * rec, &v, sizeof v);
    }
    auto stride = static_cast<std::ptrdiff_t>(rec);
    if (view == 2) {
        if (n > 0) {
            obj->data += (n - 1) * rec;
        }
        stride = -stride;
    }
    if (view == 4) {
        stride = 0;
    }
    obj->shape   = {static_cast<std::ptrdiff_t>(n)};
    obj->strides = {stride};
    if (view == 5) {
        obj->shape.push_back(1);
        obj->strides.push_back(static_cast<std::ptrdiff_t>(sizeof(T)));
    } else if (view == 7) {
        obj->shape.clear();
        obj->strides.clear();
    }
    out.raw = obj->memory;
    out.a.p = obj;
}
template<typename T>
void unchanged(Arr<T> const& a, char const* what)
{
    if (a.a.p->memory != a.raw) {
        violation("input-changed", "%s changed its argument", what);
    }
}

enum Result
{
    returned,
    raised,
    out_of_memory
};
template<typename F>
Result call(Plan const& plan, Op const& op, F f)
{
    auto const* fl = plan.fault_for(op.id, "alloc");
    Result res     = returned;
    {
        Lib l;
        pysim::gil_acquire();
        if (fl != nullptr) {
            alloc_arm(fl->a, 1);
        }
        try {
            f();
        } catch (std::bad_alloc const&) {
            res = out_of_memory;
        } catch (std::exception const&) {
            res = raised;
        }
    }
    auto injected = fl != nullptr ? alloc_disarm() : 0;
    if (fl != nullptr) {
        count("fault_alloc", static_cast<u64>(injected));
    }
    if (pysim::g_owner != pysim::t_me) {
        violation("gil", "the call came back without the interpreter lock");
    }
    if (res == out_of_memory and injected == 0) {
        violation("exception", "MemoryError without an allocation failure");
    }
    count(res == returned ? "calls" : res == raised ? "probe_raised" : "probe_memory_error");
    clock_advance(1e-3);
    return res;
}
struct GilEnd
{
    ~GilEnd() { pysim::gil_release(); }
};

template<typename C>
void do_fft(Plan const& plan, Op const& op, char const* name, bool inverse)
{
    // p.fft kind n(-1 none) len seed view data norm amp
    using R       = typename C::value_type;
    auto const fn = find<pybind11::array_t<C>(pybind11::array_t<C>, std::optional<std::size_t>, neo::fft::norm)>(name);
    auto const nn = op.at(1);
    auto const len = static_cast<std::size_t>(std::clamp<i64>(op.at(2), 0, 70000));
    int const view = static_cast<int>(op.at(4));
    Rng r(static_cast<u64>(op.at(3)) + 3);
    Arr<C> x;
    build(x, r, len, view, static_cast<int>(op.at(5)), static_cast<double>(op.at(7, 100)) / 100.0);
    auto const norm = op.at(6) == 0 ? neo::fft::norm::backward : op.at(6) == 1 ? neo::fft::norm::ortho : neo::fft::norm::forward;
    std::optional<std::size_t> n;
    if (nn >= 0) {
        n = static_cast<std::size_t>(nn);
    }
    auto const size = n.value_or(len);
    pybind11::array_t<C> out;
    auto const res = call(plan, op, [&] { out = fn(x.a, n, norm); });
    GilEnd e;
    unchanged(x, name);
    bool const good = view != 5 and view != 7 and size != 0 and (size & (size - 1)) == 0;
    if (not good and res == returned) {
        violation("not-rejected", "%s accepted length %zu of a %d-dimensional array", name, size, view == 5 ? 2 : view == 7 ? 0 : 1);
    }
    if (good and res == raised and view != 3 and view != 6) {
        violation("rejected", "%s refused length %zu", name, size);
    }
    if (res != returned) {
        x.a.p.reset();
        return;
    }
    ref::cvec in(size);
    for (std::size_t i = 0; i < std::min(size, len); ++i) {
        in[i] = {static_cast<double>(x.values[i].real()), static_cast<double>(x.values[i].imag())};
    }
    auto want      = ref::dft(in, inverse ? 1 : -1);
    double scale   = norm == neo::fft::norm::ortho ? 1.0 / std::sqrt(static_cast<double>(size))
                   : (norm == neo::fft::norm::forward) != inverse and norm != neo::fft::norm::ortho
                       ? 1.0 / static_cast<double>(size)
                       : 1.0;
    if (norm == neo::fft::norm::backward) {
        scale = inverse ? 1.0 / static_cast<double>(size) : 1.0;
    } else if (norm == neo::fft::norm::forward) {
        scale = inverse ? 1.0 : 1.0 / static_cast<double>(size);
    }
    double nx = 0;
    for (auto v : in) {
        nx += std::norm(v);
    }
    double const eps = sizeof(R) == 4 ? 6e-8 : 1.2e-16;
    double const tol = scale * 80 * eps * (std::log2(static_cast<double>(size) + 1) + 4) * (size > 4096 ? 24.0 : 1.0) * std::sqrt(nx) + (sizeof(R) == 4 ? 1e-35 : 1e-290);
    if (out.ndim() != 1 or out.size() != static_cast<std::ptrdiff_t>(size)) {
        violation("shape", "%s returned %td elements instead of %zu", name, out.size(), size);
    }
    auto const* o = out.data();
    for (std::size_t i = 0; i < size; ++i) {
        auto const w = want[i] * scale;
        std::complex<double> const g{static_cast<double>(o[i].real()), static_cast<double>(o[i].imag())};
        if (not(std::abs(g - w) <= tol)) {
            violation("mismatch", "%s of %zu from %zu, view %d, bin %zu: (%g,%g) instead of (%g,%g)", name, size, len, view, i, g.real(), g.imag(), w.real(), w.imag());
        }
        mixd(g.real());
    }
    out = {};
    x.a.p.reset();
}

template<typename F>
void do_conv(Plan const& plan, Op const& op, char const* name)
{
    // p.conv kind len1 len2 seed view1 view2 data mode
    auto const fn = find<pybind11::array_t<F>(pybind11::array_t<F>, pybind11::array_t<F>, nc::mode)>(name);
    auto const n1 = static_cast<std::size_t>(std::clamp<i64>(op.at(1), 0, 5000));
    auto const n2 = static_cast<std::size_t>(std::clamp<i64>(op.at(2), 0, 5000));
    int const v1 = static_cast<int>(op.at(4)), v2 = static_cast<int>(op.at(5));
    Rng r(static_cast<u64>(op.at(3)) + 3);
    Arr<F> a, b;
    build(a, r, n1, v1, static_cast<int>(op.at(6)), 1.0);
    build(b, r, n2, v2, static_cast<int>(op.at(6)), 1.0);
    auto const mode = op.at(7) == 0 ? nc::mode::full : op.at(7) == 1 ? nc::mode::valid : nc::mode::same;
    pybind11::array_t<F> out;
    auto const res = call(plan, op, [&] { out = fn(a.a, b.a, mode); });
    GilEnd e;
    unchanged(a, name);
    unchanged(b, name);
    auto const flat = [](int v) { return v != 5 and v != 7; };
    bool const good = flat(v1) and flat(v2) and n1 != 0 and n2 != 0 and mode == nc::mode::full;
    if (not good and res == returned) {
        violation("not-rejected", "%s accepted lengths %zu and %zu, views %d and %d, mode %d", name, n1, n2, v1, v2, static_cast<int>(op.at(7)));
    }
    if (good and res == raised and v1 != 3 and v2 != 3 and v1 != 6 and v2 != 6) {
        violation("rejected", "%s refused lengths %zu and %zu", name, n1, n2);
    }
    if (res == returned) {
        ref::vec x(n1 + n2 - 1, 0.0), h(n2);
        double nx = 0, nh = 0;
        for (std::size_t i = 0; i < n1; ++i) {
            x[i] = static_cast<double>(a.values[i]);
            nx += x[i] * x[i];
        }
        for (std::size_t i = 0; i < n2; ++i) {
            h[i] = static_cast<double>(b.values[i]);
            nh += h[i] * h[i];
        }
        auto const want  = ref::direct(x, h, 0, x.size());
        double const eps = sizeof(F) == 4 ? 6e-8 : 1.2e-16;
        double const tol = 80 * eps * (std::log2(static_cast<double>(x.size()) + 1) + 4) * std::sqrt(nx * nh) + (sizeof(F) == 4 ? 1e-35 : 1e-290);
        if (out.ndim() != 1 or out.size() != static_cast<std::ptrdiff_t>(x.size())) {
            violation("shape", "%s returned %td elements instead of %zu", name, out.size(), x.size());
        }
        auto const* o = out.data();
        for (std::size_t i = 0; i < x.size(); ++i) {
            if (not(std::abs(static_cast<double>(o[i]) - want[i]) <= tol)) {
                violation("mismatch", "%s %zu/%zu views %d/%d sample %zu: %g instead of %g", name, n1, n2, v1, v2, i, static_cast<double>(o[i]), want[i]);
            }
            mixd(static_cast<double>(o[i]));
        }
    }
    out = {};
    a.a.p.reset();
    b.a.p.reset();
}

void do_freq(Plan const& plan, Op const& op)
{
    // p.freq n rate
    auto const fn = find<pybind11::array_t<double>(std::size_t, double)>("rfftfreq");
    auto const n  = static_cast<std::size_t>(std::clamp<i64>(op.at(1), 0, 100000));
    auto const fs = static_cast<double>(std::max<i64>(1, op.at(2)));
    pybind11::array_t<double> out;
    auto const res = call(plan, op, [&] { out = fn(n, 1.0 / fs); });
    GilEnd e;
    if (res == raised) {
        violation("rejected", "rfftfreq refused %zu", n);
    }
    if (res == returned) {
        if (out.size() != static_cast<std::ptrdiff_t>(n)) {
            violation("shape", "rfftfreq(%zu) returned %td elements", n, out.size());
        }
        for (std::size_t i = 0; i < n; ++i) {
            auto const w = static_cast<double>(i) * fs / static_cast<double>(n);
            if (not(std::abs(out.data()[i] - w) <= 1e-9 * fs)) {
                violation("mismatch", "rfftfreq(%zu)[%zu] = %g instead of %g", n, i, out.data()[i], w);
            }
        }
    }
    out = {};
}

void exec(Plan const& plan, int task, Op const& op)
{
    pysim::t_me = task;
    if (op.kind == "p.fft") {
        switch (op.at(0)) {
            case 0: do_fft<std::complex<float>>(plan, op, "fft", false); break;
            case 1: do_fft<std::complex<float>>(plan, op, "ifft", true); break;
            case 2: do_fft<std::complex<double>>(plan, op, "fft", false); break;
            default: do_fft<std::complex<double>>(plan, op, "ifft", true); break;
        }
    } else if (op.kind == "p.conv") {
        switch (op.at(0)) {
            case 0: do_conv<float>(plan, op, "direct_convolve"); break;
            case 1: do_conv<double>(plan, op, "direct_convolve"); break;
            case 2: do_conv<float>(plan, op, "fft_convolve"); break;
            default: do_conv<double>(plan, op, "fft_convolve"); break;
        }
    } else if (op.kind == "p.freq") {
        do_freq(plan, op);
    }
}

void run_py(Plan const& p)
{
    pybind11::module_ m;
    pysim_module_init(m);
    run_tasks(p, [&](int task, Op const& op) { exec(p, task, op); });
}

i64 any_view(Rng& r)
{
    return r.chance(0.5) ? 0 : r.chance(0.75) ? r.range(1, 4) : r.range(5, 7);
}
void gen_call(Rng& r, Plan& p, int task, bool faults)
{
    auto const u  = r.unit();
    auto const dk = r.chance(0.6) ? 0 : static_cast<i64>(r.below(ref::kind_count));
    if (u < 0.55) {
        auto const size = r.chance(0.9) ? i64(1) << r.range(0, r.chance(0.9) ? 8 : 12) : r.range(0, 70);
        i64 len = size, n = -1;
        if (r.chance(0.4)) {
            n   = size;
            len = r.chance(0.3) ? size : r.chance(0.5) ? r.range(0, size) : r.range(size, 2 * size + 3);
        } else if (r.chance(0.05)) {
            len = r.range(0, 300);
        }
        p.add(task, "p.fft", {static_cast<i64>(r.below(4)), n, len, r.seed31(), any_view(r), dk, static_cast<i64>(r.below(3)), r.pick<i64>({100, 100, 1, 10000})});
    } else if (u < 0.95) {
        auto const hi = r.chance(0.8) ? 40 : 400;
        p.add(task, "p.conv", {static_cast<i64>(r.below(4)), r.chance(0.03) ? 0 : r.range(1, hi), r.chance(0.03) ? 0 : r.range(1, hi), r.seed31(), any_view(r), any_view(r), dk, r.chance(0.95) ? 0 : r.range(1, 2)});
    } else {
        p.add(task, "p.freq", {0, r.range(0, 300), r.pick<i64>({1, 20, 44100, 48000})});
    }
    if (faults and r.chance(0.25)) {
        p.faults.push_back({p.ops.back().id, "alloc", r.range(1, 14), 1});
    }
}
Plan gen_c17(Rng& r, int)
{
    Plan p;
    int const nt      = static_cast<int>(r.range(1, 4));
    auto const faults = r.chance(0.5);
    auto const same   = r.chance(0.4);  // every thread makes calls of the same shapes
    auto const common = r.next();
    for (int t = 0; t < nt; ++t) {
        Rng c(common);
        auto& g      = same ? c : r;
        auto const n = g.range(1, 4);
        for (i64 i = 0; i < n; ++i) {
            gen_call(g, p, t, faults);
        }
    }
    if (same) {
        for (auto& op : p.ops) {
            if (op.kind != "p.freq") {
                op.a[3] = r.seed31();
            }
        }
    }
    gen_preemptions(r, p, static_cast<int>(r.pick<i64>({4, 30, 120})), 6000);
    return p;
}
Register const r17{"C17", gen_c17, run_py};
}  // namespace
