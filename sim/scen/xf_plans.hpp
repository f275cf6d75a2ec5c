#pragma once
#include "xf.hpp"

#include <neo/algorithm.hpp>
#include <neo/complex.hpp>
#include <neo/fft.hpp>
#include <neo/fft/dct.hpp>
#include <neo/fft/experimental/rfft.hpp>

#include <cmath>
#include <complex>
#include <numbers>

namespace nf = neo::fft;

template<typename T>
using V1 = stdex::mdspan<T, stdex::dextents<std::size_t, 1>>;
template<typename T>
using S1 = stdex::mdspan<T, stdex::dextents<std::size_t, 1>, stdex::layout_stride>;

template<typename T>
S1<T> strided(T* p, std::size_t n, std::size_t s)
{
    using E = stdex::dextents<std::size_t, 1>;
    return S1<T>{p, typename stdex::layout_stride::template mapping<E>{E{n}, std::array<std::size_t, 1>{s}}};
}

inline double xf_norm(ref::cvec const& x)
{
    double s = 0;
    for (auto const& v : x) {
        s += std::norm(v);
    }
    return std::sqrt(s);
}
inline void xf_compare(char const* what, std::size_t n, int dir, ref::cvec const& got, ref::cvec const& want, double tol)
{
    if (not std::isfinite(tol)) {
        sim::count("fault_corrupt_input");  // non-finite input: only what follows is constrained
        return;
    }
    for (std::size_t i = 0; i < want.size(); ++i) {
        sim::mixd(got[i].real());
        sim::mixd(got[i].imag());
        auto const e = std::abs(got[i] - want[i]);
        if (not(e <= tol)) {
            sim::violation(
                "mismatch", "%s size=%zu dir=%d bin %zu: got (%.9g,%.9g) want (%.9g,%.9g) tol %.3g", what, n, dir, i,
                got[i].real(), got[i].imag(), want[i].real(), want[i].imag(), tol
            );
        }
    }
}
template<typename Real>
double xf_tol(std::size_t n, double norm, double factor = 1.0)
{
    double const eps = std::is_same_v<Real, float> ? 6e-8 : 1.2e-16;
    // rounding of the twiddle angles: visible only in very long transforms, still far below any wrong sample
    factor *= n > 4096 ? 24.0 : 1.0;
    return factor * 80.0 * eps * (std::log2(static_cast<double>(n) + 1.0) + 4.0) * norm + (eps > 1e-10 ? 1e-35 : 1e-290);
}

// amplitude chosen by op: x.call slot seed dir view kind amp%
template<typename Complex, typename Plan, int Radix>
struct C2C final : XfBase<C2C<Complex, Plan, Radix>>
{
    using Real = typename Complex::value_type;
    std::size_t n;
    char const* name;
    Held<Plan> plan;

    C2C(char const* nm, std::size_t order)
        : n{1}
        , name{nm}
        , plan{std::in_place, [&] {
                   if constexpr (Radix == 0) {
                       return Plan{order};
                   } else {
                       return Plan{nf::from_order, order};
                   }
               }}
    {
        if constexpr (Radix == 0) {
            n = order;
        } else {
            for (std::size_t i = 0; i < order; ++i) {
                n *= Radix;
            }
        }
        if (plan.p->size() != n) {
            sim::violation("size", "%s order %zu reports size %zu", name, order, size_t(plan.p->size()));
        }
    }

    void call(sim::Op const& op) override
    {
        sim::Rng r(static_cast<sim::u64>(op.at(1)) * 7919 + 11);
        int const dir  = op.at(2) & 1;
        int const view = static_cast<int>(op.at(3));
        auto const x   = xf_data(r, n, static_cast<int>(op.at(4)), ref::level(op.at(5, 100)), sizeof(Real) == 4);
        auto const d   = dir ? nf::direction::backward : nf::direction::forward;
        // 0 in place, 1 in place on every second element, 2 into another buffer, 3 between strided buffers,
        // 4 from contiguous to strided, 5 from strided to contiguous
        std::size_t const st = view == 1 or view == 3 or view == 5 ? 2 : 1;
        std::size_t const so = view == 3 or view == 4 ? 3 : 1;
        Complex const canary{Real(-77), Real(55)};
        std::vector<Complex> buf(n * st + 2, canary);
        for (std::size_t i = 0; i < n; ++i) {
            buf[1 + i * st] = Complex{static_cast<Real>(x[i].real()), static_cast<Real>(x[i].imag())};
        }
        std::vector<Complex> out(n * so + 2, canary);
        auto* src = &buf;
        {
            Exhausted ex(this->noalloc, name);
            if (view == 1) {
                auto v = strided(buf.data() + 1, n, 2);
                sim::Lib l;
                (*plan.p)(v, d);
            } else if (view == 2) {
                auto v = V1<Complex const>{buf.data() + 1, n};
                auto o = V1<Complex>{out.data() + 1, n};
                sim::Lib l;
                if (dir) {
                    nf::ifft(*plan.p, v, o);
                } else {
                    nf::fft(*plan.p, v, o);
                }
                src = &out;
            } else if (view >= 3) {
                auto const run = [&](auto v, auto o) {
                    sim::Lib l;
                    if constexpr (Radix == 0) {
                        if (dir) {
                            nf::idft(*plan.p, v, o);
                        } else {
                            nf::dft(*plan.p, v, o);
                        }
                    } else if (dir) {
                        nf::ifft(*plan.p, v, o);
                    } else {
                        nf::fft(*plan.p, v, o);
                    }
                };
                if (view == 4) {
                    run(V1<Complex const>{buf.data() + 1, n}, strided(out.data() + 1, n, so));
                } else if (view == 5) {
                    run(strided(const_cast<Complex const*>(buf.data()) + 1, n, st), V1<Complex>{out.data() + 1, n});
                } else {
                    run(strided(const_cast<Complex const*>(buf.data()) + 1, n, st), strided(out.data() + 1, n, so));
                }
                src = &out;
            } else {
                auto v = V1<Complex>{buf.data() + 1, n};
                sim::Lib l;
                (*plan.p)(v, d);
            }
        }
        if (view >= 2) {
            for (std::size_t i = 0; i < n; ++i) {
                if (std::isfinite(std::abs(x[i])) and (static_cast<double>(buf[1 + i * st].real()) != x[i].real() or static_cast<double>(buf[1 + i * st].imag()) != x[i].imag())) {
                    sim::violation("input-changed", "%s changed its input", name);
                }
            }
        }
        for (std::size_t i = 0; i < src->size(); ++i) {
            auto const stn  = src == &buf ? st : so;
            bool const mine = i >= 1 and (i - 1) % stn == 0 and (i - 1) / stn < n;
            if (not mine and ((*src)[i].real() != canary.real() or (*src)[i].imag() != canary.imag())) {
                sim::violation("stray-write", "%s wrote outside its view (offset %zu)", name, i);
            }
        }
        ref::cvec got(n);
        for (std::size_t i = 0; i < n; ++i) {
            auto const& v = (*src)[1 + i * (src == &buf ? st : so)];
            got[i]        = {static_cast<double>(v.real()), static_cast<double>(v.imag())};
        }
        xf_compare(name, n, dir, got, ref::dft(x, dir ? 1 : -1), xf_tol<Real>(n, xf_norm(x), Radix == 0 or Radix >= 3 ? (n > 4096 ? 4.0 + static_cast<double>(n) / 400.0 : 4.0) : 1.0));
    }
};

// rfft_plan<Real, Complex>
template<typename Complex>
struct RFFT final : XfBase<RFFT<Complex>>
{
    using Real = typename Complex::value_type;
    using Plan = nf::rfft_plan<Real, Complex>;
    std::size_t n;
    char const* name;
    Held<Plan> plan;
    RFFT(char const* nm, std::size_t order)
        : n{std::size_t(1) << order}
        , name{nm}
        , plan{std::in_place, [&] { return Plan{nf::from_order, order}; }}
    {
        if (plan.p->size() != n) {
            sim::violation("size", "%s size", name);
        }
    }
    void call(sim::Op const& op) override
    {
        sim::Rng r(static_cast<sim::u64>(op.at(1)) * 7919 + 11);
        int const dir  = op.at(2) & 1;
        int const view = static_cast<int>(op.at(3));
        double amp     = ref::level(op.at(5, 100));
        std::size_t const bins = n / 2 + 1;
        if (dir == 0) {
            auto x = ref::make(r, n, static_cast<int>(op.at(4)), amp);
            std::size_t const si = view == 3 or view == 5 ? 2 : 1, so = view == 3 or view == 1 or view == 4 ? 3 : 1;
            std::vector<Real> in(n * si);
            for (std::size_t i = 0; i < n; ++i) {
                in[i * si] = static_cast<Real>(x[i]);
                x[i]       = static_cast<double>(in[i * si]);
            }
            // the output vector may be longer than the half spectrum; the rest is left alone
            std::size_t const len = view == 2 ? n + 1 : bins;
            Complex const canary{Real(-77), Real(55)};
            std::vector<Complex> out(len * so + 1, canary);
            {
                Exhausted ex(this->noalloc, name);
                if (view == 4) {
                    auto i = V1<Real const>{in.data(), n};
                    auto o = strided(out.data(), len, so);
                    sim::Lib l;
                    nf::rfft(*plan.p, i, o);
                } else if (view == 5) {
                    auto i = strided(const_cast<Real const*>(in.data()), n, si);
                    auto o = V1<Complex>{out.data(), len};
                    sim::Lib l;
                    nf::rfft(*plan.p, i, o);
                } else if (so != 1) {
                    auto i = strided(const_cast<Real const*>(in.data()), n, si);
                    auto o = strided(out.data(), len, so);
                    sim::Lib l;
                    nf::rfft(*plan.p, i, o);
                } else {
                    auto i = V1<Real const>{in.data(), n};
                    auto o = V1<Complex>{out.data(), len};
                    sim::Lib l;
                    nf::rfft(*plan.p, i, o);
                }
            }
            for (std::size_t i = 0; i < out.size(); ++i) {
                if ((i % so != 0 or i / so >= bins) and (out[i].real() != canary.real() or out[i].imag() != canary.imag())) {
                    sim::violation("stray-write", "%s wrote offset %zu (bins %zu, stride %zu)", name, i, bins, so);
                }
            }
            ref::cvec got(bins);
            for (std::size_t i = 0; i < bins; ++i) {
                got[i] = {static_cast<double>(out[i * so].real()), static_cast<double>(out[i * so].imag())};
            }
            xf_compare(name, n, dir, got, ref::rfft(x, n), xf_tol<Real>(n, ref::norm2(x)));
            return;
        }
        // backward: half spectrum of a real signal -> n times that signal
        auto const x = ref::make(r, n, static_cast<int>(op.at(4)), amp);
        auto H       = ref::rfft(x, n);
        // the spectrum may be held in a full-length buffer; what lies above the half spectrum is stale
        std::size_t const len = view == 2 and n >= bins ? n : bins;
        std::size_t const si = view == 3 or view == 1 or view == 5 ? 3 : 1, so = view == 3 or view == 4 ? 2 : 1;
        std::vector<Complex> in(len * si, Complex{Real(1234), Real(-4321)});
        for (std::size_t i = 0; i < bins; ++i) {
            auto& c = in[i * si];
            c       = Complex{static_cast<Real>(H[i].real()), static_cast<Real>(H[i].imag())};
            H[i]    = {static_cast<double>(c.real()), static_cast<double>(c.imag())};
        }
        std::vector<Real> out(n * so + 1, Real(-77));
        {
            Exhausted ex(this->noalloc, name);
            if (view == 4) {
                auto i = V1<Complex const>{in.data(), len};
                auto o = strided(out.data(), n, so);
                sim::Lib l;
                nf::irfft(*plan.p, i, o);
            } else if (view == 5) {
                auto i = strided(const_cast<Complex const*>(in.data()), len, si);
                auto o = V1<Real>{out.data(), n};
                sim::Lib l;
                nf::irfft(*plan.p, i, o);
            } else if (si != 1) {
                auto i = strided(const_cast<Complex const*>(in.data()), len, si);
                auto o = strided(out.data(), n, so);
                sim::Lib l;
                nf::irfft(*plan.p, i, o);
            } else {
                auto i = V1<Complex const>{in.data(), len};
                auto o = V1<Real>{out.data(), n};
                sim::Lib l;
                nf::irfft(*plan.p, i, o);
            }
        }
        for (std::size_t i = 0; i < out.size(); ++i) {
            if ((i % so != 0 or i / so >= n) and out[i] != Real(-77)) {
                sim::violation("stray-write", "%s wrote offset %zu of its output", name, i);
            }
        }
        auto const want = ref::irfft(H, n);
        ref::cvec g(n), w(n);
        for (std::size_t i = 0; i < n; ++i) {
            g[i] = static_cast<double>(out[i * so]);
            w[i] = want[i] * static_cast<double>(n);
        }
        xf_compare(name, n, dir, g, w, xf_tol<Real>(n, xf_norm(H) * 1.5));
    }
};

// two real signals through one complex transform
template<typename Complex>
struct RfftPair final : XfBase<RfftPair<Complex>>
{
    using Real = typename Complex::value_type;
    using Plan = nf::fft_plan<Complex>;
    std::size_t n;
    Held<Plan> plan;
    explicit RfftPair(std::size_t order)
        : n{std::size_t(1) << order}
        , plan{std::in_place, [&] { return Plan{nf::from_order, order}; }}
    {}
    void call(sim::Op const& op) override
    {
        sim::Rng r(static_cast<sim::u64>(op.at(1)) * 7919 + 11);
        auto const amp = ref::level(op.at(5, 100));
        auto const x   = xf_data(r, n, static_cast<int>(op.at(4)), amp, sizeof(Real) == 4);
        std::size_t const bins = n / 2 + 1, st = op.at(3) == 1 ? 2 : 1;
        Complex const canary{Real(-77), Real(55)};
        std::vector<Complex> buf(n), X(bins * st + 1, canary), Y(bins * st + 1, canary);
        ref::vec a(n), b(n);
        for (std::size_t i = 0; i < n; ++i) {
            buf[i] = Complex{static_cast<Real>(x[i].real()), static_cast<Real>(x[i].imag())};
            a[i]   = x[i].real();
            b[i]   = x[i].imag();
        }
        {
            Exhausted ex(this->noalloc, "rfft_deinterleave");
            auto v = V1<Complex>{buf.data(), n};
            sim::Lib l;
            nf::fft(*plan.p, v);
            nf::rfft_deinterleave(v, strided(X.data(), bins, st), strided(Y.data(), bins, st));
        }
        auto const tol = xf_tol<Real>(n, xf_norm(x));
        for (int w = 0; w < 2; ++w) {
            auto const& o = w == 0 ? X : Y;
            ref::cvec got(bins);
            for (std::size_t i = 0; i < o.size(); ++i) {
                if (i % st == 0 and i / st < bins) {
                    got[i / st] = {static_cast<double>(o[i].real()), static_cast<double>(o[i].imag())};
                } else if (o[i].real() != canary.real() or o[i].imag() != canary.imag()) {
                    sim::violation("stray-write", "rfft_deinterleave wrote offset %zu", i);
                }
            }
            xf_compare("rfft_deinterleave", n, w, got, ref::rfft(w == 0 ? a : b, n), tol);
        }
    }
};

// the transform straight from its definition
template<typename Complex>
struct Naive final : XfBase<Naive<Complex>>
{
    using Real = typename Complex::value_type;
    std::size_t n;
    explicit Naive(std::size_t size) : n{size} {}
    void call(sim::Op const& op) override
    {
        sim::Rng r(static_cast<sim::u64>(op.at(1)) * 7919 + 11);
        int const dir  = op.at(2) & 1;
        auto const x   = xf_data(r, n, static_cast<int>(op.at(4)), ref::level(op.at(5, 100)), sizeof(Real) == 4);
        std::size_t const st = op.at(3) == 1 ? 2 : 1;
        std::vector<Complex> in(n * st), out(n * st);
        for (std::size_t i = 0; i < n; ++i) {
            in[i * st] = Complex{static_cast<Real>(x[i].real()), static_cast<Real>(x[i].imag())};
        }
        {
            Exhausted ex(this->noalloc, "dft");
            auto v = strided(const_cast<Complex const*>(in.data()), n, st);
            auto o = strided(out.data(), n, st);
            sim::Lib l;
            if (dir) {
                nf::dft(v, o, nf::direction::backward);
            } else {
                nf::dft(v, o, nf::direction::forward);
            }
        }
        ref::cvec got(n);
        for (std::size_t i = 0; i < n; ++i) {
            got[i] = {static_cast<double>(out[i * st].real()), static_cast<double>(out[i * st].imag())};
        }
        xf_compare("dft", n, dir, got, ref::dft(x, dir ? 1 : -1), xf_tol<Real>(n, xf_norm(x), 1.0 + 0.2 * static_cast<double>(n)));
    }
};

template<typename Real>
struct ExpC2C final : XfBase<ExpC2C<Real>>
{
    using Plan = nf::experimental::c2c_dit2_plan<Real>;
    std::size_t n;
    Held<Plan> plan;
    explicit ExpC2C(std::size_t order)
        : n{std::size_t(1) << order}
        , plan{std::in_place, [&] { return Plan{nf::from_order, order}; }}
    {}
    void call(sim::Op const& op) override
    {
        sim::Rng r(static_cast<sim::u64>(op.at(1)) * 7919 + 11);
        int const dir = op.at(2) & 1;
        auto const x  = xf_data(r, n, static_cast<int>(op.at(4)), ref::level(op.at(5, 100)), sizeof(Real) == 4);
        std::vector<Real> b(2 * n);
        for (std::size_t i = 0; i < n; ++i) {
            b[2 * i]     = static_cast<Real>(x[i].real());
            b[2 * i + 1] = static_cast<Real>(x[i].imag());
        }
        {
            auto v = V1<Real>{b.data(), 2 * n};
            Exhausted ex(this->noalloc, "experimental::c2c_dit2_plan");
            sim::Lib l;
            (*plan.p)(v, dir ? nf::direction::backward : nf::direction::forward);
        }
        ref::cvec got(n);
        for (std::size_t i = 0; i < n; ++i) {
            got[i] = {static_cast<double>(b[2 * i]), static_cast<double>(b[2 * i + 1])};
        }
        xf_compare("experimental::c2c_dit2_plan", n, dir, got, ref::dft(x, dir ? 1 : -1), xf_tol<Real>(n, xf_norm(x)));
    }
};

// experimental packed real transform: backward(forward(x)) = n/2 x, forward(x) has the magnitude of the half spectrum
template<typename Real>
struct ExpRFFT final : XfBase<ExpRFFT<Real>>
{
    using Plan = nf::experimental::rfft_plan<Real>;
    std::size_t n;
    Held<Plan> plan;
    explicit ExpRFFT(std::size_t order)
        : n{std::size_t(1) << order}
        , plan{std::in_place, [&] { return Plan{nf::from_order, order}; }}
    {}
    void call(sim::Op const& op) override
    {
        sim::Rng r(static_cast<sim::u64>(op.at(1)) * 7919 + 11);
        auto x = ref::make(r, n, static_cast<int>(op.at(4)), ref::level(op.at(5, 100)));
        std::vector<Real> b(n);
        for (std::size_t i = 0; i < n; ++i) {
            b[i] = static_cast<Real>(x[i]);
            x[i] = static_cast<double>(b[i]);
        }
        auto v       = V1<Real>{b.data(), n};
        auto const H = ref::rfft(x, n);
        {
            Exhausted ex(this->noalloc, "experimental::rfft_plan");
            sim::Lib l;
            (*plan.p)(v, nf::direction::forward);
        }
        auto const tol = xf_tol<Real>(n, ref::norm2(x), 4.0 + 0.05 * static_cast<double>(n));
        ref::cvec got(n / 2 + 1);
        got[0]     = static_cast<double>(b[0]);
        got[n / 2] = static_cast<double>(b[1]);
        for (std::size_t i = 1; i < n / 2; ++i) {
            got[i] = {static_cast<double>(b[2 * i]), static_cast<double>(b[2 * i + 1])};
        }
        xf_compare("experimental::rfft_plan", n, 0, got, H, tol);
        {
            Exhausted ex(this->noalloc, "experimental::rfft_plan");
            sim::Lib l;
            (*plan.p)(v, nf::direction::backward);
        }
        ref::cvec g(n), w(n);
        for (std::size_t i = 0; i < n; ++i) {
            g[i] = static_cast<double>(b[i]);
            w[i] = x[i] * static_cast<double>(n) / 2.0;
        }
        xf_compare("experimental::rfft_plan", n, 1, g, w, tol * std::sqrt(static_cast<double>(n)));
    }
};

template<typename Real>
struct DCT2 final : XfBase<DCT2<Real>>
{
    using Plan = nf::fallback_dct2_plan<Real>;
    std::size_t n;
    Held<Plan> plan;
    explicit DCT2(std::size_t order)
        : n{std::size_t(1) << order}
        , plan{std::in_place, [&] { return Plan{nf::from_order, order}; }}
    {}
    void call(sim::Op const& op) override
    {
        sim::Rng r(static_cast<sim::u64>(op.at(1)) * 7919 + 11);
        int const view = static_cast<int>(op.at(3));
        auto x = ref::make(r, n, static_cast<int>(op.at(4)), ref::level(op.at(5, 100)));
        std::size_t const st = view == 1 ? 2 : 1;
        std::vector<Real> b(n * st + 1, Real(-77));
        for (std::size_t i = 0; i < n; ++i) {
            b[i * st] = static_cast<Real>(x[i]);
            x[i]      = static_cast<double>(b[i * st]);
        }
        {
            Exhausted ex(this->noalloc, "dct2_plan");
            if (view == 1) {
                auto v = strided(b.data(), n, 2);
                sim::Lib l;
                (*plan.p)(v);
            } else {
                auto v = V1<Real>{b.data(), n};
                sim::Lib l;
                (*plan.p)(v);
            }
        }
        // 2 sum x cos(pi (2i+1) k / 2n) through a 4n point DFT of the mirrored signal
        ref::cvec y(4 * n);
        for (std::size_t i = 0; i < n; ++i) {
            y[2 * i + 1]         = x[i];
            y[4 * n - 2 * i - 1] = x[i];
        }
        auto const Y = ref::dft(y, -1);
        ref::cvec g(n), w(n);
        for (std::size_t i = 0; i < n; ++i) {
            g[i] = static_cast<double>(b[i * st]);
            w[i] = Y[i].real();
        }
        xf_compare("dct2_plan", n, 0, g, w, xf_tol<Real>(n, ref::norm2(x), 3.0));
    }
};

template<typename Real>
struct SplitFFT final : XfBase<SplitFFT<Real>>
{
    using Plan = nf::split_fft_plan<Real>;
    std::size_t n;
    Held<Plan> plan;
    explicit SplitFFT(std::size_t order)
        : n{std::size_t(1) << order}
        , plan{std::in_place, [&] { return Plan{nf::from_order, order}; }}
    {}
    void call(sim::Op const& op) override
    {
        sim::Rng r(static_cast<sim::u64>(op.at(1)) * 7919 + 11);
        int const dir  = op.at(2) & 1;
        int const view = static_cast<int>(op.at(3));
        auto const x   = xf_data(r, n, static_cast<int>(op.at(4)), ref::level(op.at(5, 100)), sizeof(Real) == 4);
        std::size_t const st = view == 1 or view == 3 or view == 5 ? 2 : 1;
        std::size_t const so = view == 3 or view == 4 ? 3 : 1;
        Real const canary{-77};
        std::vector<Real> re(n * st + 1, canary), im(n * st + 1, canary), ore(n * so + 1, canary), oim(n * so + 1, canary);
        for (std::size_t i = 0; i < n; ++i) {
            re[i * st] = static_cast<Real>(x[i].real());
            im[i * st] = static_cast<Real>(x[i].imag());
        }
        auto const run = [&](auto in, auto out) {
            Exhausted ex(this->noalloc, "split_fft_plan");
            sim::Lib l;
            if (view >= 2) {
                if (dir) {
                    nf::ifft(*plan.p, in, out);
                } else {
                    nf::fft(*plan.p, in, out);
                }
            } else if (dir) {
                nf::ifft(*plan.p, in);
            } else {
                nf::fft(*plan.p, in);
            }
        };
        auto const flat_in  = neo::split_complex{V1<Real>{re.data(), n}, V1<Real>{im.data(), n}};
        auto const flat_out = neo::split_complex{V1<Real>{ore.data(), n}, V1<Real>{oim.data(), n}};
        auto const wide_in  = neo::split_complex{strided(re.data(), n, st), strided(im.data(), n, st)};
        auto const wide_out = neo::split_complex{strided(ore.data(), n, so), strided(oim.data(), n, so)};
        if (view == 4) {
            run(flat_in, wide_out);
        } else if (view == 5) {
            run(wide_in, flat_out);
        } else if (st == 1) {
            run(flat_in, flat_out);
        } else {
            run(wide_in, wide_out);
        }
        auto const& gr = view >= 2 ? ore : re;
        auto const& gi = view >= 2 ? oim : im;
        auto const sg  = view >= 2 ? so : st;
        ref::cvec got(n);
        for (std::size_t i = 0; i < n; ++i) {
            got[i] = {static_cast<double>(gr[i * sg]), static_cast<double>(gi[i * sg])};
        }
        for (std::size_t i = 0; i < gr.size(); ++i) {
            if ((i % sg != 0 or i / sg >= n) and (gr[i] != canary or gi[i] != canary)) {
                sim::violation("stray-write", "split_fft_plan wrote offset %zu", i);
            }
        }
        xf_compare("split_fft_plan", n, dir, got, ref::dft(x, dir ? 1 : -1), xf_tol<Real>(n, xf_norm(x)));
    }
};

template<typename T, int Max>
std::unique_ptr<IXf> xf_make_order(sim::Op const& op)
{
    return std::make_unique<T>(static_cast<std::size_t>(std::min<sim::i64>(std::max<sim::i64>(op.at(1), 0), Max)));
}
template<typename T, int Min, int Max>
std::unique_ptr<IXf> xf_make_named(sim::Op const& op)
{
    return std::make_unique<T>(
        op.kind.substr(6) == "" ? "" : xf_named(op.kind.substr(6))->name,
        static_cast<std::size_t>(std::min<sim::i64>(std::max<sim::i64>(op.at(1), Min), Max))
    );
}
