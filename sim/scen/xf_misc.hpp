#pragma once
#include "xf.hpp"

#include <neo/algorithm.hpp>
#include <neo/complex.hpp>
#include <neo/container/csr_matrix.hpp>
#include <neo/convolution.hpp>
#include <neo/convolution/compressed_fdl.hpp>
#include <neo/fft.hpp>
#include <neo/fft/stft.hpp>

#include <algorithm>
#include <cmath>
#include <complex>
#include <map>
#include <numbers>

namespace conv = neo::convolution;
namespace nf   = neo::fft;

template<typename T>
using V1 = stdex::mdspan<T, stdex::dextents<std::size_t, 1>>;
template<typename T>
using V2 = stdex::mdspan<T, stdex::dextents<std::size_t, 2>>;
template<typename T>
using S1 = stdex::mdspan<T, stdex::dextents<std::size_t, 1>, stdex::layout_stride>;

template<typename T>
S1<T> strided(T* p, std::size_t n, std::size_t s)
{
    using E = stdex::dextents<std::size_t, 1>;
    return S1<T>{p, typename stdex::layout_stride::template mapping<E>{E{n}, std::array<std::size_t, 1>{s}}};
}
inline sim::i64 clampi(sim::i64 v, sim::i64 lo, sim::i64 hi) { return std::min(std::max(v, lo), hi); }

template<typename Real>
ref::vec real_data(sim::Rng& r, std::size_t n, int kind, double amp)
{
    auto v = ref::make(r, n, kind, amp);
    for (auto& x : v) {
        x = static_cast<double>(static_cast<Real>(x));
    }
    return v;
}
template<typename Real>
std::vector<Real> as(ref::vec const& v)
{
    std::vector<Real> o(v.size());
    for (std::size_t i = 0; i < v.size(); ++i) {
        o[i] = static_cast<Real>(v[i]);
    }
    return o;
}
template<typename Real>
constexpr double eps_of()
{
    return std::is_same_v<Real, float> ? 6e-8 : 1.2e-16;
}
template<typename Real>
constexpr double tiny_of()
{
    return std::is_same_v<Real, float> ? 1e-35 : 1e-290;
}
inline void compare(char const* what, std::size_t a, std::size_t b, ref::vec const& got, ref::vec const& want, double tol, std::size_t base = 0)
{
    if (got.size() != want.size()) {
        sim::violation("size", "%s %zu/%zu produced %zu values, expected %zu", what, a, b, got.size(), want.size());
    }
    if (not std::isfinite(tol)) {
        sim::count("fault_corrupt_input");  // non-finite input: only what follows is constrained
        return;
    }
    for (std::size_t i = 0; i < want.size(); ++i) {
        sim::mixd(got[i]);
        auto const e = std::abs(got[i] - want[i]);
        if (not(e <= tol)) {
            sim::violation("mismatch", "%s %zu/%zu sample %zu: got %.9g want %.9g tol %.3g", what, a, b, base + i, got[i], want[i], tol);
        }
    }
}
template<typename Real>
double conv_tol(std::size_t n, ref::vec const& x, ref::vec const& h)
{
    return 60.0 * eps_of<Real>() * (std::log2(static_cast<double>(n) + 1) + 3) * ref::norm2(x) * ref::norm2(h) + tiny_of<Real>();
}

// ------------------------------------------------------------------------------------------- one-shot convolvers
// x.new:fftconv slot signal patch / x.call slot seed1 seed2 view kind1 kind2 amp%
template<typename Real>
struct FftConv final : XfBase<FftConv<Real>>
{
    using T = conv::fft_convolver<Real>;
    std::size_t n, m;
    Held<T> c;
    FftConv(std::size_t a, std::size_t b) : n{a}, m{b}, c{std::in_place, [&] { return T{a, b}; }} {}
    void call(sim::Op const& op) override
    {
        sim::Rng r1(static_cast<sim::u64>(op.at(1)) * 31 + 7), r2(static_cast<sim::u64>(op.at(2)) * 37 + 5);
        double amp = ref::level(op.at(6, 100));
        auto x = real_data<Real>(r1, n, static_cast<int>(op.at(4)), amp), h = real_data<Real>(r2, m, static_cast<int>(op.at(5)), 1.0);
        auto xs = as<Real>(x), hs = as<Real>(h);
        std::vector<Real> out((n + m - 1) * 2 + 1, Real(-77));
        {
            auto a = V1<Real const>{xs.data(), n};
            auto b = V1<Real const>{hs.data(), m};
            Exhausted ex(this->noalloc, "fft_convolver");
            if (op.at(3) == 1) {
                auto o = strided(out.data(), n + m - 1, 2);
                sim::Lib l;
                (*c.p)(a, b, o);
            } else {
                auto o = V1<Real>{out.data(), n + m - 1};
                sim::Lib l;
                (*c.p)(a, b, o);
            }
        }
        std::size_t const st = op.at(3) == 1 ? 2 : 1;
        ref::vec got;
        for (std::size_t i = 0; i < n + m - 1; ++i) {
            got.push_back(static_cast<double>(out[i * st]));
        }
        if (std::isfinite(ref::norm2(x) + ref::norm2(h)) and (as<Real>(x) != xs or as<Real>(h) != hs)) {
            sim::violation("input-changed", "fft_convolver changed its input");
        }
        auto xp = x;
        xp.resize(n + m - 1, 0.0);
        compare("fft_convolver", n, m, got, ref::direct(xp, h, 0, n + m - 1), conv_tol<Real>(n + m, x, h));
    }
};

// the free functions; x.call slot seed1 seed2 fn kind1 kind2 amp% n m
template<typename Real>
struct FreeConv final : XfBase<FreeConv<Real>>
{
    bool allocates() const override { return true; }
    void call(sim::Op const& op) override
    {
        sim::Rng r1(static_cast<sim::u64>(op.at(1)) * 31 + 7), r2(static_cast<sim::u64>(op.at(2)) * 37 + 5);
        auto const fn = op.at(3);
        auto const lo = 1;
        auto const n = static_cast<std::size_t>(clampi(op.at(7), lo, 100000)), m = static_cast<std::size_t>(clampi(op.at(8), lo, 100000));
        double amp = ref::level(op.at(6, 100));
        auto x = real_data<Real>(r1, n, static_cast<int>(op.at(4)), amp), h = real_data<Real>(r2, m, static_cast<int>(op.at(5)), 1.0);
        auto xs = as<Real>(x), hs = as<Real>(h);
        ref::vec got;
        auto a = V1<Real const>{xs.data(), n};
        auto b = V1<Real const>{hs.data(), m};
        auto take = [&](auto const& o) {
            for (std::size_t i = 0; i < o.extent(0); ++i) {
                got.push_back(static_cast<double>(o(i)));
            }
        };
        if (fn == 0) {
            auto o = [&] {
                sim::Lib l;
                return conv::fft_convolve(a, b);
            }();
            take(o);
        } else {
            auto o = [&] {
                sim::Lib l;
                return conv::direct_convolve(a, b);
            }();
            take(o);
        }
        auto xp = x;
        xp.resize(n + m - 1, 0.0);
        compare(fn == 0 ? "fft_convolve" : "direct_convolve", n, m, got, ref::direct(xp, h, 0, n + m - 1), conv_tol<Real>(n + m, x, h));
    }
};

// ------------------------------------------------------------------------------------------- overlap stages
// x.new:ola slot block filter irkind irseed / x.call slot seed kind view ncalls amp% 
template<typename Real, template<typename> typename Stage, typename Complex = std::complex<Real>>
struct Overlap final : XfBase<Overlap<Real, Stage, Complex>>
{
    using T = Stage<Complex>;
    std::size_t B, F, K{};
    Held<T> c;
    ref::vec h, x;
    std::vector<Complex> H;
    std::size_t clean_from{0};
    static constexpr bool ols = std::is_same_v<T, conv::overlap_save<Complex>>;
    Overlap(std::size_t b, std::size_t f, int irk, sim::i64 irseed) : B{b}, F{f}, c{std::in_place, [&] { return T{b, f}; }}
    {
        K = c.p->transform_size();
        if (c.p->block_size() != B or c.p->filter_size() != F or K < B + F - 1) {
            sim::violation("size", "overlap stage sizes %zu %zu %zu", size_t(c.p->block_size()), size_t(c.p->filter_size()), K);
        }
        sim::Rng r(static_cast<sim::u64>(irseed) + 5);
        h = ref::make_ir(r, F, irk);
        for (auto& v : h) {
            v = static_cast<double>(static_cast<Real>(v));
        }
        for (auto const& v : ref::rfft(h, K)) {
            H.push_back(Complex{static_cast<Real>(v.real()), static_cast<Real>(v.imag())});
        }
    }
    void call(sim::Op const& op) override
    {
        sim::Rng r(static_cast<sim::u64>(op.at(1)) * 101 + 3);
        auto const nc = clampi(op.at(4), 1, 100000);
        for (sim::i64 k = 0; k < nc; ++k) {
            auto kind = static_cast<int>(op.at(2));
            if (kind == 99) {
                kind = static_cast<int>(r.below(ref::kind_count));
            }
            auto in    = real_data<Real>(r, B, kind, ref::level(op.at(5, 100)));
            std::size_t const st = op.at(3) == 1 ? 2 : 1;
            std::vector<Real> buf(B * st + 1, Real(-77));
            for (std::size_t i = 0; i < B; ++i) {
                buf[i * st] = static_cast<Real>(in[i]);
            }
            auto cb = [this](auto s) {
                sim::NotLib nl;
                if (s.extent(0) != H.size()) {
                    sim::violation("size", "overlap callback got %zu bins, expected %zu", size_t(s.extent(0)), H.size());
                }
                for (std::size_t i = 0; i < H.size(); ++i) {
                    s[i] = s[i] * H[i];
                }
            };
            {
                Exhausted ex(this->noalloc, "overlap stage");
                if (st == 2) {
                    auto v = strided(buf.data(), B, 2);
                    sim::Lib l;
                    (*c.p)(v, cb);
                } else {
                    auto v = V1<Real>{buf.data(), B};
                    sim::Lib l;
                    (*c.p)(v, cb);
                }
            }
            auto const base = x.size();
            if (kind == ref::poisoned) {
                for (auto& v : in) {
                    v = std::isfinite(v) ? v : 0.0;
                }
                clean_from = base + 2 * K + 2 * B;
                sim::count("fault_corrupt_input");
            }
            x.insert(x.end(), in.begin(), in.end());
            if (base < clean_from) {
                continue;
            }
            if (clean_from != 0) {
                sim::count("probe_recovered_calls");
            }
            ref::vec got;
            for (std::size_t i = 0; i < B; ++i) {
                got.push_back(static_cast<double>(buf[i * st]));
            }
            auto const keep = K + B + F;
            ref::vec recent(x.begin() + static_cast<long>(x.size() > keep ? x.size() - keep : 0), x.end());
            auto const tol = 100.0 * eps_of<Real>() * (std::log2(static_cast<double>(K)) + 3) * std::sqrt(static_cast<double>(K))
                               * std::max(ref::maxabs(recent), 1e-30) * std::max(ref::norm2(h), 1e-12)
                           + tiny_of<Real>();
            compare(ols ? "overlap_save" : "overlap_add", B, F, got, ref::direct(x, h, base, x.size()), tol, base);
            sim::count("blocks");
            if (F > B + 1) {
                sim::count("probe_filter_longer_than_block");
            }
            if (K % B != 0) {
                sim::count("probe_block_not_dividing_transform");
            }
        }
    }
};

// ------------------------------------------------------------------------------------------- stft
// x.new:stft slot frame transform overlap window / x.call slot seed kind channels length layout
template<typename Real>
struct Stft final : XfBase<Stft<Real>>
{
    using T = nf::stft_plan<Real>;
    std::size_t frame, trans, over;
    int win;
    Held<T> c;
    bool allocates() const override { return true; }
    static T make(std::size_t f, std::size_t t, std::size_t o, int w)
    {
        if (w == 3) {
            return T{t};
        }
        nf::stft_options<Real> opt;
        opt.frame_size     = f;
        opt.transform_size = t;
        opt.overlap_size   = o;
        if (w == 0) {
            opt.window = neo::rectangular_window<Real>{};
        } else if (w == 4) {
            // a window of the user's own
            opt.window = [](std::size_t k, std::size_t n) { return static_cast<Real>(k + 1) / static_cast<Real>(n); };
        } else if (w == 1) {
            opt.window = neo::hann_window<Real>{};
        } else {
            opt.window = neo::hamming_window<Real>{};
        }
        return T{opt};
    }
    Stft(std::size_t f, std::size_t t, std::size_t o, int w)
        : frame{f}
        , trans{t}
        , over{o}
        , win{w}
        , c{std::in_place, [&] { return make(f, t, o, w); }}
    {}
    double window(std::size_t i, std::size_t n) const
    {
        auto const a = 2.0 * std::numbers::pi * static_cast<double>(i) / static_cast<double>(n - 1);
        return win == 4 ? static_cast<double>(i + 1) / static_cast<double>(n) : win == 0 ? 1.0 : win == 2 ? 0.54 - 0.46 * std::cos(a) : 0.5 * (1.0 - std::cos(a));
    }
    void call(sim::Op const& op) override
    {
        sim::Rng r(static_cast<sim::u64>(op.at(1)) * 131 + 3);
        auto const ch  = static_cast<std::size_t>(clampi(op.at(3), 1, 4));
        // the work of one call is bounded
        auto const most = 1000 + (frame - over) * (3000000 / (trans * ch));
        auto const len  = std::min(static_cast<std::size_t>(clampi(op.at(4), 1, 100000)), most);
        auto const lay  = op.at(5);
        std::vector<ref::vec> x;
        for (std::size_t i = 0; i < ch; ++i) {
            x.push_back(real_data<Real>(r, len, static_cast<int>(op.at(2)), ref::level(op.at(6, 100))));
        }
        stdex::mdarray<std::complex<Real>, stdex::dextents<std::size_t, 3>> res;
        if (lay == 1) {
            auto m = stdex::mdarray<Real, stdex::dextents<std::size_t, 2>, stdex::layout_left>{ch, len};
            for (std::size_t i = 0; i < ch; ++i) {
                for (std::size_t j = 0; j < len; ++j) {
                    m(i, j) = static_cast<Real>(x[i][j]);
                }
            }
            sim::Lib l;
            res = (*c.p)(std::as_const(m).to_mdspan());
        } else {
            auto m = stdex::mdarray<Real, stdex::dextents<std::size_t, 2>>{ch, len};
            for (std::size_t i = 0; i < ch; ++i) {
                for (std::size_t j = 0; j < len; ++j) {
                    m(i, j) = static_cast<Real>(x[i][j]);
                }
            }
            sim::Lib l;
            res = (*c.p)(m.to_mdspan());
        }
        auto const hop  = frame - over;
        auto const bins = trans / 2 + 1;
        if (res.extent(0) != ch or res.extent(2) != bins) {
            sim::violation("size", "stft result %zux%zux%zu", size_t(res.extent(0)), size_t(res.extent(1)), size_t(res.extent(2)));
        }
        auto const nf_ = static_cast<std::size_t>(res.extent(1));
        // every sample that a hop covers must be inside some frame; every frame starts inside the signal
        if ((nf_ - 1) * hop >= len or (nf_ - 1) * hop + frame < len) {
            sim::violation(
                "frames", "stft of %zu samples, frame %zu, hop %zu, has %zu frames: %s", len, frame, hop, nf_,
                (nf_ - 1) * hop >= len ? "last frame starts after the end" : "samples are not covered"
            );
        }
        for (std::size_t c_ = 0; c_ < ch; ++c_) {
            for (std::size_t f = 0; f < nf_; ++f) {
                ref::vec seg(trans, 0.0);
                double power = 0;
                for (std::size_t i = 0; i < frame and f * hop + i < len; ++i) {
                    seg[i] = x[c_][f * hop + i] * window(i, trans);
                    power += x[c_][f * hop + i] * x[c_][f * hop + i];
                }
                auto const H   = ref::rfft(seg, trans);
                auto const tol = 40.0 * eps_of<Real>() * (std::log2(static_cast<double>(trans)) + 4)
                                   * std::max(1e-30, std::sqrt(power)) * 1.5
                               + tiny_of<Real>();
                for (std::size_t k = 0; k < bins; ++k) {
                    auto const g = res(c_, f, k);
                    sim::mixd(static_cast<double>(g.real()));
                    auto const e = std::abs(ref::cd{static_cast<double>(g.real()), static_cast<double>(g.imag())} - H[k]);
                    if (not(e <= tol)) {
                        sim::violation(
                            "mismatch", "stft frame=%zu transform=%zu hop=%zu len=%zu: channel %zu frame %zu bin %zu off by %.3g (tol %.3g)",
                            frame, trans, hop, len, c_, f, k, e, tol
                        );
                    }
                }
                sim::count("frames");
            }
        }
        if (len < frame) {
            sim::count("probe_shorter_than_frame");
        }
        if (len % hop != 0) {
            sim::count("probe_ragged_tail");
        }
    }
};

// partition of an impulse response; x.call slot seed kind channels length block layout
template<typename Real>
struct Partition final : XfBase<Partition<Real>>
{
    bool allocates() const override { return true; }
    void call(sim::Op const& op) override
    {
        sim::Rng r(static_cast<sim::u64>(op.at(1)) * 131 + 3);
        auto const ch  = static_cast<std::size_t>(clampi(op.at(3), 1, 4));
        auto const len = static_cast<std::size_t>(clampi(op.at(4), 1, 100000));
        auto B         = std::size_t(1) << clampi(op.at(5), 0, 12);
        std::vector<ref::vec> x;
        auto m = stdex::mdarray<Real, stdex::dextents<std::size_t, 2>>{ch, len};
        auto l = stdex::mdarray<Real, stdex::dextents<std::size_t, 2>, stdex::layout_left>{ch, len};
        for (std::size_t i = 0; i < ch; ++i) {
            x.push_back(real_data<Real>(r, len, static_cast<int>(op.at(2)), ref::level(op.at(6, 100))));
            for (std::size_t j = 0; j < len; ++j) {
                l(i, j) = m(i, j) = static_cast<Real>(x[i][j]);
            }
        }
        auto res = [&] {
            sim::Lib lib;
            if (op.at(7) == 1) {
                return conv::uniform_partition(l.to_mdspan(), B);
            }
            return conv::uniform_partition(m.to_mdspan(), B);
        }();
        auto const segs = (len + B - 1) / B;
        if (res.extent(0) != ch or res.extent(1) != segs or res.extent(2) != B + 1) {
            sim::violation("size", "uniform_partition(%zu, %zu) is %zux%zux%zu", len, B, size_t(res.extent(0)), size_t(res.extent(1)), size_t(res.extent(2)));
        }
        for (std::size_t c_ = 0; c_ < ch; ++c_) {
            for (std::size_t s = 0; s < segs; ++s) {
                ref::vec seg(2 * B, 0.0);
                for (std::size_t i = 0; i < B and s * B + i < len; ++i) {
                    seg[i] = x[c_][s * B + i];
                }
                auto const H   = ref::rfft(seg, 2 * B);
                auto const tol = 40.0 * eps_of<Real>() * (std::log2(2.0 * static_cast<double>(B)) + 4)
                                   * std::max(1e-30, ref::norm2(seg)) * 1.5
                               + tiny_of<Real>();
                for (std::size_t k = 0; k <= B; ++k) {
                    auto const g = res(c_, s, k);
                    sim::mixd(static_cast<double>(g.real()));
                    if (not(std::abs(ref::cd{static_cast<double>(g.real()), static_cast<double>(g.imag())} - H[k]) <= tol)) {
                        sim::violation("mismatch", "uniform_partition len=%zu block=%zu: channel %zu segment %zu bin %zu", len, B, c_, s, k);
                    }
                }
            }
        }
        if (len % B != 0) {
            sim::count("probe_ragged_tail");
        }
    }
};

// ------------------------------------------------------------------------------------------- delay lines
// x.new:fdl slot rows cols / x.call slot what index seed kind
template<typename Fdl, int Mode>  // Mode 0 dense, 1 split, 2 compressed
struct FdlXf final : XfBase<FdlXf<Fdl, Mode>>
{
    using V    = typename Fdl::value_type;
    using C    = std::complex<float>;
    std::size_t rows, cols;
    Held<Fdl> c;
    std::vector<ref::cvec> model;
    double step{0};
    FdlXf(std::size_t r, std::size_t k)
        : rows{r}
        , cols{k}
        , c{std::in_place, [&] { return Fdl{stdex::dextents<std::size_t, 2>{r, k}}; }}
        , model(r, ref::cvec(k))
    {}
    void call(sim::Op const& op) override
    {
        sim::Rng r(static_cast<sim::u64>(op.at(3)) * 17 + 1);
        auto const idx = static_cast<std::size_t>(op.at(2)) % rows;
        auto x         = xf_data(r, cols, static_cast<int>(op.at(4)), op.at(1) & 2 ? 1.0 : 0.9, true);
        for (auto& v : x) {
            // full scale is the largest value fixed-point storage holds
            v = {std::clamp(v.real(), -1.0, 1.0), std::clamp(v.imag(), -1.0, 1.0)};
        }
        std::vector<C> in(cols * 2, C{5, 5});
        std::size_t const st = op.at(1) & 1 ? 2 : 1;
        for (std::size_t i = 0; i < cols; ++i) {
            in[i * st] = C{static_cast<float>(x[i].real()), static_cast<float>(x[i].imag())};
        }
        {
            Exhausted ex(this->noalloc, "fdl");
            if (st == 2) {
                auto v = strided<C const>(in.data(), cols, 2);
                sim::Lib l;
                c.p->insert(v, idx);
            } else {
                auto v = V1<C const>{in.data(), cols};
                sim::Lib l;
                c.p->insert(v, idx);
            }
        }
        model[idx] = x;
        // every row reads back what was last inserted there
        double tol = 0;
        if constexpr (Mode == 2) {
            tol = 0.51 / static_cast<double>(std::numeric_limits<typename Fdl::compressed_type::value_type>::max()) * 1.45;
        }
        for (std::size_t s = 0; s < rows; ++s) {
            auto read = [&](auto get) {
                for (std::size_t i = 0; i < cols; ++i) {
                    auto const g = get(i);
                    sim::mixd(g.real());
                    auto t = tol;
                    if constexpr (Mode == 1) {
                        t = sizeof(V) == 2 ? 1e-3 * std::abs(model[s][i]) + 1e-7 : 0.0;
                    }
                    if (not(std::abs(g - model[s][i]) <= t)) {
                        sim::violation(
                            "mismatch", "delay line %zux%zu row %zu (after insert at %zu) bin %zu: got (%.9g,%.9g) want (%.9g,%.9g)", rows,
                            cols, s, idx, i, g.real(), g.imag(), model[s][i].real(), model[s][i].imag()
                        );
                    }
                }
            };
            if constexpr (Mode == 1) {
                auto const row = std::as_const(*c.p)[s];
                read([&](std::size_t i) { return ref::cd{static_cast<double>(row.real[i]), static_cast<double>(row.imag[i])}; });
            } else {
                auto const row = std::as_const(*c.p)[s];
                read([&](std::size_t i) {
                    C const v = row[i];
                    return ref::cd{static_cast<double>(v.real()), static_cast<double>(v.imag())};
                });
            }
        }
        sim::count("inserts");
    }
};

// x.new:fdlindex slot segments / x.call slot ncalls reset
template<typename Index>
struct FdlIndexXf final : XfBase<FdlIndexXf<Index>>
{
    using T = conv::fdl_index<Index>;
    sim::i64 n;
    Held<T> c;
    std::vector<sim::i64> written;  // slot -> time of the block stored there
    sim::i64 now{0};
    sim::i64 since{0};
    explicit FdlIndexXf(sim::i64 k)
        : n{k}
        , c{std::in_place, [&] { return T{static_cast<Index>(k)}; }}
        , written(static_cast<std::size_t>(k), -1)
    {}
    void call(sim::Op const& op) override
    {
        if (op.at(2) != 0) {
            sim::Lib l;
            c.p->reset();
            since = 0;
            std::fill(written.begin(), written.end(), sim::i64(-1));
        }
        auto const k = clampi(op.at(1), 1, 100000);
        for (sim::i64 i = 0; i < k; ++i) {
            int copies = 0;
            std::vector<char> seen(static_cast<std::size_t>(n), 0);
            auto cp = [&](Index s) {
                sim::NotLib nl;
                ++copies;
                if (static_cast<sim::i64>(s) < 0 or static_cast<sim::i64>(s) >= n) {
                    sim::violation("index", "fdl_index(%lld) writes slot %lld", (long long)n, (long long)s);
                }
                written[static_cast<std::size_t>(s)] = now;
            };
            auto mul = [&](Index s, Index f) {
                sim::NotLib nl;
                auto const si = static_cast<sim::i64>(s), fi = static_cast<sim::i64>(f);
                if (copies != 1 or si < 0 or si >= n or fi < 0 or fi >= n or seen[static_cast<std::size_t>(fi)]) {
                    sim::violation("index", "fdl_index(%lld) pairs slot %lld with segment %lld", (long long)n, (long long)si, (long long)fi);
                }
                seen[static_cast<std::size_t>(fi)] = 1;
                auto const w = written[static_cast<std::size_t>(si)];
                // filter segment f meets the block that is f blocks old (slots never written hold silence)
                if (w >= 0 ? now - w != fi : since > fi) {
                    sim::violation(
                        "index", "fdl_index(%lld) block %lld: segment %lld meets the block that is %lld old", (long long)n,
                        (long long)since, (long long)fi, (long long)(w >= 0 ? now - w : -1)
                    );
                }
            };
            {
                Exhausted ex(this->noalloc, "fdl_index");
                sim::Lib l;
                (*c.p)(cp, mul);
            }
            if (copies != 1 or std::count(seen.begin(), seen.end(), 1) != n) {
                sim::violation("index", "fdl_index(%lld) did not visit every segment once", (long long)n);
            }
            ++now;
            ++since;
        }
        sim::mix(static_cast<sim::u64>(now));
    }
};

// ------------------------------------------------------------------------------------------- sparse matrix
// x.new:csr slot rows cols init seed / x.call slot what row col valueseed
template<typename T, typename Index = std::size_t>
struct CsrXf final : XfBase<CsrXf<T, Index>>
{
    using M = neo::csr_matrix<T, Index>;
    std::size_t rows, cols;
    Held<M> c;
    std::map<std::pair<std::size_t, std::size_t>, double> model;
    bool allocates() const override { return true; }
    static T val(double d)
    {
        if constexpr (neo::complex<T>) {
            return T{static_cast<typename T::value_type>(d), static_cast<typename T::value_type>(-d)};
        } else {
            return static_cast<T>(d);
        }
    }
    static double re(T v)
    {
        if constexpr (neo::complex<T>) {
            return static_cast<double>(v.real());
        } else {
            return static_cast<double>(v);
        }
    }
    static M build(std::size_t r, std::size_t k, int init, sim::i64 seed)
    {
        if (init == 0) {
            return M{r, k};
        }
        sim::NotLib nl;
        sim::Rng g(static_cast<sim::u64>(seed));
        auto m = stdex::mdarray<T, stdex::dextents<std::size_t, 2>>{r, k};
        for (std::size_t i = 0; i < r; ++i) {
            for (std::size_t j = 0; j < k; ++j) {
                m(i, j) = val(cell(g, init));
            }
        }
        sim::Lib l;
        if (init == 3) {
            // keep by position
            return M{m.to_mdspan(), [](auto row, auto col, auto const&) -> bool { return (row + col) % 2 == 0; }};
        }
        return M{m.to_mdspan(), [](auto, auto, auto const& v) -> bool { return re(v) != 0.0; }};
    }
    static double cell(sim::Rng& g, int init)
    {
        auto const keep = init == 1 ? g.chance(0.3) : init == 2 ? g.chance(0.95) : true;
        auto const v    = static_cast<double>(g.range(1, 4096)) / 64.0;
        return keep ? v : 0.0;
    }
    CsrXf(std::size_t r, std::size_t k, int init, sim::i64 seed)
        : rows{r}
        , cols{k}
        , c{std::in_place, [&] { return build(r, k, init, seed); }}
    {
        if (init != 0) {
            sim::Rng g(static_cast<sim::u64>(seed));
            for (std::size_t i = 0; i < r; ++i) {
                for (std::size_t j = 0; j < k; ++j) {
                    auto const v = cell(g, init);
                    if (init == 3 ? (i + j) % 2 == 0 : v != 0.0) {
                        model[{i, j}] = v;
                    }
                }
            }
        }
        verify();
    }
    void verify()
    {
        auto const& m = *c.p;
        if (m.rows() != rows or m.columns() != cols or m.extent(0) != rows or m.extent(1) != cols or m.size() != rows * cols) {
            sim::violation("size", "csr_matrix extents changed");
        }
        for (std::size_t i = 0; i < rows; ++i) {
            for (std::size_t j = 0; j < cols; ++j) {
                auto it         = model.find({i, j});
                double const w  = it == model.end() ? 0.0 : it->second;
                T const v       = m(static_cast<Index>(i), static_cast<Index>(j));
                double const g  = re(v);
                sim::mixd(g);
                bool ok = g == w;
                if constexpr (neo::complex<T>) {
                    ok = ok and static_cast<double>(v.imag()) == (it == model.end() ? 0.0 : -w);
                }
                if (not ok) {
                    sim::violation("mismatch", "csr_matrix %zux%zu element (%zu,%zu): got %.9g want %.9g", rows, cols, i, j, g, w);
                }
            }
        }
        if (m.value_container().size() > model.size() or m.column_container().size() != m.value_container().size()) {
            sim::violation("size", "csr_matrix stores %zu values / %zu columns for %zu elements", size_t(m.value_container().size()), size_t(m.column_container().size()), model.size());
        }
    }
    void call(sim::Op const& op) override
    {
        auto const row = static_cast<std::size_t>(op.at(2)) % rows, col = static_cast<std::size_t>(op.at(3)) % cols;
        sim::Rng g(static_cast<sim::u64>(op.at(4)) + 9);
        if (op.at(1) == 0) {
            double const v = g.chance(0.15) ? 0.0 : static_cast<double>(g.range(-4096, 4096)) / 64.0 + (1.0 / 128.0);
            bool const had = model.count({row, col}) != 0;
            try {
                sim::Lib l;
                c.p->insert(static_cast<Index>(row), static_cast<Index>(col), val(v));
            } catch (std::bad_alloc const&) {
                verify();  // a failed insert changes nothing
                sim::count("probe_failed_insert");
                throw;
            }
            model[{row, col}] = v;
            sim::count(had ? "probe_insert_existing" : "inserts");
            verify();
            return;
        }
        // multiply_add with one row, accumulating in place
        std::vector<T> x(cols), acc(cols);
        std::vector<double> want(cols);
        for (std::size_t j = 0; j < cols; ++j) {
            x[j]   = T(static_cast<float>(g.range(-16, 16)));
            acc[j] = T(static_cast<float>(g.range(-16, 16)));
            auto it = model.find({row, j});
            want[j] = re(acc[j]) + re(x[j]) * (it == model.end() ? 0.0 : it->second);
        }
        {
            auto xv = V1<T const>{x.data(), cols};
            auto av = V1<T>{acc.data(), cols};
            sim::Lib l;
            neo::multiply_add(xv, *c.p, static_cast<Index>(row), av, av);
        }
        for (std::size_t j = 0; j < cols; ++j) {
            sim::mixd(re(acc[j]));
            if (not(std::abs(re(acc[j]) - want[j]) <= 1e-3)) {
                sim::violation("mismatch", "multiply_add with sparse row %zu column %zu: got %.9g want %.9g", row, j, re(acc[j]), want[j]);
            }
        }
        sim::count("probe_multiply_add");
    }
};
