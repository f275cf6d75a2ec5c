#pragma once
#include "engine.hpp"

#include <neo/algorithm.hpp>
#include <neo/complex.hpp>
#include <neo/convolution.hpp>
#include <neo/convolution/compressed_fdl.hpp>

#include <complex>
#include <limits>
#include <memory>
#include <vector>

namespace conv = neo::convolution;

template<typename C>
struct is_v2 : std::false_type
{};
template<typename... T>
struct is_v2<conv::overlap_add_convolver<T...>> : std::true_type
{};

template<typename Conv, typename Complex, bool Sparse>
struct Engine final : IEngine
{
    using Real = typename Complex::value_type;

    Engine()
    {
        sim::Lib l;
        c = std::make_unique<Conv>();
    }
    explicit Engine(std::unique_ptr<Conv> p) : c{std::move(p)} {}
    ~Engine() override
    {
        sim::Lib l;
        c.reset();
    }

    template<typename Span>
    void do_load(Span m, FilterSpec const& f)
    {
        if constexpr (Sparse) {
            auto const bins = static_cast<std::size_t>(f.block) + 1;
            auto const* msk = f.mask.empty() ? nullptr : f.mask.data();
            sim::Lib l;
            c->filter(m, [msk, bins](auto row, auto col, auto) -> bool {
                return msk == nullptr or msk[static_cast<std::size_t>(row) * bins + static_cast<std::size_t>(col)] != 0;
            });
        } else {
            sim::Lib l;
            c->filter(m);
        }
    }

    void load(FilterSpec const& f) override
    {
        auto const bins = static_cast<std::size_t>(f.block) + 1;
        auto const segs = static_cast<std::size_t>(f.segs);
        if (f.source == 1) {
            // user path: partition the impulse response with neo, then load channel ch
            auto ir = stdex::mdarray<Real, stdex::dextents<std::size_t, 2>>{2, f.h.size()};
            for (std::size_t i = 0; i < f.h.size(); ++i) {
                ir(0, i) = Real(0.5) * static_cast<Real>(f.h[f.h.size() - 1 - i]);
                ir(1, i) = static_cast<Real>(f.h[i]);
            }
            if constexpr (std::same_as<Complex, std::complex<Real>>) {
                using Mat = stdex::mdarray<Complex, stdex::dextents<std::size_t, 3>>;
                auto parts = [&]() -> Mat {
                    sim::Lib l;
                    return conv::uniform_partition(ir.to_mdspan(), static_cast<std::size_t>(f.block));
                }();
                if (parts.extent(0) != 2 or parts.extent(1) != segs or parts.extent(2) != bins) {
                    sim::violation(
                        "partition", "uniform_partition shape %zux%zux%zu, expected 2x%zux%zu", size_t(parts.extent(0)),
                        size_t(parts.extent(1)), size_t(parts.extent(2)), segs, bins
                    );
                }
                do_load(stdex::submdspan(parts.to_mdspan(), 1, stdex::full_extent, stdex::full_extent), f);
                return;
            }
        }
        std::vector<ref::cvec> H;
        for (int s = 0; s < f.segs; ++s) {
            H.push_back(f.spectrum(s));
        }
        auto const nan = std::numeric_limits<double>::quiet_NaN();
        auto fill      = [&](auto&& m) {
            for (std::size_t s = 0; s < segs; ++s) {
                for (std::size_t k = 0; k < bins; ++k) {
                    auto const v = f.poison ? ref::cd{nan, nan} : H[s][k];
                    m(s, k)      = Complex{static_cast<Real>(v.real()), static_cast<Real>(v.imag())};
                }
            }
        };
        if (f.layout == 1) {
            auto m = stdex::mdarray<Complex, stdex::dextents<std::size_t, 2>, stdex::layout_left>{segs, bins};
            fill(m);
            auto const keep = m.container();
            do_load(std::as_const(m).to_mdspan(), f);
        } else if (f.layout == 2) {
            // a strided view into a larger, poisoned buffer
            std::vector<Complex> buf((segs + 1) * (bins * 2 + 3), Complex{Real(1e6), Real(-1e6)});
            using E = stdex::dextents<std::size_t, 2>;
            auto m  = stdex::mdspan<Complex, E, stdex::layout_stride>{
                buf.data() + 1,
                typename stdex::layout_stride::template mapping<E>{E{segs, bins}, std::array<std::size_t, 2>{bins * 2 + 3, 2}}
            };
            fill(m);
            do_load(m, f);
        } else {
            auto m = stdex::mdarray<Complex, stdex::dextents<std::size_t, 2>>{segs, bins};
            fill(m);
            do_load(m.to_mdspan(), f);
        }
    }

    void process(double* io, std::size_t n, int view) override
    {
        std::size_t const stride = view == 0 ? 1 : static_cast<std::size_t>(view) + 1;
        auto const canary        = Real(-77);
        std::vector<Real> buf(n * stride + 2 * stride, canary);
        for (std::size_t i = 0; i < n; ++i) {
            buf[stride + i * stride] = static_cast<Real>(io[i]);
        }
        if (view == 0) {
            auto m = stdex::mdspan<Real, stdex::dextents<std::size_t, 1>>{buf.data() + stride, n};
            sim::Lib l;
            (*c)(m);
        } else {
            using E = stdex::dextents<std::size_t, 1>;
            auto m  = stdex::mdspan<Real, E, stdex::layout_stride>{
                buf.data() + stride,
                typename stdex::layout_stride::template mapping<E>{E{n}, std::array<std::size_t, 1>{stride}}
            };
            sim::Lib l;
            (*c)(m);
        }
        for (std::size_t i = 0; i < buf.size(); ++i) {
            bool const mine = i >= stride and (i - stride) % stride == 0 and (i - stride) / stride < n;
            if (not mine and buf[i] != canary) {
                sim::violation("stray-write", "element outside the block view was written (offset %zu)", i);
            }
        }
        for (std::size_t i = 0; i < n; ++i) {
            io[i] = static_cast<double>(buf[stride + i * stride]);
        }
    }

    std::unique_ptr<IEngine> clone() const override
    {
        if constexpr (std::is_copy_constructible_v<Conv>) {
            std::unique_ptr<Conv> p;
            {
                sim::Lib l;
                p = std::make_unique<Conv>(*c);
            }
            return std::make_unique<Engine>(std::move(p));
        } else {
            return nullptr;  // vendor backed plans only move
        }
    }
    std::unique_ptr<IEngine> take() override
    {
        std::unique_ptr<Conv> p;
        {
            sim::Lib l;
            p = std::make_unique<Conv>(std::move(*c));
        }
        return std::make_unique<Engine>(std::move(p));
    }
    void assign(IEngine const& o) override
    {
        if constexpr (std::is_copy_assignable_v<Conv>) {
            sim::Lib l;
            *c = *static_cast<Engine const&>(o).c;
        }
    }
    void assign_move(IEngine& o) override
    {
        sim::Lib l;
        *c = std::move(*static_cast<Engine&>(o).c);
    }

    std::unique_ptr<Conv> c;
};

template<typename Conv, typename Complex, bool Sparse>
std::unique_ptr<IEngine> make_engine()
{
    return std::make_unique<Engine<Conv, Complex, Sparse>>();
}

#define REG_ENGINE(NAME, CONV, COMPLEX, METHOD, SPARSE, QUANT, EPS)                                                     \
    static EngineReg const NEO_SIM_CAT(reg_, __LINE__){                                                                \
        EngineInfo{NAME, METHOD, SPARSE, QUANT, EPS, &make_engine<CONV, COMPLEX, SPARSE>}                               \
    }
#define NEO_SIM_CAT2(a, b) a##b
#define NEO_SIM_CAT(a, b)  NEO_SIM_CAT2(a, b)
