// Transform plans and vector operations of neo on top of the (simulated) vendor libraries.
#include "xf_plans.hpp"
#include "vend_lib.hpp"

#include <neo/algorithm/multiply_add.hpp>
#include <neo/algorithm/scale.hpp>

template<typename R>
using SC = neo::scalar_complex<R>;
template<typename R>
using SD = std::complex<R>;

#define VCAT2(a, b) a##b
#define VCAT(a, b)  VCAT2(a, b)
#define BOTH(NAME, MAKE32, MAKE64)                                        \
    static XfReg const VCAT(r32_, __LINE__){NAME "_f32", MAKE32};         \
    static XfReg const VCAT(r64_, __LINE__){NAME "_f64", MAKE64}
#define VC2C(NAME, CPLX, RADIX, MIN, MAXO, PLAN) \
    BOTH(NAME, (&xf_make_named<C2C<CPLX<float>, PLAN<CPLX<float>>, RADIX>, MIN, MAXO>), (&xf_make_named<C2C<CPLX<double>, PLAN<CPLX<double>>, RADIX>, MIN, MAXO>))

VC2C("fft", SD, 2, 0, 18, nf::fft_plan);
VC2C("fft_sc", SC, 2, 0, 18, nf::fft_plan);
VC2C("bluestein", SD, 0, 1, 100000, nf::dft_plan);
BOTH("rfft", (&xf_make_named<RFFT<SD<float>>, 0, 18>), (&xf_make_named<RFFT<SD<double>>, 0, 18>));
BOTH("rfft_sc", (&xf_make_named<RFFT<SC<float>>, 0, 18>), (&xf_make_named<RFFT<SC<double>>, 0, 18>));
BOTH("rfft_pair", (&xf_make_order<RfftPair<SD<float>>, 18>), (&xf_make_order<RfftPair<SD<double>>, 18>));
BOTH("dct2", (&xf_make_order<DCT2<float>, 18>), (&xf_make_order<DCT2<double>, 18>));
BOTH("split_fft", (&xf_make_order<SplitFFT<float>, 18>), (&xf_make_order<SplitFFT<double>, 18>));
#if defined(NEO_HAS_INTEL_MKL)
VC2C("mkl", SD, 2, 0, 18, nf::intel_mkl_fft_plan);
VC2C("mkl_sc", SC, 2, 0, 18, nf::intel_mkl_fft_plan);
#endif

#if defined(NEO_HAS_INTEL_IPP)
// IPP's orthonormal cosine transforms
template<typename Real, nf::direction D>
struct IppDct final : XfBase<IppDct<Real, D>>
{
    using Plan = nf::intel_ipp_dct_plan<Real, D>;
    std::size_t n;
    Held<Plan> plan;
    explicit IppDct(std::size_t order)
        : n{std::size_t(1) << order}
        , plan{std::in_place, [&] { return Plan{nf::from_order, order}; }}
    {
        if (plan.p->size() != n or plan.p->order() != order) {
            sim::violation("size", "intel_ipp_dct_plan size");
        }
    }
    void call(sim::Op const& op) override
    {
        sim::Rng r(static_cast<sim::u64>(op.at(1)) * 7919 + 11);
        auto x = ref::make(r, n, static_cast<int>(op.at(4)), ref::level(op.at(5, 100)));
        std::size_t const st = op.at(3) & 1 ? 2 : 1;
        std::vector<Real> b(n * st + 1, Real(-77));
        for (std::size_t i = 0; i < n; ++i) {
            b[i * st] = static_cast<Real>(x[i]);
            x[i]      = static_cast<double>(b[i * st]);
        }
        {
            Exhausted ex(this->noalloc, "intel_ipp_dct_plan");
            auto v = strided(b.data(), n, st);
            auto w = V1<Real>{b.data(), n};
            sim::Lib l;
            if (st == 1) {
                (*plan.p)(w);
            } else {
                (*plan.p)(v);
            }
        }
        ref::cvec g(n), w(n);
        for (std::size_t k = 0; k < n; ++k) {
            double s = 0;
            for (std::size_t i = 0; i < n; ++i) {
                auto const c = [&](std::size_t q) { return std::sqrt((q == 0 ? 1.0 : 2.0) / double(n)); };
                s += D == nf::direction::forward ? c(k) * x[i] * std::cos(std::numbers::pi * double((2 * i + 1) * k) / (2.0 * double(n)))
                                                 : c(i) * x[i] * std::cos(std::numbers::pi * double((2 * k + 1) * i) / (2.0 * double(n)));
            }
            w[k] = s;
            g[k] = static_cast<double>(b[k * st]);
        }
        for (std::size_t i = 0; i < b.size(); ++i) {
            if ((i % st != 0 or i / st >= n) and b[i] != Real(-77)) {
                sim::violation("stray-write", "intel_ipp_dct_plan wrote offset %zu", i);
            }
        }
        xf_compare("intel_ipp_dct_plan", n, D == nf::direction::forward ? 0 : 1, g, w, xf_tol<Real>(n, ref::norm2(x), 3.0));
    }
};
BOTH("ipp_dct2", (&xf_make_order<IppDct<float, nf::direction::forward>, 8>), (&xf_make_order<IppDct<double, nf::direction::forward>, 8>));
BOTH("ipp_dct3", (&xf_make_order<IppDct<float, nf::direction::backward>, 8>), (&xf_make_order<IppDct<double, nf::direction::backward>, 8>));
#endif

// scaling: x.call slot seed alphakind view kind amp% length
template<typename Elem, typename Alpha, typename Real>
struct Scale final : XfBase<Scale<Elem, Alpha, Real>>
{
    static Elem el(ref::cd v)
    {
        if constexpr (std::is_same_v<Elem, Real>) {
            return static_cast<Real>(v.real());
        } else {
            return Elem{static_cast<Real>(v.real()), static_cast<Real>(v.imag())};
        }
    }
    static ref::cd cd(Elem e)
    {
        if constexpr (std::is_same_v<Elem, Real>) {
            return {static_cast<double>(e), 0.0};
        } else {
            return {static_cast<double>(e.real()), static_cast<double>(e.imag())};
        }
    }
    void call(sim::Op const& op) override
    {
        sim::Rng r(static_cast<sim::u64>(op.at(1)) * 7919 + 11);
        auto const n    = static_cast<std::size_t>(1 + (op.at(6, 1) % 4000 + 4000) % 4000);
        auto const x    = xf_data(r, n, static_cast<int>(op.at(4)), ref::level(op.at(5, 100)), sizeof(Real) == 4);
        double const ar = r.pick({0.0, 1.0, -1.0, 0.25, -3.0, 1e-3, r.sym()});
        double const ai = r.pick({0.0, 1.0, -0.5, r.sym()});
        Alpha alpha{};
        ref::cd a{};
        if constexpr (std::is_same_v<Alpha, Real>) {
            alpha = static_cast<Real>(ar);
            a     = {static_cast<double>(alpha), 0.0};
        } else {
            alpha = Alpha{static_cast<Real>(ar), static_cast<Real>(ai)};
            a     = {static_cast<double>(alpha.real()), static_cast<double>(alpha.imag())};
        }
        int const view = static_cast<int>(op.at(3));
        // 0 vector, 1 every third element, 2 rows x columns, 3 part of a matrix
        std::size_t const st = view == 1 ? 3 : 1;
        std::vector<Elem> b(n * st + 2, el({-77, 0}));
        for (std::size_t i = 0; i < n; ++i) {
            b[1 + i * st] = el(x[i]);
        }
        std::size_t rows = 1, cols = n, ld = n;
        if (view >= 2) {
            rows = 1 + static_cast<std::size_t>(r.below(std::min<std::size_t>(n, 5)));
            ld   = n / rows;
            cols = view == 3 ? std::max<std::size_t>(1, ld / 2) : ld;
        }
        {
            Exhausted ex(this->noalloc, "scale");
            if (view == 1) {
                auto v = strided(b.data() + 1, n, st);
                sim::Lib l;
                neo::scale(alpha, v);
            } else if (view == 0) {
                auto v = V1<Elem>{b.data() + 1, n};
                sim::Lib l;
                neo::scale(alpha, v);
            } else {
                using E = stdex::dextents<std::size_t, 2>;
                if (view == 2) {
                    auto v = stdex::mdspan<Elem, E>{b.data() + 1, rows, cols};
                    sim::Lib l;
                    neo::scale(alpha, v);
                } else {
                    auto v = stdex::mdspan<Elem, E, stdex::layout_stride>{
                        b.data() + 1, typename stdex::layout_stride::template mapping<E>{E{rows, cols}, std::array<std::size_t, 2>{ld, 1}}};
                    sim::Lib l;
                    neo::scale(alpha, v);
                }
            }
        }
        double const eps = sizeof(Real) == 4 ? 6e-8 : 1.2e-16;
        for (std::size_t i = 0; i < b.size(); ++i) {
            bool const cell = i >= 1 and (i - 1) % st == 0 and (i - 1) / st < n;
            if (not cell) {
                if (b[i] != el({-77, 0})) {
                    sim::violation("stray-write", "scale wrote offset %zu", i);
                }
                continue;
            }
            auto const j   = (i - 1) / st;
            bool const hit = view < 2 or (j / ld < rows and j % ld < cols);
            auto const v   = cd(el(x[j]));
            if (not std::isfinite(std::abs(v))) {
                continue;
            }
            auto const want = hit ? v * a : v;
            if (not(std::abs(cd(b[i]) - want) <= 4 * eps * (std::abs(v) * std::abs(a)) + 1e-37)) {
                sim::violation("mismatch", "scale n=%zu view=%d element %zu: got (%g,%g) want (%g,%g)", n, view, j, cd(b[i]).real(), cd(b[i]).imag(), want.real(), want.imag());
            }
        }
    }
};
#define SCALEK(NAME, E32, A32, E64, A64)                                                                                          \
    BOTH(NAME, ([](sim::Op const&) -> std::unique_ptr<IXf> { return std::make_unique<Scale<E32, A32, float>>(); }),                \
         ([](sim::Op const&) -> std::unique_ptr<IXf> { return std::make_unique<Scale<E64, A64, double>>(); }))
SCALEK("scale_r", float, float, double, double);
SCALEK("scale_cr", std::complex<float>, float, std::complex<double>, double);
SCALEK("scale_cc", std::complex<float>, std::complex<float>, std::complex<double>, std::complex<double>);

// out = x * y + z on split-complex vectors: x.call slot seed alias view kind amp% length
template<typename Real>
struct SplitMac final : XfBase<SplitMac<Real>>
{
    void call(sim::Op const& op) override
    {
        sim::Rng r(static_cast<sim::u64>(op.at(1)) * 7919 + 11);
        auto const n = static_cast<std::size_t>(1 + (op.at(6, 1) % 4000 + 4000) % 4000);
        int const al = static_cast<int>(op.at(2) & 1);  // accumulate into z
        std::size_t const st = op.at(3) & 1 ? 2 : 1;
        ref::cvec d[3];
        std::vector<Real> re[4], im[4];
        for (int k = 0; k < 4; ++k) {
            re[k].assign(n * st + 1, Real(-77));
            im[k].assign(n * st + 1, Real(-77));
            if (k < 3) {
                d[k] = xf_data(r, n, static_cast<int>(op.at(4)), ref::level(op.at(5, 100)), sizeof(Real) == 4);
                for (std::size_t i = 0; i < n; ++i) {
                    re[k][i * st] = static_cast<Real>(d[k][i].real());
                    im[k][i * st] = static_cast<Real>(d[k][i].imag());
                }
            }
        }
        int const o = al ? 2 : 3;
        {
            Exhausted ex(this->noalloc, "multiply_add");
            auto run = [&](auto mk) {
                auto x = mk(0), y = mk(1), z = mk(2), out = mk(o);
                sim::Lib l;
                neo::multiply_add(x, y, z, out);
            };
            if (st == 1) {
                run([&](int k) { return neo::split_complex{V1<Real>{re[k].data(), n}, V1<Real>{im[k].data(), n}}; });
            } else {
                run([&](int k) { return neo::split_complex{strided(re[k].data(), n, st), strided(im[k].data(), n, st)}; });
            }
        }
        double const eps = sizeof(Real) == 4 ? 6e-8 : 1.2e-16;
        for (std::size_t i = 0; i < n; ++i) {
            auto const want = d[0][i] * d[1][i] + d[2][i];
            if (not std::isfinite(std::abs(want)) or std::abs(want) > 1e30) {
                continue;
            }
            ref::cd const got{static_cast<double>(re[o][i * st]), static_cast<double>(im[o][i * st])};
            if (not(std::abs(got - want) <= 8 * eps * (std::abs(d[0][i]) * std::abs(d[1][i]) + std::abs(d[2][i])) + 1e-36)) {
                sim::violation("mismatch", "multiply_add n=%zu element %zu: got (%g,%g) want (%g,%g)", n, i, got.real(), got.imag(), want.real(), want.imag());
            }
        }
    }
};
BOTH("splitmac", ([](sim::Op const&) -> std::unique_ptr<IXf> { return std::make_unique<SplitMac<float>>(); }),
     ([](sim::Op const&) -> std::unique_ptr<IXf> { return std::make_unique<SplitMac<double>>(); }));

// A plan nobody can have: must be refused (any exception), without keeping anything
template<typename P>
std::unique_ptr<IXf> refuse(sim::Op const& op)
{
    bool threw = false;
    try {
        sim::Lib l;
        P p{nf::from_order, static_cast<std::size_t>(56 + (op.at(1) & 3))};
    } catch (std::exception const&) {
        threw = true;
    }
    sim::count("probe_refused_order");
    if (not threw) {
        sim::violation("accepted", "a transform of order %d was accepted", 56 + static_cast<int>(op.at(1) & 3));
    }
    return nullptr;
}
BOTH("huge_fft", (&refuse<nf::fft_plan<SD<float>>>), (&refuse<nf::fft_plan<SD<double>>>));
BOTH("huge_rfft", (&refuse<nf::rfft_plan<float>>), (&refuse<nf::rfft_plan<double>>));
BOTH("huge_split", (&refuse<nf::split_fft_plan<float>>), (&refuse<nf::split_fft_plan<double>>));
#if defined(NEO_HAS_INTEL_MKL)
BOTH("huge_mkl", (&refuse<nf::intel_mkl_fft_plan<SD<float>>>), (&refuse<nf::intel_mkl_fft_plan<SD<double>>>));
#endif
