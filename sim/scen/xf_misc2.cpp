#include "xf_misc.hpp"
template<typename R, template<typename> typename S, typename C = std::complex<R>>
static std::unique_ptr<IXf> mk_ov(sim::Op const& op)
{
    auto b = clampi(op.at(1), 1, 5000), f = clampi(op.at(2), 1, 5000);
    if (b + f - 1 < 2) {
        f = 2;
    }
    return std::make_unique<Overlap<R, S, C>>(static_cast<std::size_t>(b), static_cast<std::size_t>(f), static_cast<int>(op.at(3)), op.at(4));
}
static XfReg const b1{"ola_f32", &mk_ov<float, conv::overlap_add>};
static XfReg const b2{"ols_f32", &mk_ov<float, conv::overlap_save>};
static XfReg const b3{"ola_f64", &mk_ov<double, conv::overlap_add>};
static XfReg const b4{"ols_f64", &mk_ov<double, conv::overlap_save>};
static XfReg const b5{"ola_sc", &mk_ov<float, conv::overlap_add, neo::scalar_complex<float>>};
static XfReg const b6{"ols_sc", &mk_ov<double, conv::overlap_save, neo::scalar_complex<double>>};
template<typename F, int Mode>
static std::unique_ptr<IXf> mk_fdl(sim::Op const& op)
{
    return std::make_unique<FdlXf<F, Mode>>(static_cast<std::size_t>(clampi(op.at(1), 1, 1000)), static_cast<std::size_t>(clampi(op.at(2), 1, 1000)));
}
static XfReg const b7{"fdl_dense", &mk_fdl<conv::dense_fdl<std::complex<float>>, 0>};
static XfReg const b8{"fdl_split", &mk_fdl<conv::dense_split_fdl<float>, 1>};
static XfReg const b9{"fdl_i16", &mk_fdl<conv::compressed_fdl<std::complex<float>, neo::scalar_complex<std::int16_t>>, 2>};
static XfReg const b10{"fdl_i8", &mk_fdl<conv::compressed_fdl<std::complex<float>, neo::scalar_complex<std::int8_t>>, 2>};
#if defined(NEO_HAS_BUILTIN_FLOAT16)
static XfReg const b11{"fdl_f16", &mk_fdl<conv::dense_split_fdl<_Float16>, 1>};
#endif
template<typename I>
static std::unique_ptr<IXf> mk_idx(sim::Op const& op)
{
    return std::make_unique<FdlIndexXf<I>>(clampi(op.at(1), 1, 1000));
}
static XfReg const b12{"fdlindex", &mk_idx<std::size_t>};
static XfReg const b13{"fdlindex_int", &mk_idx<int>};
template<typename T, typename I>
static std::unique_ptr<IXf> mk_csr(sim::Op const& op)
{
    return std::make_unique<CsrXf<T, I>>(
        static_cast<std::size_t>(clampi(op.at(1), 1, 400)), static_cast<std::size_t>(clampi(op.at(2), 1, 400)), static_cast<int>(clampi(op.at(3), 0, 3)), op.at(4)
    );
}
static XfReg const b14{"csr_f32", &mk_csr<float, std::size_t>};
static XfReg const b15{"csr_f64", &mk_csr<double, std::size_t>};
static XfReg const b16{"csr_c64", &mk_csr<std::complex<float>, std::size_t>};
static XfReg const b17{"csr_c128", &mk_csr<std::complex<double>, std::size_t>};
