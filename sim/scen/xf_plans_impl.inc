// included with REAL and SUF defined
#include "xf_plans.hpp"
using R  = REAL;
using C  = std::complex<R>;
using SC = neo::scalar_complex<R>;
#define K2(a, b) a b
#define REG_C2C(NAME, CPLX, RADIX, MAXO, ...)                                                                            \
    static XfReg const K_CAT(reg_, __LINE__){K2(NAME, SUF), &xf_make_named<C2C<CPLX, __VA_ARGS__, RADIX>, (RADIX == 2 and PART == 1) ? 0 : 1, MAXO>}
#define K_CAT2(a, b) a##b
#define K_CAT(a, b)  K_CAT2(a, b)
#if PART == 1
REG_C2C("fft", C, 2, 18, nf::fft_plan<C>);
REG_C2C("fft_sc", SC, 2, 18, nf::fft_plan<SC>);
REG_C2C("dit2v1", C, 2, 18, nf::c2c_dit2_plan<C, nf::kernel::c2c_dit2_v1>);
REG_C2C("dit2v2", C, 2, 18, nf::c2c_dit2_plan<C, nf::kernel::c2c_dit2_v2>);
REG_C2C("dit2v4", C, 2, 18, nf::c2c_dit2_plan<C, nf::kernel::c2c_dit2_v4>);
REG_C2C("dit4", C, 4, 9, nf::c2c_dit4_plan<C>);
REG_C2C("dif4", C, 4, 9, nf::c2c_dif4_plan<C>);
REG_C2C("dif3", C, 3, 11, nf::c2c_dif3_plan<C>);
REG_C2C("dif5", C, 5, 7, nf::c2c_dif5_plan<C>);
static XfReg const r_rfft{K2("rfft", SUF), &xf_make_named<RFFT<C>, 0, 18>};
static XfReg const r_rfftsc{K2("rfft_sc", SUF), &xf_make_named<RFFT<SC>, 0, 18>};
static XfReg const r_expc{K2("exp_c2c", SUF), &xf_make_order<ExpC2C<R>, 18>};
static XfReg const r_expr{K2("exp_rfft", SUF), [](sim::Op const& op) -> std::unique_ptr<IXf> {
    return std::make_unique<ExpRFFT<R>>(static_cast<std::size_t>(std::min<sim::i64>(std::max<sim::i64>(op.at(1), 1), 10)));
}};
static XfReg const r_pair{K2("rfft_pair", SUF), &xf_make_order<RfftPair<C>, 18>};
static XfReg const r_pairsc{K2("rfft_pair_sc", SUF), &xf_make_order<RfftPair<SC>, 18>};
static XfReg const r_naive{K2("naive", SUF), &xf_make_order<Naive<C>, 1000>};
static XfReg const r_dct{K2("dct2", SUF), &xf_make_order<DCT2<R>, 18>};
static XfReg const r_split{K2("split_fft", SUF), &xf_make_order<SplitFFT<R>, 18>};
#else
REG_C2C("stockham_dif2r", C, 2, 18, nf::c2c_stockham_dif2r_plan<C>);
REG_C2C("stockham_dif2i", C, 2, 18, nf::c2c_stockham_dif2i_plan<C>);
REG_C2C("stockham_dif3", C, 3, 11, nf::c2c_stockham_dif3_plan<C>);
REG_C2C("stockham_dif4", C, 4, 9, nf::c2c_stockham_dif4_plan<C>);
REG_C2C("stockham_dif5", C, 5, 7, nf::c2c_stockham_dif5_plan<C>);
REG_C2C("stockham_dif8", C, 8, 6, nf::c2c_stockham_dif8_plan<C>);
REG_C2C("stockham_dit4", C, 4, 9, nf::c2c_stockham_dit4_plan<C>);
REG_C2C("bluestein", C, 0, 100000, nf::dft_plan<C>);
#endif
