#include "xf_misc.hpp"
template<typename R>
static std::unique_ptr<IXf> mk_fftconv(sim::Op const& op)
{
    return std::make_unique<FftConv<R>>(static_cast<std::size_t>(clampi(op.at(1), 1, 100000)), static_cast<std::size_t>(clampi(op.at(2), 1, 100000)));
}
static XfReg const a1{"fftconv_f32", &mk_fftconv<float>};
static XfReg const a2{"fftconv_f64", &mk_fftconv<double>};
static XfReg const a3{"freeconv_f32", [](sim::Op const&) -> std::unique_ptr<IXf> { return std::make_unique<FreeConv<float>>(); }};
static XfReg const a4{"freeconv_f64", [](sim::Op const&) -> std::unique_ptr<IXf> { return std::make_unique<FreeConv<double>>(); }};
template<typename R>
static std::unique_ptr<IXf> mk_stft(sim::Op const& op)
{
    auto const win = static_cast<int>(clampi(op.at(4), 0, 4));
    auto trans     = std::size_t(1) << clampi(op.at(2), 1, 12);
    auto frame     = static_cast<std::size_t>(clampi(op.at(1), 2, static_cast<sim::i64>(trans)));
    if (win != 0) {
        frame = trans;
    }
    auto over = static_cast<std::size_t>(clampi(op.at(3), 0, static_cast<sim::i64>(frame) - 1));
    if (win == 3) {
        over = trans / 2;
    }
    return std::make_unique<Stft<R>>(frame, trans, over, win);
}
static XfReg const a5{"stft_f32", &mk_stft<float>};
static XfReg const a6{"stft_f64", &mk_stft<double>};
static XfReg const a7{"partition_f32", [](sim::Op const&) -> std::unique_ptr<IXf> { return std::make_unique<Partition<float>>(); }};
static XfReg const a8{"partition_f64", [](sim::Op const&) -> std::unique_ptr<IXf> { return std::make_unique<Partition<double>>(); }};
