#include "engine_impl.hpp"
using C = std::complex<float>;
using a0 = conv::split_upols_convolver<C>;
using a1 = conv::split_upola_convolver<C>;
REG_ENGINE("split_upols_f32", a0, C, OLS, false, Q_NONE, 6e-8);
REG_ENGINE("split_upola_f32", a1, C, OLA, false, Q_NONE, 6e-8);
