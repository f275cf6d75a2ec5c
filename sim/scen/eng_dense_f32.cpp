#include "engine_impl.hpp"
using C = std::complex<float>;
using a0 = conv::upols_convolver<C>;
using a1 = conv::upola_convolver<C>;
using a2 = conv::upola_convolver_v2<C>;
REG_ENGINE("upols_f32", a0, C, OLS, false, Q_NONE, 6e-8);
REG_ENGINE("upola_f32", a1, C, OLA, false, Q_NONE, 6e-8);
REG_ENGINE("v2_f32", a2, C, V2, false, Q_NONE, 6e-8);
