#include "engine_impl.hpp"
using C = std::complex<float>;
using a0 = conv::sparse_upols_convolver<C>;
using a1 = conv::sparse_upola_convolver<C>;
REG_ENGINE("sparse_upols_f32", a0, C, OLS, true, Q_NONE, 6e-8);
REG_ENGINE("sparse_upola_f32", a1, C, OLA, true, Q_NONE, 6e-8);
