#include "engine_impl.hpp"
using C = std::complex<double>;
using a0 = conv::split_upols_convolver<C>;
using a1 = conv::split_upola_convolver<C>;
REG_ENGINE("split_upols_f64", a0, C, OLS, false, Q_NONE, 1.2e-16);
REG_ENGINE("split_upola_f64", a1, C, OLA, false, Q_NONE, 1.2e-16);
