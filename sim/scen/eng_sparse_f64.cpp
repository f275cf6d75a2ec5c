#include "engine_impl.hpp"
using C = std::complex<double>;
using a0 = conv::sparse_upols_convolver<C>;
using a1 = conv::sparse_upola_convolver<C>;
REG_ENGINE("sparse_upols_f64", a0, C, OLS, true, Q_NONE, 1.2e-16);
REG_ENGINE("sparse_upola_f64", a1, C, OLA, true, Q_NONE, 1.2e-16);
