#include "engine_impl.hpp"
using C  = neo::complex64;
using D  = neo::complex128;
using a0 = conv::upols_convolver<C>;
using a1 = conv::upola_convolver<D>;
REG_ENGINE("upols_c64", a0, C, OLS, false, Q_NONE, 6e-8);
REG_ENGINE("upola_c128", a1, D, OLA, false, Q_NONE, 1.2e-16);
