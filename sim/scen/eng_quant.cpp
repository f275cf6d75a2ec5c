#include "engine_impl.hpp"
using C  = std::complex<float>;
using i16 = conv::uniform_partitioned_convolver<conv::overlap_save<C>, conv::compressed_fdl<C, neo::scalar_complex<std::int16_t>>, conv::dense_filter<C>>;
using i16a = conv::uniform_partitioned_convolver<conv::overlap_add<C>, conv::compressed_fdl<C, neo::scalar_complex<std::int16_t>>, conv::dense_filter<C>>;
using i8 = conv::uniform_partitioned_convolver<conv::overlap_save<C>, conv::compressed_fdl<C, neo::scalar_complex<std::int8_t>>, conv::dense_filter<C>>;
REG_ENGINE("compressed16_upols", i16, C, OLS, false, Q_I16, 6e-8);
REG_ENGINE("compressed16_upola", i16a, C, OLA, false, Q_I16, 6e-8);
REG_ENGINE("compressed8_upols", i8, C, OLS, false, Q_I8, 6e-8);
#if defined(NEO_HAS_BUILTIN_FLOAT16)
using f16 = conv::uniform_partitioned_convolver<conv::overlap_add<C>, conv::dense_split_fdl<_Float16>, conv::dense_split_filter<_Float16>>;
REG_ENGINE("split_upola_f16", f16, C, OLA, false, Q_F16, 6e-8);
#endif
