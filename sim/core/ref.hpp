// Reference models and input generation.  Plain double arithmetic, independent of neo.
#pragma once
#include "sim.hpp"

#include <complex>
#include <cstddef>
#include <vector>

namespace ref {
using vec  = std::vector<double>;
using cd   = std::complex<double>;
using cvec = std::vector<cd>;

// y[n] for n in [from, to): sum_k h[k] x[n-k]
vec direct(vec const& x, vec const& h, std::size_t from, std::size_t to);
// DFT of any size (fast for powers of two); sign -1 forward, +1 backward (unnormalised)
cvec dft(cvec const& x, int sign);
// half spectrum of zero padded real input
cvec rfft(vec const& x, std::size_t n);
vec irfft(cvec const& half, std::size_t n);  // normalised

// deterministic input material
enum Kind
{
    noise,
    impulse,
    dc,
    silence,
    sine,
    denormal,
    sparse_noise,
    alternating,
    ramp,
    tail_only,
    quiet,
    kind_count,
    poisoned = 97,  // contains NaN or infinity
};
vec make(sim::Rng& r, std::size_t n, int kind, double amp);
// impulse responses: kind 0 noise, 1 decaying, 2 single tap, 3 last tap only, 4 sparse taps, 5 all ones-ish, 6 zero
vec make_ir(sim::Rng& r, std::size_t n, int kind);
inline constexpr int ir_count = 14;
// amplitude: percent, or a power of ten when not positive
double level(long long percent);
double norm2(vec const& v);
double norm1(vec const& v);
double maxabs(vec const& v);
}  // namespace ref
