#include "ref.hpp"

#include <limits>

#include <algorithm>
#include <cmath>
#include <numbers>

namespace ref {

vec direct(vec const& x, vec const& h, std::size_t from, std::size_t to)
{
    vec y(to - from, 0.0);
    for (std::size_t n = from; n < to; ++n) {
        // short partial sums: a running sum over thousands of like terms would lose more than what is checked
        double s = 0;
        // x[n-k] exists for k in [max(0, n-len+1), n]
        std::size_t k0 = n + 1 > x.size() ? n + 1 - x.size() : 0;
        std::size_t k1 = std::min(n + 1, h.size());
        double carry = 0;
        for (std::size_t k = k0; k < k1; k += 64) {
            double p[4] = {0, 0, 0, 0};
            auto const e = std::min(k + 64, k1);
            std::size_t i = k;
            for (; i + 4 <= e; i += 4) {
                for (std::size_t l = 0; l < 4; ++l) {
                    p[l] += h[i + l] * x[n - i - l];
                }
            }
            for (; i < e; ++i) {
                p[0] += h[i] * x[n - i];
            }
            auto const v = (p[0] + p[1]) + (p[2] + p[3]) - carry;
            auto const t = s + v;
            carry        = (t - s) - v;
            s            = t;
        }
        y[n - from] = s;
    }
    return y;
}

static void fft_pow2(cvec& a, int sign)
{
    auto const n = a.size();
    for (std::size_t i = 1, j = 0; i < n; ++i) {
        std::size_t bit = n >> 1;
        for (; j & bit; bit >>= 1) {
            j ^= bit;
        }
        j ^= bit;
        if (i < j) {
            std::swap(a[i], a[j]);
        }
    }
    static cvec tables[2][14];
    cvec fresh;
    auto const order = static_cast<std::size_t>(__builtin_ctzll(n));
    auto& w          = order < 14 ? tables[sign < 0 ? 0 : 1][order] : fresh;
    if (w.empty()) {
        w.resize(n / 2 + 1);
        for (std::size_t k = 0; k < n / 2; ++k) {
            w[k] = std::polar(1.0, sign * 2.0 * std::numbers::pi * double(k) / double(n));
        }
    }
    for (std::size_t len = 2; len <= n; len <<= 1) {
        auto const st = n / len;
        for (std::size_t i = 0; i < n; i += len) {
            for (std::size_t k = 0; k < len / 2; ++k) {
                auto const u = a[i + k];
                auto const v = a[i + k + len / 2] * w[k * st];
                a[i + k]           = u + v;
                a[i + k + len / 2] = u - v;
            }
        }
    }
}

using ld = long double;
// splits off the smallest factor; a prime length is summed directly.  w: roots of unity of the whole length, step = whole / n
static void dft_any(std::complex<ld> const* x, std::size_t st, std::complex<ld>* y, std::size_t n, std::vector<std::complex<ld>> const& w, std::size_t step)
{
    auto const mul = [](std::complex<ld> a, std::complex<ld> b) {
        return std::complex<ld>{a.real() * b.real() - a.imag() * b.imag(), a.real() * b.imag() + a.imag() * b.real()};
    };
    std::size_t p = 2;
    while (p * p <= n and n % p != 0) {
        ++p;
    }
    if (n % p != 0 or p == n) {
        for (std::size_t k = 0; k < n; ++k) {
            std::complex<ld> s{};
            for (std::size_t m = 0; m < n; ++m) {
                s += mul(x[m * st], w[(k * m % n) * step]);
            }
            y[k] = s;
        }
        return;
    }
    auto const m = n / p;
    std::vector<std::complex<ld>> sub(n);
    for (std::size_t q = 0; q < p; ++q) {
        dft_any(x + q * st, st * p, sub.data() + q * m, m, w, step * p);
    }
    for (std::size_t k = 0; k < n; ++k) {
        std::complex<ld> s{};
        for (std::size_t q = 0; q < p; ++q) {
            s += mul(sub[q * m + k % m], w[(q * k % n) * step]);
        }
        y[k] = s;
    }
}

cvec dft(cvec const& x, int sign)
{
    auto const n = x.size();
    if (n == 0) {
        return {};
    }
    if ((n & (n - 1)) == 0 and n > 16) {
        auto a = x;
        fft_pow2(a, sign);
        return a;
    }
    std::vector<std::complex<ld>> w(n), in(n), out(n);
    for (std::size_t k = 0; k < n; ++k) {
        w[k]  = std::polar(ld(1), sign * 2 * std::numbers::pi_v<ld> * ld(k) / ld(n));
        in[k] = {ld(x[k].real()), ld(x[k].imag())};
    }
    dft_any(in.data(), 1, out.data(), n, w, 1);
    cvec y(n);
    for (std::size_t k = 0; k < n; ++k) {
        y[k] = {double(out[k].real()), double(out[k].imag())};
    }
    return y;
}

cvec rfft(vec const& x, std::size_t n)
{
    cvec a(n);
    for (std::size_t i = 0; i < std::min(n, x.size()); ++i) {
        a[i] = x[i];
    }
    auto y = dft(a, -1);
    y.resize(n / 2 + 1);
    return y;
}

vec irfft(cvec const& half, std::size_t n)
{
    cvec a(n);
    for (std::size_t i = 0; i <= n / 2; ++i) {
        a[i] = half[i];
    }
    for (std::size_t i = n / 2 + 1; i < n; ++i) {
        a[i] = std::conj(half[n - i]);
    }
    auto y = dft(a, +1);
    vec r(n);
    for (std::size_t i = 0; i < n; ++i) {
        r[i] = y[i].real() / double(n);
    }
    return r;
}

vec make(sim::Rng& r, std::size_t n, int kind, double amp)
{
    vec v(n, 0.0);
    switch (kind) {
        case impulse:
            if (n) {
                v[r.below(n)] = amp;
            }
            break;
        case dc:
            for (auto& x : v) {
                x = amp;
            }
            break;
        case silence: break;
        case sine: {
            auto const f = r.unit() * 3.0;
            auto const p = r.unit() * 6.28;
            for (std::size_t i = 0; i < n; ++i) {
                v[i] = amp * std::sin(f * double(i) + p);
            }
            break;
        }
        case denormal:
            for (auto& x : v) {
                x = r.sym() * 1e-40;
            }
            break;
        case sparse_noise:
            for (auto& x : v) {
                x = r.chance(0.15) ? amp * r.sym() : 0.0;
            }
            break;
        case alternating:
            for (std::size_t i = 0; i < n; ++i) {
                v[i] = (i & 1) ? -amp : amp;
            }
            break;
        case ramp:
            for (std::size_t i = 0; i < n; ++i) {
                v[i] = amp * (double(i) / double(n ? n : 1) - 0.5);
            }
            break;
        case tail_only:
            if (n) {
                v[n - 1] = amp;
            }
            break;
        case poisoned:
            for (auto& x : v) {
                x = amp * r.sym();
            }
            for (std::size_t i = 0; n != 0 and i < 2; ++i) {
                v[r.below(n)] = r.pick({std::numeric_limits<double>::quiet_NaN(), std::numeric_limits<double>::infinity(),
                                        -std::numeric_limits<double>::infinity()});
            }
            break;
        case quiet:
            for (auto& x : v) {
                x = 1e-3 * amp * r.sym();
            }
            break;
        default:
            for (auto& x : v) {
                x = amp * r.sym();
            }
    }
    return v;
}

vec make_ir(sim::Rng& r, std::size_t n, int kind)
{
    vec v(n, 0.0);
    switch (kind) {
        case 1:
            for (std::size_t i = 0; i < n; ++i) {
                v[i] = r.sym() * std::exp(-4.0 * double(i) / double(n));
            }
            break;
        case 2:
            if (n) {
                v[r.below(n)] = r.sym() < 0 ? -1.0 : 1.0;
            }
            break;
        case 3:
            if (n) {
                v[n - 1] = 1.0;
            }
            break;
        case 4:
            for (auto& x : v) {
                x = r.chance(0.1) ? r.sym() : 0.0;
            }
            break;
        case 5:
            for (std::size_t i = 0; i < n; ++i) {
                v[i] = 1.0 + 0.1 * r.sym();
            }
            break;
        case 6: break;
        case 7: {  // smooth pulse: its spectrum falls off by 100 dB and more
            auto const w = std::max<std::size_t>(2, n / (1 + r.below(3)));
            for (std::size_t i = 0; i < std::min(w, n); ++i) {
                auto const t = std::sin(3.14159265358979323846 * (double(i) + 0.5) / double(w));
                v[i]         = t * t * t * t;
            }
            break;
        }
        case 8:  // no content at DC
            for (std::size_t i = 0; i < n; ++i) {
                v[i] = i % 2 == 0 ? 1.0 : -1.0;
            }
            break;
        case 9:  // the tail is some hundred dB below the head
            for (std::size_t i = 0; i < n; ++i) {
                v[i] = r.sym() * std::exp(-20.0 * double(i) / double(n));
            }
            break;
        case 10:  // very quiet
            for (auto& x : v) {
                x = 1e-4 * r.sym();
            }
            break;
        case 11:  // very loud
            for (auto& x : v) {
                x = 1e3 * r.sym();
            }
            break;
        case 12:  // silence, then a late reflection
            for (std::size_t i = n / 2; i < n; ++i) {
                v[i] = r.sym();
            }
            break;
        case 13:  // the same stretch over and over
            for (std::size_t i = 0; i < n; ++i) {
                v[i] = i < 2 ? r.sym() : v[i % 2];
            }
            break;
        default:
            for (auto& x : v) {
                x = r.sym();
            }
    }
    return v;
}

double level(long long percent) { return percent > 0 ? double(percent) / 100.0 : std::pow(10.0, double(percent)); }

double norm2(vec const& v)
{
    double s = 0;
    for (auto x : v) {
        s += x * x;
    }
    return std::sqrt(s);
}
double norm1(vec const& v)
{
    double s = 0;
    for (auto x : v) {
        s += std::abs(x);
    }
    return s;
}
double maxabs(vec const& v)
{
    double s = 0;
    for (auto x : v) {
        s = std::max(s, std::abs(x));
    }
    return s;
}
}  // namespace ref
