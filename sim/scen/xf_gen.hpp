// Histories of the objects around the streaming engines.
#pragma once
#include "xf.hpp"

#include <algorithm>
#include <string>

namespace xf_gen {
using namespace sim;

inline i64 data_kind(Rng& r) { return r.chance(0.5) ? 0 : static_cast<i64>(r.below(ref::kind_count)); }
inline i64 data_amp(Rng& r) { return r.pick<i64>({100, 100, 100, 10, 1, 800, 100000, -6, -12}); }

struct Obj
{
    std::string kind;
    i64 order{};
};

// ---------------------------------------------------------------- transform plans
struct PlanKind
{
    char const* name;
    int small;  // usual largest order
    int max;    // sometimes
    int huge;   // rarely: beyond 16-bit indices
};
inline PlanKind const plan_kinds[] = {
    {"fft", 8, 13, 17},          {"fft_sc", 7, 10, 17},         {"dit2v1", 7, 10, 17},      {"dit2v2", 7, 10, 17},
    {"dit2v4", 7, 10, 17},       {"dit4", 3, 5, 9},             {"dif4", 3, 5, 9},          {"dif3", 4, 6, 11},
    {"dif5", 3, 4, 7},           {"rfft", 8, 13, 17},           {"rfft_sc", 7, 10, 17},     {"exp_c2c", 7, 10, 17},
    {"exp_rfft", 7, 9, 10},      {"dct2", 7, 10, 16},           {"split_fft", 7, 11, 17},   {"stockham_dif2r", 7, 10, 17},
    {"stockham_dif2i", 7, 10, 17}, {"stockham_dif3", 4, 6, 11}, {"stockham_dif4", 3, 5, 9}, {"stockham_dif5", 3, 4, 7},
    {"stockham_dif8", 2, 4, 6},  {"stockham_dit4", 3, 5, 9},    {"bluestein", 160, 1100, 0},
    {"rfft_pair", 7, 10, 17},    {"rfft_pair_sc", 7, 10, 17},  {"naive", 60, 300, 800},
};

inline void new_plan(Rng& r, Plan& p, int task, int slot, bool small = false)
{
    auto const& k   = plan_kinds[r.below(std::size(plan_kinds))];
    auto const name = std::string("x.new:") + k.name + (r.chance(0.5) ? "_f32" : "_f64");
    auto const u    = small ? 1.0 : r.unit();
    if (u < (k.huge == 0 ? 0.02 : 0.0015)) {
        p.add(task, name, {slot, k.huge != 0 ? k.huge : r.pick<i64>({32767, 33000, 65520, 66000, 70000, 92400})});
        return;
    }
    p.add(task, name, {slot, r.range(0, u < 0.15 ? k.max : k.small)});
}
inline void call_plan(Rng& r, Plan& p, int task, int slot, bool poison)
{
    auto const kind = poison ? static_cast<i64>(ref::poisoned) : data_kind(r);
    p.add(task, "x.call", {slot, r.seed31(), static_cast<i64>(r.below(2)), static_cast<i64>(r.below(6)), kind, data_amp(r)});
}

// ---------------------------------------------------------------- overlap stages
inline void new_overlap(Rng& r, Plan& p, int task, int slot, bool small = false)
{
    char const* k[] = {"ola_f32", "ols_f32", "ola_f64", "ols_f64", "ola_sc", "ols_sc"};
    i64 b = 0, f = 0;
    auto const u = r.unit();
    if (u < 0.4) {
        b = r.range(1, 24), f = r.range(1, 40);
    } else if (u < 0.6) {
        b = i64(1) << r.range(0, small ? 5 : 8), f = b + r.range(-1, 1);
    } else if (u < 0.8) {
        b = r.range(1, small ? 30 : 200), f = r.range(1, small ? 30 : 300);
    } else if (u < 0.9) {
        b = r.range(1, 8), f = r.range(20, small ? 60 : 260);  // filter spans many blocks
    } else {
        b = r.range(20, small ? 60 : 600), f = r.range(1, 8);
    }
    if (not small and r.chance(0.003)) {
        b = r.range(1, 4500), f = r.range(1, 4500);
    }
    p.add(task, std::string("x.new:") + k[r.below(6)], {slot, b, std::max<i64>(1, f), static_cast<i64>(r.below(ref::ir_count)), r.seed31()});
}
inline void call_overlap(Rng& r, Plan& p, int task, int slot, i64 calls, bool poison = false)
{
    p.add(task, "x.call", {slot, r.seed31(), poison ? 97 : r.chance(0.6) ? 99 : data_kind(r), static_cast<i64>(r.below(2)), calls, data_amp(r)});
}

// ---------------------------------------------------------------- one-shot convolution
inline void new_fftconv(Rng& r, Plan& p, int task, int slot, bool small = false)
{
    if (not small and r.chance(0.003)) {
        auto const a = r.range(30000, 70000), b = r.range(2, 60);
        auto const swap = r.chance(0.5);
        p.add(task, r.chance(0.5) ? "x.new:fftconv_f32" : "x.new:fftconv_f64", {slot, swap ? b : a, swap ? a : b});
        return;
    }
    auto const hi = small ? 40 : r.chance(0.85) ? 120 : 1500;
    p.add(task, r.chance(0.5) ? "x.new:fftconv_f32" : "x.new:fftconv_f64", {slot, r.range(1, hi), r.range(1, hi)});
}
inline void call_fftconv(Rng& r, Plan& p, int task, int slot, bool poison = false)
{
    p.add(task, "x.call", {slot, r.seed31(), r.seed31(), static_cast<i64>(r.below(2)), poison ? 97 : data_kind(r), poison and r.chance(0.5) ? 97 : data_kind(r), data_amp(r)});
}
inline void new_freeconv(Rng& r, Plan& p, int task, int slot)
{
    p.add(task, r.chance(0.5) ? "x.new:freeconv_f32" : "x.new:freeconv_f64", {slot});
}
inline void call_freeconv(Rng& r, Plan& p, int task, int slot, bool small = false)
{
    auto const hi = small ? 30 : r.chance(0.85) ? 80 : 700;
    if (not small and r.chance(0.003)) {
        auto const a = r.range(30000, 70000), b = r.range(1, 60);
        auto const swap = r.chance(0.5);
        p.add(task, "x.call", {slot, r.seed31(), r.seed31(), static_cast<i64>(r.below(2)), data_kind(r), data_kind(r), data_amp(r), swap ? b : a, swap ? a : b});
        return;
    }
    p.add(task, "x.call", {slot, r.seed31(), r.seed31(), static_cast<i64>(r.below(2)), data_kind(r), data_kind(r), data_amp(r), r.range(1, hi), r.range(1, hi)});
}

// ---------------------------------------------------------------- delay lines
inline void new_fdl(Rng& r, Plan& p, int task, int slot)
{
    char const* k[] = {"fdl_dense", "fdl_split", "fdl_i16", "fdl_i8", "fdl_f16"};
    p.add(task, std::string("x.new:") + k[r.below(5)], {slot, r.chance(0.3) ? r.range(1, 3) : r.chance(0.97) ? r.range(1, 24) : r.range(200, 600), r.chance(0.5) ? r.range(1, 9) : r.chance(0.98) ? r.range(1, 80) : r.range(200, 700)});
}
inline void call_fdl(Rng& r, Plan& p, int task, int slot)
{
    p.add(task, "x.call", {slot, static_cast<i64>(r.below(4)), r.range(0, 1023), r.seed31(), data_kind(r)});
}
inline void new_fdlindex(Rng& r, Plan& p, int task, int slot)
{
    p.add(task, r.chance(0.5) ? "x.new:fdlindex" : "x.new:fdlindex_int", {slot, r.chance(0.7) ? r.range(1, 8) : r.chance(0.9) ? r.range(1, 80) : r.range(200, 700)});
}
inline void call_fdlindex(Rng& r, Plan& p, int task, int slot)
{
    p.add(task, "x.call", {slot, r.chance(0.9) ? r.range(1, 40) : r.range(40, 400), r.chance(0.25) ? 1 : 0});
}

// ---------------------------------------------------------------- sparse matrix
inline void new_csr(Rng& r, Plan& p, int task, int slot)
{
    char const* k[] = {"csr_f32", "csr_f64", "csr_c64", "csr_c128"};
    p.add(task, std::string("x.new:") + k[r.below(4)], {slot, r.chance(0.98) ? r.range(1, 8) : r.range(100, 300), r.range(1, r.chance(0.7) ? 6 : r.chance(0.97) ? 40 : 400), static_cast<i64>(r.below(4)), r.seed31()});
}
inline void call_csr(Rng& r, Plan& p, int task, int slot, bool fault)
{
    p.add(task, "x.call", {slot, r.chance(0.75) ? 0 : 1, r.range(0, 1023), r.range(0, 1023), r.seed31()});
    if (fault) {
        p.faults.push_back({p.ops.back().id, "alloc", r.range(1, 3), 1});
    }
}

// ---------------------------------------------------------------- short-time transforms and partitioning
inline void new_stft(Rng& r, Plan& p, int task, int slot)
{
    bool const large = r.chance(0.02);
    auto const lt    = large ? r.range(9, 12) : r.range(1, 8);
    auto const trans = i64(1) << lt;
    auto const win   = static_cast<i64>(r.below(5));
    auto frame       = win == 0 ? r.range(1, trans) : trans;
    auto over        = win == 3 ? frame / 2 : r.range(0, frame - 1);
    if (large) {
        frame = std::max(frame, trans / 2);
        over  = std::min(over, frame / 2);
    }
    if (frame - over < 1) {
        over = frame - 1;
    }
    p.add(task, r.chance(0.5) ? "x.new:stft_f32" : "x.new:stft_f64", {slot, frame, lt, over, win});
}
inline void call_stft(Rng& r, Plan& p, int task, int slot, bool fault)
{
    p.add(task, "x.call", {slot, r.seed31(), data_kind(r), r.range(1, 3), r.chance(0.8) ? r.range(1, 400) : r.chance(0.97) ? r.range(1, 2500) : r.range(60000, 70000), static_cast<i64>(r.below(2)), data_amp(r)});
    if (fault) {
        p.faults.push_back({p.ops.back().id, "alloc", r.range(1, 6), 1});
    }
}
inline void call_partition(Rng& r, Plan& p, int task, int slot, bool fault)
{
    p.add(task, "x.call", {slot, r.seed31(), data_kind(r), r.range(1, 3), r.chance(0.8) ? r.range(1, 300) : r.chance(0.97) ? r.range(1, 3000) : r.range(60000, 70000), r.chance(0.98) ? r.range(0, 8) : r.range(9, 12), data_amp(r), static_cast<i64>(r.below(2))});
    if (fault) {
        p.faults.push_back({p.ops.back().id, "alloc", r.range(1, 8), 1});
    }
}

// ---------------------------------------------------------------- a life of copies around calls
// make(slot): emits the construction; use(slot): emits one call
template<typename Make, typename Use>
void life(Rng& r, Plan& p, int task, Make make, Use use, i64 steps, bool with_faults, bool copies = true)
{
    bool live[3]{};
    make(0);
    if (with_faults and r.chance(0.15)) {
        p.faults.push_back({p.ops.back().id, "alloc", r.range(1, 8), 1});
        make(0);
    }
    live[0] = true;
    for (i64 i = 0; i < steps; ++i) {
        auto const s = static_cast<int>(r.below(3)), d = static_cast<int>(r.below(3));
        auto const u = r.unit();
        if (u < 0.65 or not copies) {
            use(live[s] ? s : 0);
        } else if (u < 0.9) {
            if (s == d and live[s] and r.chance(0.5)) {
                p.add(task, "x.asg", {s, s});  // self assignment
            } else if (s != d and live[s] and d != 0) {
                char const* n[] = {"x.copy", "x.move", "x.asg", "x.mvasg"};
                auto k          = r.below(4);
                if (s == 0 and (k == 1 or k == 3)) {
                    k -= 1;
                }
                if (k >= 2 and not live[d]) {
                    k -= 2;
                }
                p.add(task, n[k], {d, s});
                if (with_faults and r.chance(0.15)) {
                    p.faults.push_back({p.ops.back().id, "alloc", r.range(1, 6), 1});
                }
                live[d] = true;
                if (k == 1 or k == 3) {
                    live[s] = false;
                }
            }
        } else if (u < 0.95) {
            make(d);
            live[d] = true;
        } else if (s != 0 and live[s]) {
            p.add(task, "x.kill", {s});
            live[s] = false;
        }
    }
    for (int s = 0; s < 3; ++s) {
        if (live[s]) {
            use(s);
        }
    }
}

}  // namespace xf_gen
