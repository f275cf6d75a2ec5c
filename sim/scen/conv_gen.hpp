// Histories of the streaming convolution engines.
#pragma once
#include "conv_world.hpp"

#include <algorithm>


namespace conv_gen {
using namespace sim;

inline int log2_block(Rng& r, int hi)
{
    // mostly small blocks, where every boundary is reached often
    return r.chance(0.7) ? static_cast<int>(r.range(1, std::min(hi, 5))) : static_cast<int>(r.range(1, hi));
}

inline bool is_v2(int e) { return engine_at(e).method == V2; }
inline bool is_int_quant(int e) { return engine_at(e).quant == Q_I16 or engine_at(e).quant == Q_I8; }

struct Filt
{
    int block, segs;
};

inline Filt gen_load(Rng& r, Plan& p, int task, int slot, int eng, int tier, bool small = false)
{
    int lb   = log2_block(r, small ? 5 : 9);
    int segs = r.chance(0.2) ? 1 : static_cast<int>(r.range(1, small ? 6 : 12));
    if (not small) {
        auto const u = r.unit();
        if (u < 0.02) {
            lb   = static_cast<int>(r.range(9, tier > 0 ? 13 : 12));
            segs = static_cast<int>(r.range(1, 4));
        } else if (u < 0.05) {
            lb   = static_cast<int>(r.range(1, 3));
            segs = static_cast<int>(r.range(250, tier > 0 ? 700 : 400));
        } else if (u < 0.12) {
            lb   = static_cast<int>(r.range(1, 4));
            segs = static_cast<int>(r.range(13, 80));
        }
    }
    int const block = 1 << lb;
    int const irk   = r.chance(0.5) ? 0 : static_cast<int>(r.below(ref::ir_count));
    i64 const cut   = r.chance(0.6) ? 0 : static_cast<i64>(r.below(static_cast<u64>(block)));
    i64 const mask  = r.chance(0.4) ? 0 : r.range(1, 5);
    (void)eng;
    p.add(task, "load", {slot, block, segs, irk, r.seed31(), static_cast<i64>(r.below(3)), r.chance(0.35) ? 1 : 0, mask, cut});
    return {block, segs};
}

inline i64 amp(Rng& r) { return r.pick<i64>({100, 100, 100, 10, 1, 800, 100000, -6, -12}); }

// chunks: 0 one block per call, 1 whole multiples of the block, 2 anything not smaller than a block
inline void gen_proc(Rng& r, Plan& p, int task, int slot, int eng, Filt f, i64 calls, int chunks)
{
    i64 size = f.block;
    if (is_v2(eng)) {
        if (chunks == 1) {
            size = f.block * r.range(1, 4);
        } else if (chunks == 2) {
            size = r.chance(0.3) ? f.block + r.range(0, 3) : r.range(f.block, f.block * r.range(2, 5) + 1);
        }
    }
    i64 const view = r.chance(0.7) ? 0 : r.range(1, 2);
    i64 const kind = r.chance(0.6) ? 99 : static_cast<i64>(r.below(ref::kind_count));
    p.add(task, "proc", {slot, std::max<i64>(1, calls), size, kind, r.seed31(), view, amp(r)});
}

inline i64 some_calls(Rng& r, Filt f)
{
    // below, at and beyond the length of the delay line
    auto const u = r.unit();
    i64 n        = 0;
    if (u < 0.3) {
        n = r.range(1, 3);
    } else if (u < 0.6) {
        n = r.range(1, f.segs + 1);
    } else {
        n = r.range(f.segs, 2 * f.segs + 5);
    }
    if (f.block >= 1024) {
        n = std::min<i64>(n, 10);
    }
    return n;
}

inline int any_engine(Rng& r) { return static_cast<int>(r.below(static_cast<u64>(engine_count()))); }

// ------------------------------------------------------------------------------------------- C01
inline Plan gen_c01(Rng& r, int tier)
{
    Plan p;
    int const e = any_engine(r);
    p.add(0, "new", {0, e});
    if (r.chance(tier > 0 ? 0.01 : 0.004)) {
        // marathon: index and counter widths
        int const block = 1 << r.range(1, 2);
        Filt f{block, static_cast<int>(r.range(1, 5))};
        p.add(0, "load", {0, f.block, f.segs, 0, r.seed31(), 0, 0, 0, 0});
        p.add(0, "proc", {0, 66000 + r.range(0, 4000), f.block, 0, r.seed31(), 0, 100});
        return p;
    }
    auto f = gen_load(r, p, 0, 0, e, tier);
    auto n = r.range(1, 4);
    for (i64 i = 0; i < n; ++i) {
        gen_proc(r, p, 0, 0, e, f, some_calls(r, f), 1);
    }
    return p;
}

// ------------------------------------------------------------------------------------------- C02
inline Plan gen_c02(Rng& r, int tier)
{
    Plan p;
    int const e = r.chance(0.5) ? 2 : 9;  // v2_f32, v2_f64
    p.add(0, "new", {0, e});
    if (r.chance(tier > 0 ? 0.01 : 0.004)) {
        // marathon: index and counter widths, in one call and over many
        bool const one  = r.chance(0.5);
        int const block = 1 << r.range(1, one ? 6 : 2);
        Filt f{block, static_cast<int>(r.range(1, 5))};
        p.add(0, "load", {0, f.block, f.segs, 0, r.seed31(), 0, 0, 0, 0});
        if (one) {
            gen_proc(r, p, 0, 0, e, f, 2, 2);
            p.add(0, "proc", {0, 2, 65536 + r.range(-3, 70), 0, r.seed31(), 0, 100});
            gen_proc(r, p, 0, 0, e, f, 3, 2);
        } else {
            p.add(0, "proc", {0, 66000 + r.range(0, 4000), f.block + (r.chance(0.5) ? 0 : 1), 0, r.seed31(), 0, 100});
        }
        return p;
    }
    auto f       = gen_load(r, p, 0, 0, e, tier);
    auto const n = r.range(2, 14);
    for (i64 i = 0; i < n; ++i) {
        gen_proc(r, p, 0, 0, e, f, r.chance(0.5) ? 1 : r.range(1, 6), r.chance(0.2) ? 1 : 2);
    }
    if (r.chance(0.2)) {
        auto g = gen_load(r, p, 0, 0, e, tier);
        for (i64 i = 0; i < 4; ++i) {
            gen_proc(r, p, 0, 0, e, g, r.range(1, 3), 2);
        }
    }
    return p;
}

// ------------------------------------------------------------------------------------------- C03
inline Plan gen_c03(Rng& r, int tier)
{
    Plan p;
    int const e = any_engine(r);
    p.add(0, "new", {0, e});
    auto const loads = r.range(2, 6);
    Filt f{};
    for (i64 l = 0; l < loads; ++l) {
        if (l > 0 and r.chance(0.3)) {
            // same shape, other taps
            auto op = p.ops.end();
            while ((--op)->kind != "load") {
            }
            auto a = op->a;
            a[4]   = r.seed31();
            a[3]   = static_cast<i64>(r.below(ref::ir_count));
            p.add(0, "load", a);
        } else {
            f = gen_load(r, p, 0, 0, e, tier, r.chance(0.8));
        }
        auto const n = r.chance(0.15) ? 0 : r.range(1, 3);
        for (i64 i = 0; i < n; ++i) {
            gen_proc(r, p, 0, 0, e, f, some_calls(r, f), r.chance(0.5) ? 1 : 2);
        }
    }
    gen_proc(r, p, 0, 0, e, f, f.segs + 2, 2);
    return p;
}

// ------------------------------------------------------------------------------------------- C04
inline Plan gen_c04(Rng& r, int tier)
{
    Plan p;
    int const e = any_engine(r);
    p.add(0, "new", {0, e});
    auto f = gen_load(r, p, 0, 0, e, tier, true);
    if (r.chance(0.2)) {
        p.faults.push_back({p.ops.back().id, "alloc", r.range(1, 14), r.range(1, 2)});
        f = gen_load(r, p, 0, 0, e, tier, true);
    }
    gen_proc(r, p, 0, 0, e, f, some_calls(r, f), 2);
    auto const n = r.range(1, 5);
    for (i64 i = 0; i < n; ++i) {
        auto const g   = gen_load(r, p, 0, 0, e, tier, true);
        auto const bad = r.chance(0.8);
        if (bad) {
            p.faults.push_back({p.ops.back().id, "alloc", r.chance(0.8) ? r.range(1, 16) : r.range(1, 120), r.chance(0.7) ? 1 : r.range(2, 40)});
        }
        if (bad and r.chance(0.3)) {
            // immediate retry of the same load
            auto a = p.ops.back().a;
            p.add(0, "load", a);
            f = g;
        } else if (not bad) {
            f = g;
        }
        // the op sizes adapt to whichever filter is in place
        gen_proc(r, p, 0, 0, e, f, some_calls(r, f), 2);
    }
    p.cfg["leak"] = 1;
    return p;
}

// ------------------------------------------------------------------------------------------- C07
inline Plan gen_c07(Rng& r, int tier)
{
    Plan p;
    int const e     = any_engine(r);
    int const slots = 3;
    Filt fs[3]{};
    bool live[3]{}, made[3]{};
    p.add(0, "new", {0, e});
    made[0]      = true;
    fs[0]        = gen_load(r, p, 0, 0, e, tier, r.chance(0.85));
    live[0]      = true;
    auto const n = r.range(4, 14);
    for (i64 i = 0; i < n; ++i) {
        auto const s = static_cast<int>(r.below(slots));
        auto const d = static_cast<int>(r.below(slots));
        auto const u = r.unit();
        if (u < 0.5) {
            if (live[s]) {
                gen_proc(r, p, 0, s, e, fs[s], some_calls(r, fs[s]), r.chance(0.5) ? 1 : 2);
            }
        } else if (u < 0.85) {
            if (s == d and live[s] and r.chance(0.4)) {
                p.add(0, "asg", {s, s});  // self assignment
            } else if (s != d and live[s]) {
                auto const k = r.below(4);
                char const* names[] = {"copy", "move", "asg", "mvasg"};
                if (k >= 2 and not made[d]) {
                    continue;
                }
                p.add(0, names[k], {d, s});
                fs[d]   = fs[s];
                live[d] = live[s];
                made[d] = true;
                if (k == 1 or k == 3) {
                    live[s] = false;
                }
                if (r.chance(0.12) and (k == 0 or k == 2)) {
                    p.faults.push_back({p.ops.back().id, "alloc", r.range(1, 10), 1});
                }
            }
        } else if (u < 0.93) {
            if (made[s]) {
                fs[s]   = gen_load(r, p, 0, s, e, tier, true);
                live[s] = true;
            }
        } else if (u < 0.97) {
            p.add(0, "new", {d, e});
            made[d] = true;
            live[d] = false;
        } else if (made[s] and s != 0) {
            p.add(0, "kill", {s});
            made[s] = live[s] = false;
        }
    }
    for (int s = 0; s < slots; ++s) {
        if (live[s]) {
            gen_proc(r, p, 0, s, e, fs[s], fs[s].segs + 1, 1);
        }
    }
    return p;
}

// ------------------------------------------------------------------------------------------- C08
inline Plan gen_c08(Rng& r, int tier)
{
    Plan p;
    int e = any_engine(r);
    while (engine_at(e).quant != Q_NONE) {
        e = any_engine(r);
    }
    p.add(0, "new", {0, e});
    auto f = gen_load(r, p, 0, 0, e, tier, r.chance(0.8));
    if (r.chance(0.1)) {
        auto a = p.ops.back().a;
        p.add(0, "loadnan", a);
        gen_proc(r, p, 0, 0, e, f, r.range(1, 4), 1);
        a[4] = r.seed31();
        p.add(0, "load", a);
    }
    auto const n = r.range(1, 4);
    for (i64 i = 0; i < n; ++i) {
        if (r.chance(0.6)) {
            gen_proc(r, p, 0, 0, e, f, some_calls(r, f), 1);
        }
        gen_proc(r, p, 0, 0, e, f, r.range(1, 2), 2);
        p.ops.back().kind = "bad";
        gen_proc(r, p, 0, 0, e, f, f.segs + r.range(2, 5), r.chance(0.5) ? 1 : 2);
        if (r.chance(0.15)) {
            f = gen_load(r, p, 0, 0, e, tier, true);
        }
    }
    return p;
}

}  // namespace conv_gen
