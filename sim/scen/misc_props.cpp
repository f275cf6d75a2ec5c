// C09, C11..C14: overlap stages, one-shot convolution, sparse matrices, delay lines, framing.
#include "xf_gen.hpp"

using namespace sim;
using namespace xf_gen;

namespace {

Plan gen_c09(Rng& r, int tier)
{
    Plan p;
    if (r.chance(tier > 0 ? 0.01 : 0.004)) {
        p.add(0, r.chance(0.5) ? "x.new:ola_f32" : "x.new:ols_f32", {0, r.range(1, 3), r.range(1, 5), 0, r.seed31()});
        p.add(0, "x.call", {0, r.seed31(), 0, 0, 66000, 100});
        return p;
    }
    auto const faults = r.chance(0.4);
    life(
        r, p, 0, [&](int s) { new_overlap(r, p, 0, s); },
        [&](int s) { call_overlap(r, p, 0, s, r.chance(0.5) ? r.range(1, 4) : r.range(1, 24)); }, r.range(2, 9), faults
    );
    return p;
}

Plan gen_c11(Rng& r, int)
{
    Plan p;
    auto const faults = r.chance(0.5);
    if (r.chance(0.35)) {
        new_freeconv(r, p, 0, 0);
        auto const n = r.range(2, 8);
        for (i64 i = 0; i < n; ++i) {
            call_freeconv(r, p, 0, 0);
            if (faults and r.chance(0.3)) {
                p.faults.push_back({p.ops.back().id, "alloc", r.range(1, 10), 1});
            }
        }
        return p;
    }
    life(
        r, p, 0, [&](int s) { new_fftconv(r, p, 0, s); }, [&](int s) { call_fftconv(r, p, 0, s, faults and r.chance(0.12)); },
        r.range(3, 12), faults
    );
    return p;
}

Plan gen_c12(Rng& r, int)
{
    Plan p;
    auto const faults = r.chance(0.6);
    life(
        r, p, 0, [&](int s) { new_csr(r, p, 0, s); }, [&](int s) { call_csr(r, p, 0, s, faults and r.chance(0.2)); },
        r.range(4, 40), faults
    );
    return p;
}

Plan gen_c13(Rng& r, int tier)
{
    Plan p;
    auto const faults = r.chance(0.3);
    if (r.chance(0.4)) {
        if (r.chance(tier > 0 ? 0.02 : 0.005)) {
            p.add(0, r.chance(0.5) ? "x.new:fdlindex" : "x.new:fdlindex_int", {0, r.range(1, 5)});
            p.add(0, "x.call", {0, 70000, 0});
            return p;
        }
        life(
            r, p, 0, [&](int s) { new_fdlindex(r, p, 0, s); }, [&](int s) { call_fdlindex(r, p, 0, s); }, r.range(2, 10), faults
        );
        return p;
    }
    life(r, p, 0, [&](int s) { new_fdl(r, p, 0, s); }, [&](int s) { call_fdl(r, p, 0, s); }, r.range(4, 30), faults);
    return p;
}

Plan gen_c14(Rng& r, int)
{
    Plan p;
    auto const faults = r.chance(0.5);
    if (r.chance(0.5)) {
        p.add(0, r.chance(0.5) ? "x.new:partition_f32" : "x.new:partition_f64", {0});
        auto const n = r.range(1, 5);
        for (i64 i = 0; i < n; ++i) {
            call_partition(r, p, 0, 0, faults and r.chance(0.3));
        }
        return p;
    }
    life(
        r, p, 0, [&](int s) { new_stft(r, p, 0, s); }, [&](int s) { call_stft(r, p, 0, s, faults and r.chance(0.2)); },
        r.range(2, 8), faults
    );
    return p;
}

void run_xf(Plan const& p)
{
    XfWorld w(p);
    for (auto const& op : p.ops) {
        w.exec(op.task, op);
    }
    w.shutdown();
}

Register const r09{"C09", gen_c09, run_xf};
Register const r11{"C11", gen_c11, run_xf};
Register const r12{"C12", gen_c12, run_xf};
Register const r13{"C13", gen_c13, run_xf};
Register const r14{"C14", gen_c14, run_xf};

}  // namespace
