// C23: the library on the platforms' own transform and vector libraries.
#include "conv_gen.hpp"
#include "vend_lib.hpp"
#include "xf_gen.hpp"

#include <exception>

using namespace sim;
using namespace conv_gen;
using namespace xf_gen;

namespace {

PlanKind const vend_kinds[] = {
    {"fft", 8, 12, 17},       {"fft_sc", 7, 10, 17},     {"rfft", 8, 12, 17},     {"rfft_sc", 7, 10, 17},   {"rfft_pair", 7, 10, 17},
    {"dct2", 7, 10, 16},      {"split_fft", 8, 11, 17},  {"split_fft", 8, 11, 17}, {"bluestein", 90, 700, 0}, {"mkl", 8, 12, 17},
    {"mkl_sc", 7, 10, 17},    {"ipp_dct2", 6, 8, 8},     {"ipp_dct3", 6, 8, 8},
};
void new_vend(Rng& r, Plan& p, int task, int slot)
{
    auto const& k   = vend_kinds[r.below(std::size(vend_kinds))];
    auto const name = std::string("x.new:") + k.name + (r.chance(0.5) ? "_f32" : "_f64");
    auto const u    = r.unit();
    p.add(task, name, {slot, u < 0.001 and k.huge != 0 ? k.huge : r.range(0, u < 0.15 ? k.max : k.small)});
}
void new_vec(Rng& r, Plan& p, int task, int slot)
{
    p.add(task, std::string("x.new:") + r.pick<char const*>({"scale_r", "scale_cr", "scale_cc", "splitmac"}) + (r.chance(0.5) ? "_f32" : "_f64"), {slot});
}
void call_vec(Rng& r, Plan& p, int task, int slot)
{
    p.add(task, "x.call", {slot, r.seed31(), static_cast<i64>(r.below(2)), static_cast<i64>(r.below(4)), data_kind(r), r.pick<i64>({100, 100, 10, 800}), r.chance(0.8) ? r.range(0, 40) : r.range(0, 3999)});
}
void kind_life(Rng& r, Plan& p, int t, bool faults, bool small)
{
    auto const u = r.unit();
    if (u < 0.62) {
        life(
            r, p, t, [&](int s) { new_vend(r, p, t, s); }, [&](int s) { call_plan(r, p, t, s, faults and r.chance(0.1)); }, r.range(3, small ? 6 : 14), faults
        );
    } else if (u < 0.72) {
        life(r, p, t, [&](int s) { new_vec(r, p, t, s); }, [&](int s) { call_vec(r, p, t, s); }, r.range(3, 8), false);
    } else if (u < 0.86) {
        life(
            r, p, t, [&](int s) { new_overlap(r, p, t, s, small); }, [&](int s) { call_overlap(r, p, t, s, r.range(1, small ? 4 : 10)); }, r.range(2, 7), faults
        );
    } else if (u < 0.95) {
        life(r, p, t, [&](int s) { new_fftconv(r, p, t, s, small); }, [&](int s) { call_fftconv(r, p, t, s); }, r.range(2, 7), faults);
    } else {
        life(r, p, t, [&](int s) { new_stft(r, p, t, s); }, [&](int s) { call_stft(r, p, t, s, faults and r.chance(0.2)); }, r.range(2, 5), faults);
    }
}

Plan gen_c23(Rng& r, int tier)
{
    Plan p;
    auto const u      = r.unit();
    auto const faults = r.chance(0.6);
    bool threads      = false;
    if (u < 0.55) {
        kind_life(r, p, 0, faults, false);
    } else if (u < 0.85) {
        switch (r.below(5)) {
            case 0: p = gen_c01(r, 0); break;
            case 1: p = gen_c02(r, 0); break;
            case 2: p = gen_c03(r, 0); break;
            case 3: p = gen_c04(r, 0); break;
            default: p = gen_c07(r, 0); break;
        }
        p.cfg["leak"] = 0;
    } else {
        threads    = true;
        auto const nt = static_cast<int>(r.range(2, 3));
        bool const same = r.chance(0.6);
        auto const common = r.next();
        for (int t = 0; t < nt; ++t) {
            Rng c(common);
            kind_life(same ? c : r, p, t, faults, true);
        }
    }
    (void)tier;
    // plans on vendor libraries only move
    for (auto& op : p.ops) {
        auto const to = [&](char const* a, char const* b) {
            if (op.kind == a) {
                op.kind = b;
            }
        };
        to("copy", "move"), to("asg", "mvasg"), to("x.copy", "x.move"), to("x.asg", "x.mvasg");
        if ((op.kind == "mvasg" or op.kind == "x.mvasg") and op.at(0) == op.at(1)) {
            op.kind = op.kind == "mvasg" ? "nop" : "x.nop";
        }
    }
    if (r.chance(0.05)) {
        p.add(0, std::string("x.new:") + r.pick<char const*>({"huge_fft", "huge_rfft", "huge_split", "huge_mkl"}) + (r.chance(0.5) ? "_f32" : "_f64"), {7, r.range(0, 3)});
    }
    if (faults) {
        std::vector<Fault> add;
        for (auto const& op : p.ops) {
            bool const makes = op.kind == "load" or op.kind == "new" or op.kind.rfind("x.new", 0) == 0 or (op.kind == "x.call" and r.chance(0.05));
            if (makes and p.fault_for(op.id, "alloc") == nullptr and r.chance(0.25)) {
                add.push_back({op.id, "vendor", r.chance(0.8) ? r.range(1, 6) : r.range(1, 30), 1});
            }
        }
        p.faults.insert(p.faults.end(), add.begin(), add.end());
    }
    p.cfg["noalloc"] = r.chance(0.3) ? 1 : 0;
    if (threads) {
        p.cfg["threads"] = 1;
        gen_preemptions(r, p, static_cast<int>(r.pick<i64>({4, 30, 150})), 12000);
    }
    return p;
}

void run_c23(Plan const& p)
{
    {
        ConvWorld w(p);
        XfWorld x(p);
        w.no_alloc = x.no_alloc = p.get("noalloc") != 0;
        auto const exec = [&](int task, Op const& op) {
            vend::begin(op.id);
            auto const* vf = p.fault_for(op.id, "vendor");
            if (vf == nullptr) {
                if (not x.exec(task, op)) {
                    w.exec(task, op);
                }
                return;
            }
            vend::arm(vf->a);
            expect_failure(true);
            bool threw = false;
            try {
                if (not x.exec(task, op)) {
                    w.exec(task, op);
                }
            } catch (std::exception const&) {
                threw = true;
            }
            expect_failure(false);
            auto const fired = vend::disarm();
            mix(threw);
            if (threw and fired == 0) {
                violation("exception", "%s failed although every vendor call succeeded", op.kind.c_str());
            }
            if (not threw and fired > 0) {
                violation("unreported", "%s reported success although the vendor library failed", op.kind.c_str());
            }
        };
        if (p.get("threads") != 0) {
            run_tasks(p, exec);
        } else {
            for (auto const& op : p.ops) {
                exec(op.task, op);
            }
        }
        w.shutdown();
        x.shutdown();
    }
    vend::check_released();
}

Register const r23{"C23", gen_c23, run_c23};

}  // namespace
