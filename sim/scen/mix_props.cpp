// C05, C06, C08: every kind of object in one application.
#include "conv_gen.hpp"
#include "xf_gen.hpp"

using namespace sim;
using namespace conv_gen;
using namespace xf_gen;

namespace {

constexpr int pool_task = 90;  // objects made before the threads start; threads only copy from them

// ------------------------------------------------------------------------------------------- C05
Plan gen_c05(Rng& r, int tier)
{
    Plan p;
    auto const u = r.unit();
    if (u < 0.4) {
        p = gen_c01(r, tier);
    } else if (u < 0.55) {
        p = gen_c03(r, tier);
    } else if (u < 0.65) {
        p = gen_c02(r, tier);
    } else if (u < 0.75) {
        life(
            r, p, 0, [&](int s) { new_overlap(r, p, 0, s); }, [&](int s) { call_overlap(r, p, 0, s, r.range(1, 12)); }, r.range(2, 8),
            false
        );
    } else if (u < 0.9) {
        life(r, p, 0, [&](int s) { new_plan(r, p, 0, s); }, [&](int s) { call_plan(r, p, 0, s, false); }, r.range(3, 10), false);
    } else if (u < 0.95) {
        life(r, p, 0, [&](int s) { new_fdl(r, p, 0, s); }, [&](int s) { call_fdl(r, p, 0, s); }, r.range(3, 10), false);
    } else {
        life(r, p, 0, [&](int s) { new_fdlindex(r, p, 0, s); }, [&](int s) { call_fdlindex(r, p, 0, s); }, r.range(3, 10), false);
    }
    p.cfg["noalloc"] = 1;
    return p;
}

// ------------------------------------------------------------------------------------------- C08
Plan gen_c08_all(Rng& r, int tier)
{
    if (r.chance(0.75)) {
        return gen_c08(r, tier);
    }
    Plan p;
    life(
        r, p, 0, [&](int s) { new_overlap(r, p, 0, s, true); },
        [&](int s) {
            if (r.chance(0.4)) {
                call_overlap(r, p, 0, s, 1, true);
                call_overlap(r, p, 0, s, 90);
            } else {
                call_overlap(r, p, 0, s, r.range(1, 20));
            }
        },
        r.range(2, 6), false
    );
    return p;
}

// ------------------------------------------------------------------------------------------- C06
// What one thread does with its own objects
void one_object(Rng& r, Plan& p, int task, int slot, int& kind, Filt& f, int& eng)
{
    kind = static_cast<int>(r.below(12));
    kind = kind >= 10 ? 4 : kind;
    if (kind < 4) {
        eng = any_engine(r);
        p.add(task, "new", {slot, eng});
        f    = gen_load(r, p, task, slot, eng, 0, true);
        kind = 0;
    } else if (kind < 6) {
        new_plan(r, p, task, slot, true);
    } else if (kind == 6) {
        new_overlap(r, p, task, slot, true);
    } else if (kind == 7) {
        new_fftconv(r, p, task, slot, true);
    } else if (kind == 8) {
        r.chance(0.5) ? new_fdl(r, p, task, slot) : new_csr(r, p, task, slot);
    } else {
        new_stft(r, p, task, slot);
    }
}
void one_use(Rng& r, Plan& p, int task, int slot, int kind, Filt f, int eng)
{
    switch (kind) {
        case 0: gen_proc(r, p, task, slot, eng, f, r.range(1, 4), r.chance(0.5) ? 1 : 2); break;
        case 4:
        case 5: call_plan(r, p, task, slot, false); break;
        case 6: call_overlap(r, p, task, slot, r.range(1, 3)); break;
        case 7: call_fftconv(r, p, task, slot); break;
        case 8: call_fdl(r, p, task, slot); break;
        default: p.add(task, "x.call", {slot, r.seed31(), data_kind(r), r.range(1, 2), r.range(1, 200), static_cast<i64>(r.below(2))});
    }
}

// the same kind of object as the other threads make, in another size
void other_size(Rng& r, Plan& p, int task, int slot, int kind, Filt& f, int eng)
{
    auto& op = p.ops.back();
    switch (kind) {
        case 0:
            p.ops.pop_back();
            f = gen_load(r, p, task, slot, eng, 0, true);
            break;
        case 4:
        case 5:
            for (auto const& k : plan_kinds) {
                auto const name = std::string("x.new:") + k.name;
                if (op.kind == name + "_f32" or op.kind == name + "_f64") {
                    op.a[1] = r.range(0, k.small);
                }
            }
            break;
        case 6:
        case 7: op.a[1] = r.range(1, 30); break;
        default: break;
    }
}

Plan gen_c06(Rng& r, int)
{
    Plan p;
    int const nt = static_cast<int>(r.range(2, 4));
    int pool_kind[2]{}, pool_eng[2]{};
    Filt pool_f[2]{};
    int const np = static_cast<int>(r.below(3));
    for (int s = 0; s < np; ++s) {
        one_object(r, p, pool_task, s, pool_kind[s], pool_f[s], pool_eng[s]);
        auto const n = r.range(0, 2);
        for (i64 i = 0; i < n; ++i) {
            one_use(r, p, pool_task, s, pool_kind[s], pool_f[s], pool_eng[s]);
        }
    }
    // often every thread uses the same kind of object, so that shared state would collide
    auto const same   = r.chance(0.6);
    auto const vary   = r.chance(0.5);  // in different sizes
    auto const common = r.next();
    for (int t = 0; t < nt; ++t) {
        int const ns = static_cast<int>(r.range(1, 3));
        int kind[3]{}, eng[3]{};
        Filt f[3]{};
        Op made[3];
        for (int s = 0; s < ns; ++s) {
            if (np > 0 and r.chance(0.4)) {
                auto const src = static_cast<int>(r.below(static_cast<u64>(np)));
                kind[s]        = pool_kind[src];
                eng[s]         = pool_eng[src];
                f[s]           = pool_f[src];
                p.add(t, kind[s] == 0 ? "copy" : "x.copy", {s, src, 1});
            } else if (same) {
                Rng c(common);
                one_object(c, p, t, s, kind[s], f[s], eng[s]);
                if (vary and r.chance(0.7)) {
                    other_size(r, p, t, s, kind[s], f[s], eng[s]);
                }
                if (kind[s] != 0) {
                    made[s] = p.ops.back();
                }
            } else {
                one_object(r, p, t, s, kind[s], f[s], eng[s]);
            }
        }
        auto const n = same ? r.range(2, 10) : r.range(2, 6);
        for (i64 i = 0; i < n; ++i) {
            auto const s = static_cast<int>(r.below(static_cast<u64>(ns)));
            one_use(r, p, t, s, kind[s], f[s], eng[s]);
            if (kind[s] == 0 and r.chance(0.1)) {
                f[s] = gen_load(r, p, t, s, eng[s], 0, true);
            }
            if (not made[s].kind.empty() and r.chance(0.6)) {
                p.add(t, made[s].kind, made[s].a);  // made anew while the others work
                if (vary) {
                    other_size(r, p, t, s, kind[s], f[s], eng[s]);
                }
            }
        }
    }
    // a thread that runs out of memory must not disturb the others
    if (r.chance(0.35)) {
        for (auto const& op : p.ops) {
            bool const makes = op.kind == "load" or op.kind == "copy" or op.kind == "x.copy" or op.kind.rfind("x.new", 0) == 0;
            if (op.task != pool_task and makes and r.chance(0.25)) {
                p.faults.push_back({op.id, "alloc", r.range(1, 12), r.chance(0.7) ? 1 : r.range(2, 20)});
            }
        }
    }
    gen_preemptions(r, p, static_cast<int>(r.pick<i64>({4, 30, 150, 500})), static_cast<u64>(r.pick<i64>({300, 3000, 20000})));
    return p;
}

void run_single(Plan const& p)
{
    ConvWorld w(p);
    XfWorld x(p);
    w.no_alloc = x.no_alloc = p.get("noalloc") != 0;
    for (auto const& op : p.ops) {
        if (not x.exec(op.task, op)) {
            w.exec(op.task, op);
        }
    }
    w.shutdown();
    x.shutdown();
}

void run_threads(Plan const& p)
{
    ConvWorld w(p);
    XfWorld x(p);
    Plan q = p;
    q.ops.clear();
    for (auto const& op : p.ops) {
        if (op.task == pool_task) {
            if (not x.exec(op.task, op)) {
                w.exec(op.task, op);
            }
        } else {
            q.ops.push_back(op);
        }
    }
    run_tasks(q, [&](int task, Op const& op) {
        if (not x.exec(task, op)) {
            w.exec(task, op);
        }
    });
    w.shutdown();
    x.shutdown();
}

Register const r5{"C05", gen_c05, run_single};
Register const r6{"C06", gen_c06, run_threads};
Register const r8{"C08", gen_c08_all, run_single};

}  // namespace
