// C10: transform plans as long-lived objects.
#include "xf_gen.hpp"

using namespace sim;
using namespace xf_gen;

namespace {

Plan gen_c10(Rng& r, int tier)
{
    Plan p;
    (void)tier;
    auto const faults = r.chance(0.5);
    life(
        r, p, 0, [&](int s) { new_plan(r, p, 0, s); },
        [&](int s) { call_plan(r, p, 0, s, faults and r.chance(0.12)); }, r.range(3, 14), faults
    );
    return p;
}

void run_xf(Plan const& p)
{
    XfWorld w(p);
    for (auto const& op : p.ops) {
        w.exec(op.task, op);
    }
    w.shutdown();
}

Register const r10{"C10", gen_c10, run_xf};

}  // namespace
