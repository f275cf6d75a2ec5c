// C01..C04, C07: one application thread driving streaming engines.
#include "conv_gen.hpp"

using namespace sim;

namespace {

void run_single(Plan const& p)
{
    ConvWorld w(p);
    w.check_leak = p.get("leak") != 0;
    for (auto const& op : p.ops) {
        w.exec(op.task, op);
    }
    w.shutdown();
}

Register const r1{"C01", conv_gen::gen_c01, run_single};
Register const r2{"C02", conv_gen::gen_c02, run_single};
Register const r3{"C03", conv_gen::gen_c03, run_single};
Register const r4{"C04", conv_gen::gen_c04, run_single};
Register const r7{"C07", conv_gen::gen_c07, run_single};

}  // namespace
