#include "conv_world.hpp"

#include <algorithm>
#include <cmath>
#include <limits>
#include <new>

std::vector<EngineInfo>& engines()
{
    static std::vector<EngineInfo> v;
    return v;
}
EngineReg::EngineReg(EngineInfo const& e) { engines().push_back(e); }

static char const* const table[] = {
    "upols_f32",        "upola_f32",        "v2_f32",           "split_upols_f32",    "split_upola_f32",
    "sparse_upols_f32", "sparse_upola_f32", "upols_f64",        "upola_f64",          "v2_f64",
    "split_upols_f64",  "split_upola_f64",  "sparse_upols_f64", "sparse_upola_f64",   "upols_c64",
    "upola_c128",       "compressed16_upols", "compressed16_upola", "compressed8_upols", "split_upola_f16",
};
int engine_count() { return static_cast<int>(std::size(table)); }
EngineInfo const& engine_named(std::string const& n)
{
    for (auto const& e : engines()) {
        if (n == e.name) {
            return e;
        }
    }
    return engines().front();  // not built in this configuration
}
EngineInfo const& engine_at(int idx) { return engine_named(table[static_cast<std::size_t>(idx) % std::size(table)]); }

// ------------------------------------------------------------------------------------------- model
void Stream::start(EngineInfo const* i, FilterSpec const& f)
{
    info       = i;
    spec       = f;
    x.clear();
    clean_from = 0;
    Hm.clear();
    ring.clear();
    hinf = 0;
    for (int s = 0; s < f.segs; ++s) {
        auto H   = f.spectrum(s);
        double m = 0;
        for (std::size_t k = 0; k < H.size(); ++k) {
            if (not f.mask.empty() and not f.mask[static_cast<std::size_t>(s) * H.size() + k]) {
                H[k] = 0;
            }
            m = std::max(m, std::abs(H[k]));
        }
        hinf += m;
        if (not f.mask.empty()) {
            Hm.push_back(H);
        }
    }
    auto const B = static_cast<std::size_t>(f.block);
    prev.assign(B, 0.0);
    tail.assign(B, 0.0);
    ring.assign(f.mask.empty() ? 0 : static_cast<std::size_t>(f.segs), ref::cvec(B + 1));
    if (f.poison) {
        clean_from = std::numeric_limits<std::size_t>::max();
    }
}

ref::vec Stream::expect(ref::vec const& in)
{
    auto const from = x.size();
    auto const B    = static_cast<std::size_t>(spec.block);
    for (auto v : in) {
        if (not std::isfinite(v) or std::abs(v) > 1e30) {
            auto const blk  = x.size() / B;
            auto const upto = (blk + static_cast<std::size_t>(spec.segs) + 1) * B;
            clean_from      = std::max(clean_from, upto);
            x.push_back(0.0);
        } else {
            x.push_back(v);
        }
    }
    if (spec.mask.empty()) {
        return ref::direct(x, spec.h, from, x.size());
    }
    // block model; callers feed whole blocks here
    ref::vec out;
    for (std::size_t o = from; o < x.size(); o += B) {
        ref::vec cur(x.begin() + static_cast<long>(o), x.begin() + static_cast<long>(o + B));
        ref::vec win;
        if (info->method == OLS) {
            win = prev;
            win.insert(win.end(), cur.begin(), cur.end());
        } else {
            win = cur;
        }
        ring.insert(ring.begin(), ref::rfft(win, 2 * B));
        ring.pop_back();
        ref::cvec Y(B + 1);
        for (std::size_t s = 0; s < ring.size(); ++s) {
            for (std::size_t k = 0; k <= B; ++k) {
                Y[k] += ring[s][k] * Hm[s][k];
            }
        }
        auto y = ref::irfft(Y, 2 * B);
        for (std::size_t i = 0; i < B; ++i) {
            if (info->method == OLS) {
                out.push_back(y[B + i]);
            } else {
                out.push_back(y[i] + tail[i]);
                tail[i] = y[B + i];
            }
        }
        prev = cur;
    }
    return out;
}

double Stream::tolerance(std::size_t last) const
{
    auto const B    = static_cast<std::size_t>(spec.block);
    auto const keep = (static_cast<std::size_t>(spec.segs) + 3) * B + last;
    double xm       = 1e-30;
    for (std::size_t i = x.size() > keep ? x.size() - keep : 0; i < x.size(); ++i) {
        xm = std::max(xm, std::abs(x[i]));
    }
    double const hn = std::max(ref::norm2(spec.h), 1e-12);
    double tol      = 200.0 * info->eps * std::sqrt(2.0 * static_cast<double>(B)) * xm * hn * (1.0 + 0.05 * spec.segs);
    if (not spec.mask.empty()) {
        tol *= 2.0;
    }
    // the denormal range is not a place where relative accuracy can be expected
    tol += info->eps < 1e-10 ? 1e-290 : 1e-36;
    switch (info->quant) {
        case Q_I16: tol += 1.1 * hinf * 0.7072 / 32767.0; break;
        case Q_I8: tol += 1.1 * hinf * 0.7072 / 127.0; break;
        case Q_F16:
            // half precision spectra, taps and accumulation
            tol += 1.5e-3 * xm * hn * std::sqrt(2.0 * static_cast<double>(B)) * (2.0 + spec.segs) + 1e-4;
            break;
        default: break;
    }
    return tol;
}

// ------------------------------------------------------------------------------------------- world
static FilterSpec spec_from(sim::Op const& op, EngineInfo const& info)
{
    // load: slot block segs irkind irseed layout source maskkind cut
    FilterSpec f;
    f.block  = static_cast<int>(std::max<sim::i64>(2, op.at(1, 2)));
    f.segs   = static_cast<int>(std::max<sim::i64>(1, op.at(2, 1)));
    f.layout = static_cast<int>(op.at(5));
    f.source = static_cast<int>(op.at(6));
    sim::Rng r(static_cast<sim::u64>(op.at(4)) * 2654435761u + 17);
    auto const cut = std::min<sim::i64>(std::max<sim::i64>(op.at(8), 0), f.block - 1);
    auto const len = static_cast<std::size_t>(f.block) * static_cast<std::size_t>(f.segs) - static_cast<std::size_t>(cut);
    f.h            = ref::make_ir(r, len, static_cast<int>(op.at(3)));
    if (info.quant != Q_NONE) {
        // keep half precision products in range
        auto const n = std::max(ref::norm2(f.h), 1e-9);
        for (auto& v : f.h) {
            v /= n;
        }
    }
    if (info.sparse and op.at(7) > 0) {
        auto const bins = static_cast<std::size_t>(f.block) + 1;
        f.mask.assign(bins * static_cast<std::size_t>(f.segs), 0);
        for (std::size_t i = 0; i < f.mask.size(); ++i) {
            switch (op.at(7)) {
                case 1: f.mask[i] = r.chance(0.5); break;
                case 2: f.mask[i] = r.chance(0.05); break;
                case 3: f.mask[i] = (i % bins) < bins / 2 + 1; break;
                case 4: f.mask[i] = (i / bins) % 2 == 0; break;  // whole rows empty
                case 5: f.mask[i] = r.chance(0.95); break;
                default: f.mask[i] = 1; break;
            }
        }
        if (f.source == 1) {
            f.source = 0;
        }
    }
    f.poison = op.kind == "loadnan";
    return f;
}

bool ConvWorld::exec(int task, sim::Op const& op)
{
    auto const key = [&](sim::i64 s) { return std::make_pair(task, static_cast<int>(s)); };
    auto find      = [&](sim::i64 s) -> Slot* {
        auto it = slots.find(key(s));
        return it == slots.end() or it->second.eng == nullptr ? nullptr : &it->second;
    };
    auto const* af = plan.fault_for(op.id, "alloc");

    if (op.kind == "new") {
        auto& s  = slots[key(op.at(0))];
        s.info   = &engine_at(static_cast<int>(op.at(1)));
        s.loaded = false;
        s.eng    = nullptr;
        s.eng    = s.info->make();
        sim::count("engines");
        return true;
    }
    if (op.kind == "load" or op.kind == "loadnan") {
        auto* s = find(op.at(0));
        if (s == nullptr) {
            return true;
        }
        auto f    = spec_from(op, *s->info);
        if (s->info->quant != Q_NONE and f.poison) {
            return true;
        }
        bool threw = false;
        auto const live0 = sim::alloc_live_bytes();
        if (af != nullptr) {
            sim::alloc_arm(af->a, af->b);
        }
        try {
            s->eng->load(f);
        } catch (std::bad_alloc const&) {
            if (sim::failure_expected()) {
                sim::alloc_disarm();
                throw;  // something other than the heap was made to fail
            }
            threw = true;
        }
        auto const fired = sim::alloc_disarm();
        if (threw) {
            sim::count("fault_alloc_load", static_cast<sim::u64>(fired));
            if (fired == 0) {
                sim::violation("exception", "load failed with bad_alloc although no allocation failed");
            }
            if (s->loaded) {
                sim::count("probe_failed_reload_midstream");
            }
            auto const live1 = sim::alloc_live_bytes();
            if (check_leak and not sim::in_tasks() and live1 > live0) {
                // confirm: the same failure once more must grow the heap once more
                sim::alloc_arm(af->a, af->b);
                try {
                    s->eng->load(f);
                } catch (std::bad_alloc const&) {
                }
                sim::alloc_disarm();
                if (sim::alloc_live_bytes() > live1) {
                    sim::violation("leak", "each failed load leaks %lld bytes", static_cast<long long>(sim::alloc_live_bytes() - live1));
                }
            }
        } else {
            if (fired > 0) {
                sim::violation("swallowed", "load reported success although an allocation failed");
            }
            if (s->loaded) {
                sim::count("reloads");
            }
            s->st.start(s->info, f);
            s->loaded = true;
            sim::count("loads");
        }
        sim::mix(threw);
        return true;
    }
    if (op.kind == "proc" or op.kind == "bad") {
        // proc: slot ncalls size kind seed view amp%
        auto* s = find(op.at(0));
        if (s == nullptr or not s->loaded) {
            return true;
        }
        auto const B  = static_cast<std::size_t>(s->st.spec.block);
        auto const n  = s->info->method == V2 ? std::max<std::size_t>(B, static_cast<std::size_t>(std::max<sim::i64>(op.at(2), 1))) : B;
        auto const nc = static_cast<std::size_t>(std::max<sim::i64>(op.at(1), 1));
        double amp    = ref::level(op.at(6, 100));
        if (s->info->quant == Q_I16 or s->info->quant == Q_I8) {
            amp = 0.9 / (2.0 * static_cast<double>(B));
        } else if (s->info->quant == Q_F16) {
            amp = 0.25;
        }
        sim::Rng r(static_cast<sim::u64>(op.at(4)) * 40503u + 3);
        for (std::size_t c = 0; c < nc; ++c) {
            auto kind = static_cast<int>(op.at(3));
            if (kind == 99) {
                kind = static_cast<int>(r.below(ref::kind_count));
            }
            if (s->info->quant == Q_F16 and (kind == ref::dc or kind == ref::alternating or kind == ref::ramp or kind == ref::sine)) {
                kind = ref::noise;
            }
            auto in = ref::make(r, n, kind, amp);
            for (auto& v : in) {
                // the engine only ever sees values representable in its precision
                v = s->info->eps > 1e-10 ? static_cast<double>(static_cast<float>(v)) : v;
            }
            if (op.kind == "bad" and s->info->quant == Q_NONE) {
                auto const nb = r.range(1, 3);
                for (sim::i64 i = 0; i < nb; ++i) {
                    in[r.below(n)] = r.pick({std::numeric_limits<double>::quiet_NaN(), std::numeric_limits<double>::infinity(),
                                             -std::numeric_limits<double>::infinity()});
                    sim::count("fault_corrupt_sample");
                }
            }
            auto out = in;
            if (no_alloc) {
                sim::alloc_arm(1, 1 << 30);
            }
            s->eng->process(out.data(), n, static_cast<int>(op.at(5)));
            if (no_alloc) {
                auto const fired = sim::alloc_disarm();
                sim::count("fault_heap_exhausted_calls");
                if (fired != 0) {
                    sim::violation("allocates", "%s allocates while processing a block (call %zu)", s->info->name, c);
                }
            }
            auto const base = s->st.x.size();
            auto const want = s->st.expect(in);
            auto const tol  = s->st.tolerance(n);
            for (std::size_t i = 0; i < n; ++i) {
                sim::mixd(out[i] == out[i] ? out[i] : 0.0);
                if (base + i < s->st.clean_from) {
                    continue;
                }
                auto const err = std::abs(out[i] - want[i]);
                if (not(err <= tol)) {
                    sim::violation(
                        "mismatch", "%s block=%d segs=%d sample %zu (since load): got %.9g want %.9g tol %.3g", s->info->name,
                        s->st.spec.block, s->st.spec.segs, base + i, out[i], want[i], tol
                    );
                }
            }
            sim::count("calls");
            sim::count("samples", n);
            sim::clock_advance(static_cast<double>(n) / 48000.0);
            if (s->st.clean_from != 0 and s->st.clean_from != std::numeric_limits<std::size_t>::max()
                and base >= s->st.clean_from) {
                sim::count("probe_recovered_calls");
            }
            if (s->info->method == V2 and s->st.x.size() % B != 0) {
                sim::count("probe_partial_block");
            }
            if (s->st.x.size() / B > static_cast<std::size_t>(s->st.spec.segs)) {
                sim::count("probe_ring_wrapped");
            }
        }
        return true;
    }
    if (op.kind == "copy" or op.kind == "move" or op.kind == "asg" or op.kind == "mvasg") {
        // dst src
        // a third argument marks a source that all threads share (and only ever copy from)
        auto source = [&]() -> Slot* {
            if (op.at(2) == 0) {
                // assigning an object to itself must leave it as it is
                return op.at(0) == op.at(1) and op.kind != "asg" ? nullptr : find(op.at(1));
            }
            auto it = slots.find(std::make_pair(90, static_cast<int>(op.at(1))));
            return it == slots.end() or it->second.eng == nullptr or op.kind != "copy" ? nullptr : &it->second;
        };
        auto* src = source();
        if (src == nullptr) {
            return true;
        }
        auto& dst  = slots[key(op.at(0))];
        bool threw = false;
        if (af != nullptr) {
            sim::alloc_arm(af->a, af->b);
        }
        bool const is_asg  = op.kind == "asg" or op.kind == "mvasg";
        bool const is_move = op.kind == "move" or op.kind == "mvasg";
        if (is_asg and (dst.eng == nullptr or dst.info != src->info)) {
            sim::alloc_disarm();
            return true;
        }
        try {
            if (op.kind == "copy") {
                auto n  = src->eng->clone();
                dst.eng = std::move(n);
            } else if (op.kind == "move") {
                auto n  = src->eng->take();
                dst.eng = std::move(n);
            } else if (op.kind == "asg") {
                dst.eng->assign(*src->eng);
            } else {
                dst.eng->assign_move(*src->eng);
            }
        } catch (std::bad_alloc const&) {
            threw = true;
        }
        auto const fired = sim::alloc_disarm();
        if (threw) {
            sim::count("fault_alloc_copy", static_cast<sim::u64>(fired));
            if (fired == 0) {
                sim::violation("exception", "copy failed with bad_alloc although no allocation failed");
            }
            if (is_asg) {
                dst.loaded = false;  // basic guarantee only: must still be assignable, loadable and destructible
            }
            if (is_move) {
                src->loaded = false;
            }
            return true;
        }
        if (&dst == src) {
            sim::count("self_assignments");
            return true;
        }
        dst.info   = src->info;
        dst.loaded = src->loaded;
        dst.st     = src->st;
        sim::count("copies");
        if (src->loaded and not src->st.x.empty()) {
            sim::count("probe_copy_midstream");
        }
        if (is_move) {
            src->loaded = false;  // moved-from: may only be destroyed, assigned or loaded again
        }
        return true;
    }
    if (op.kind == "kill") {
        auto it = slots.find(key(op.at(0)));
        if (it != slots.end()) {
            it->second.eng    = nullptr;
            it->second.loaded = false;
        }
        return true;
    }
    return false;
}

void ConvWorld::shutdown() { slots.clear(); }
