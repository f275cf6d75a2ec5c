#include "xf.hpp"

#include <new>

std::vector<XfInfo>& xf_kinds()
{
    static std::vector<XfInfo> v;
    return v;
}
XfReg::XfReg(char const* n, std::unique_ptr<IXf> (*m)(sim::Op const&)) { xf_kinds().push_back({n, m}); }
XfInfo const* xf_named(std::string const& n)
{
    for (auto const& k : xf_kinds()) {
        if (n == k.name) {
            return &k;
        }
    }
    return nullptr;
}

// "x.new:<kind>" slot a b c d / "x.call" slot ... / "x.copy|move|asg|mvasg" dst src / "x.kill" slot
bool XfWorld::exec(int task, sim::Op const& op)
{
    if (op.kind.rfind("x.", 0) != 0) {
        return false;
    }
    auto const key = [&](sim::i64 s) { return std::make_pair(task, static_cast<int>(s)); };
    auto const* af = plan.fault_for(op.id, "alloc");
    auto guarded   = [&](auto f) -> bool {  // true: completed
        if (af != nullptr) {
            sim::alloc_arm(af->a, af->b);
        }
        bool threw = false;
        try {
            f();
        } catch (std::bad_alloc const&) {
            if (sim::failure_expected()) {
                sim::alloc_disarm();
                throw;  // something other than the heap was made to fail
            }
            threw = true;
        }
        auto const fired = sim::alloc_disarm();
        sim::mix(threw);
        if (threw) {
            sim::count("fault_alloc", static_cast<sim::u64>(fired));
            if (fired == 0) {
                sim::violation("exception", "bad_alloc although no allocation failed");
            }
        } else if (fired > 0) {
            sim::violation("swallowed", "%s reported success although an allocation failed", op.kind.c_str());
        }
        return not threw;
    };

    if (op.kind.rfind("x.new:", 0) == 0) {
        auto const name = op.kind.substr(6);
        auto const* k   = xf_named(name);
        if (k == nullptr) {
            return true;
        }
        auto& s    = slots[key(op.at(0))];
        s.obj      = nullptr;
        s.valid    = false;
        s.kind     = name;
        bool const ok = guarded([&] { s.obj = k->make(op); });
        s.valid    = ok and s.obj != nullptr;
        if (s.valid) {
            s.obj->noalloc = no_alloc and not s.obj->allocates();
            sim::count("objects");
        }
        return true;
    }
    auto find = [&](sim::i64 i) -> XfSlot* {
        auto it = slots.find(key(i));
        return it == slots.end() or not it->second.obj ? nullptr : &it->second;
    };
    if (op.kind == "x.call") {
        auto* s = find(op.at(0));
        if (s == nullptr or not s->valid) {
            return true;
        }
        if (af != nullptr and not s->obj->allocates()) {
            af = nullptr;
        }
        guarded([&] { s->obj->call(op); });
        sim::count("calls");
        sim::clock_advance(1e-3);
        return true;
    }
    if (op.kind == "x.kill") {
        if (auto* s = find(op.at(0))) {
            s->obj   = nullptr;
            s->valid = false;
        }
        return true;
    }
    bool const is_asg  = op.kind == "x.asg" or op.kind == "x.mvasg";
    bool const is_move = op.kind == "x.move" or op.kind == "x.mvasg";
    // a third argument marks a source that all threads share (and only ever copy from)
    auto source = [&]() -> XfSlot* {
        if (op.at(2) == 0) {
            return op.at(0) == op.at(1) and op.kind != "x.asg" ? nullptr : find(op.at(1));
        }
        auto it = slots.find(std::make_pair(90, static_cast<int>(op.at(1))));
        return it == slots.end() or not it->second.obj or op.kind != "x.copy" ? nullptr : &it->second;
    };
    auto* src = source();
    if (src == nullptr or not src->valid) {
        return true;
    }
    auto& dst = slots[key(op.at(0))];
    if (is_asg and (not dst.obj or dst.kind != src->kind)) {
        return true;
    }
    bool const ok = guarded([&] {
        if (op.kind == "x.copy") {
            dst.obj = src->obj->clone();
        } else if (op.kind == "x.move") {
            dst.obj = src->obj->take();
        } else if (op.kind == "x.asg") {
            dst.obj->assign(*src->obj);
        } else {
            dst.obj->assign_move(*src->obj);
        }
    });
    if (ok and not dst.obj) {  // not copyable
        dst.valid = false;
        return true;
    }
    if (not ok) {
        if (is_asg) {
            dst.valid = false;
        }
        if (is_move) {
            src->valid = false;
        }
        return true;
    }
    dst.kind  = src->kind;
    dst.valid = true;
    sim::count("copies");
    if (is_move) {
        src->valid = false;
    }
    return true;
}
