#pragma once
#include "engine.hpp"

#include <map>

// One simulated application using neo's streaming engines: per task a set of engine slots, each with a reference model.
struct Stream  // reference model of one engine's stream since its last successful filter load
{
    EngineInfo const* info{};
    FilterSpec spec;
    ref::vec x;                   // everything fed in since the load (non-finite samples stored as 0)
    std::size_t clean_from{0};    // outputs before this index are unconstrained (corrupted input)
    std::size_t fed_bad{0};
    double poison_scale{0};
    // masked (sparse) engines: block model in the frequency domain
    std::vector<ref::cvec> Hm;
    std::vector<ref::cvec> ring;  // newest first
    ref::vec prev, tail;
    double hinf{0};               // sum over segments of max |H_s|

    void start(EngineInfo const* i, FilterSpec const& f);
    ref::vec expect(ref::vec const& in);  // consumes in
    double tolerance(std::size_t last) const;
};

struct Slot
{
    EngineInfo const* info{};
    std::unique_ptr<IEngine> eng;
    bool loaded{false};
    Stream st;
};

struct ConvWorld
{
    sim::Plan const& plan;
    std::map<std::pair<int, int>, Slot> slots;
    bool no_alloc{false};     // C05: processing with an exhausted heap
    bool check_leak{false};
    explicit ConvWorld(sim::Plan const& p) : plan{p} {}
    bool exec(int task, sim::Op const& op);  // false: not an op of this world
    void shutdown();
};

int engine_count();
EngineInfo const& engine_at(int idx);
