// Deterministic simulation core: plans, seeded generation, scheduler, allocation seam, run records.
#pragma once

#include <cstdint>
#include <functional>
#include <map>
#include <string>
#include <vector>

namespace sim {

using u64 = std::uint64_t;
using i64 = std::int64_t;

// ---------------------------------------------------------------- randomness (the only source)
struct Rng
{
    u64 s;
    explicit Rng(u64 seed) : s{seed} {}
    u64 next()
    {
        u64 z = (s += 0x9e3779b97f4a7c15ULL);
        z     = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
        z     = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
        return z ^ (z >> 31);
    }
    u64 below(u64 n) { return n == 0 ? 0 : next() % n; }
    i64 range(i64 lo, i64 hi) { return lo + static_cast<i64>(below(static_cast<u64>(hi - lo + 1))); }
    double unit() { return static_cast<double>(next() >> 11) * 0x1.0p-53; }
    double sym() { return 2.0 * unit() - 1.0; }
    bool chance(double p) { return unit() < p; }
    i64 seed31() { return static_cast<i64>(next() >> 33); }
    template<typename T>
    T pick(std::initializer_list<T> l)
    {
        return *(l.begin() + below(l.size()));
    }
};
u64 mix64(u64 a, u64 b);

// ---------------------------------------------------------------- plan: one run as explicit data
struct Op
{
    int id{};
    int task{};
    std::string kind;
    std::vector<i64> a;
    i64 at(std::size_t i, i64 def = 0) const { return i < a.size() ? a[i] : def; }
};
struct Pre
{
    u64 gap{};   // instrumented edges until the switch
    u64 pick{};  // which other runnable task continues
};
struct Fault
{
    int op{};          // id of the operation it strikes
    std::string kind;  // what fails
    i64 a{};
    i64 b{};
};
struct Plan
{
    std::string prop;
    u64 seed{};
    std::map<std::string, i64> cfg;
    std::vector<Op> ops;
    std::vector<Pre> pres;
    std::vector<Fault> faults;

    i64 get(std::string const& k, i64 def = 0) const
    {
        auto it = cfg.find(k);
        return it == cfg.end() ? def : it->second;
    }
    Op& add(int task, std::string kind, std::vector<i64> a)
    {
        ops.push_back(Op{static_cast<int>(ops.size()), task, std::move(kind), std::move(a)});
        return ops.back();
    }
    Fault const* fault_for(int op, std::string const& kind) const
    {
        for (auto const& f : faults) {
            if (f.op == op and f.kind == kind) {
                return &f;
            }
        }
        return nullptr;
    }
    std::string text() const;
    static Plan parse(std::string const&);
};

// ---------------------------------------------------------------- scenarios
using GenFn = Plan (*)(Rng&, int tier);
using RunFn = void (*)(Plan const&);
struct Register
{
    Register(char const* prop, GenFn gen, RunFn run);
};

// ---------------------------------------------------------------- inside a run
[[noreturn]] void violation(char const* cls, char const* fmt, ...) __attribute__((format(printf, 2, 3)));
void count(char const* name, u64 n = 1);  // counters reported in evidence
void mix(u64 v);                          // history hash
void mixd(double v);
void note(char const* fmt, ...) __attribute__((format(printf, 1, 2)));  // appended to the event log when replaying

// Library region: edges executed inside are yield points, allocations inside are faultable and counted.
struct Lib
{
    Lib();
    ~Lib();
    bool prev;
};
// Suspends a library region (callbacks from the library into the harness).
struct NotLib
{
    NotLib();
    ~NotLib();
    bool prev;
};

// Allocation seam (applies to the running task, inside library regions only).
void alloc_arm(i64 nth, i64 how_many);  // fail the nth (1-based) allocation from now, and the following how_many-1
i64 alloc_disarm();                     // returns how many failures were injected
u64 alloc_calls();                      // allocations requested by library code of this task so far
void expect_failure(bool on);           // this task's operation may fail for a reason other than the heap
bool failure_expected();
i64 alloc_live_bytes();                 // live bytes that were allocated in library regions (all tasks)

// Runs every op of every task; each task is a real thread, exactly one runs at a time, switches as in plan.pres.
void run_tasks(Plan const& plan, std::function<void(int, Op const&)> const& exec);
// Fill plan.pres for nthreads tasks
void gen_preemptions(Rng& r, Plan& p, int max_count, u64 max_gap);
bool in_tasks();
// Lets the next task run; false when no other task is left.
bool idle();
int current_task();
bool task_done(int t);

double clock_now();  // simulated seconds
void clock_advance(double s);

}  // namespace sim
