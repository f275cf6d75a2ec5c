#include "sim.hpp"

#include <atomic>
#include <cerrno>
#include <climits>
#include <cmath>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <exception>
#include <fcntl.h>
#include <linux/futex.h>
#include <memory>
#include <new>
#include <pthread.h>
#include <sched.h>
#include <sstream>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

namespace sim {

u64 mix64(u64 a, u64 b)
{
    Rng r(a ^ (b * 0xd1342543de82ef95ULL + 0x632be59bd9b4e019ULL));
    r.next();
    return r.next() ^ b;
}

// ------------------------------------------------------------------------------------------ plan text
std::string Plan::text() const
{
    std::ostringstream o;
    o << "prop " << prop << "\nseed " << seed << "\n";
    for (auto const& [k, v] : cfg) {
        o << "cfg " << k << " " << v << "\n";
    }
    for (auto const& op : ops) {
        o << "op " << op.id << " " << op.task << " " << op.kind;
        for (auto v : op.a) {
            o << " " << v;
        }
        o << "\n";
    }
    for (auto const& f : faults) {
        o << "fault " << f.op << " " << f.kind << " " << f.a << " " << f.b << "\n";
    }
    for (auto const& p : pres) {
        o << "pre " << p.gap << " " << p.pick << "\n";
    }
    return o.str();
}

Plan Plan::parse(std::string const& t)
{
    Plan p;
    std::istringstream in(t);
    std::string line;
    while (std::getline(in, line)) {
        std::istringstream l(line);
        std::string w;
        if (not(l >> w) or w[0] == '#') {
            continue;
        }
        if (w == "prop") {
            l >> p.prop;
        } else if (w == "seed") {
            l >> p.seed;
        } else if (w == "cfg") {
            std::string k;
            i64 v{};
            l >> k >> v;
            p.cfg[k] = v;
        } else if (w == "op") {
            Op o;
            l >> o.id >> o.task >> o.kind;
            i64 v{};
            while (l >> v) {
                o.a.push_back(v);
            }
            p.ops.push_back(o);
        } else if (w == "fault") {
            Fault f;
            l >> f.op >> f.kind >> f.a >> f.b;
            p.faults.push_back(f);
        } else if (w == "pre") {
            Pre q;
            l >> q.gap >> q.pick;
            p.pres.push_back(q);
        }
    }
    return p;
}

void gen_preemptions(Rng& r, Plan& p, int max_count, u64 max_gap)
{
    auto const n = r.range(1, max_count);
    for (i64 i = 0; i < n; ++i) {
        // log-uniform gaps: some switches come a handful of edges apart, some far apart
        auto const lg  = r.unit() * std::log(static_cast<double>(max_gap));
        auto const gap = static_cast<u64>(std::exp(lg)) + 1;
        p.pres.push_back({gap, r.below(64)});
    }
}

// ------------------------------------------------------------------------------------------ shared run record
struct Counter
{
    char name[40];
    u64 n;
};
struct Record
{
    u64 hash;
    u64 sched_hash;
    u64 edges;
    u64 switches;
    u64 done;
    u64 violated;
    char cls[64];
    char msg[512];
    Counter counters[96];
    double sim_time;
};
static Record* g_rec           = nullptr;
static unsigned char* g_cov    = nullptr;  // shared, accumulates over the runs of this worker
static constexpr u64 cov_max   = 1u << 20;
static u64 g_nguards           = 0;
static bool g_verbose          = false;

static u64 fnv(u64 h, u64 v)
{
    for (int i = 0; i < 8; ++i) {
        h = (h ^ (v & 0xff)) * 0x100000001b3ULL;
        v >>= 8;
    }
    return h;
}
void mix(u64 v) { g_rec->hash = fnv(g_rec->hash, v); }
void mixd(double v)
{
    u64 b;
    static_assert(sizeof b == sizeof v);
    std::memcpy(&b, &v, sizeof b);
    mix(b);
}
void count(char const* name, u64 n)
{
    for (auto& c : g_rec->counters) {
        if (c.name[0] == 0) {
            std::snprintf(c.name, sizeof c.name, "%s", name);
            c.n = n;
            return;
        }
        if (std::strcmp(c.name, name) == 0) {
            c.n += n;
            return;
        }
    }
}
void note(char const* fmt, ...)
{
    if (not g_verbose) {
        return;
    }
    va_list ap;
    va_start(ap, fmt);
    std::fputs("# ", stdout);
    std::vfprintf(stdout, fmt, ap);
    std::fputc('\n', stdout);
    std::fflush(stdout);
    va_end(ap);
}

// ------------------------------------------------------------------------------------------ scheduler state
static bool g_on        = false;  // a task (or the main thread) is inside a library region
static u64 g_budget     = 0;      // edges until slow()
static u64 g_chunk      = 0;      // budget as last armed
static u64 g_edge_limit = 0;
static u64 g_fallback   = 20000;  // preempt this often once the plan's switches are used up

struct Task
{
    std::atomic<int> go{0};
    bool done{false};
    bool on{false};
    pthread_t th{};
    // allocation seam, per task
    i64 arm_at{0};
    i64 arm_n{0};
    u64 calls{0};
    i64 fired{0};
};
static std::vector<std::unique_ptr<Task>> g_tasks;
static int g_cur             = -1;
static Plan const* g_plan    = nullptr;
static std::size_t g_pre_idx = 0;
static u64 g_to_pre          = 0;  // edges left until the next planned switch (0: none)
static bool g_in_tasks       = false;
static std::atomic<int> g_main_go{0};
static Task g_main_task;
static int g_noswitch = 0;

bool in_tasks() { return g_in_tasks; }

static void futex_wait(std::atomic<int>& f)
{
    while (f.load(std::memory_order_acquire) == 0) {
        syscall(SYS_futex, reinterpret_cast<int*>(&f), FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0);
    }
    f.store(0, std::memory_order_relaxed);
}
static void futex_wake(std::atomic<int>& f)
{
    f.store(1, std::memory_order_release);
    syscall(SYS_futex, reinterpret_cast<int*>(&f), FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0);
}

static Task& self() { return g_cur >= 0 ? *g_tasks[static_cast<std::size_t>(g_cur)] : g_main_task; }

static u64 edges_now() { return g_rec->edges + (g_chunk - g_budget); }

static void arm()
{
    u64 c = g_edge_limit > g_rec->edges ? g_edge_limit - g_rec->edges : 1;
    if (g_to_pre != 0 and g_to_pre < c) {
        c = g_to_pre;
    }
    g_chunk  = c;
    g_budget = c;
}
static void account()
{
    auto const used = g_chunk - g_budget;
    g_rec->edges += used;
    if (g_to_pre != 0) {
        g_to_pre -= used < g_to_pre ? used : g_to_pre;
    }
    g_chunk = g_budget;
}

static void next_pre()
{
    if (g_plan == nullptr) {
        g_to_pre = 0;
        return;
    }
    if (g_pre_idx < g_plan->pres.size()) {
        g_to_pre = g_plan->pres[g_pre_idx].gap;
        if (g_to_pre == 0) {
            g_to_pre = 1;
        }
    } else {
        g_to_pre = g_fallback;
    }
}

static void switch_to(int next, u64 where)
{
    auto const from = g_cur;
    if (next == from) {
        return;
    }
    ++g_rec->switches;
    g_rec->sched_hash = fnv(fnv(fnv(g_rec->sched_hash, static_cast<u64>(from)), static_cast<u64>(next)), where);
    if (from >= 0) {
        self().on = g_on;
    }
    g_cur    = next;
    auto& to = *g_tasks[static_cast<std::size_t>(next)];
    g_on     = to.on;
    futex_wake(to.go);
    if (from >= 0) {
        futex_wait(g_tasks[static_cast<std::size_t>(from)]->go);
    }
}

static int pick_other(u64 pick)
{
    std::vector<int> r;
    for (int i = 0; i < static_cast<int>(g_tasks.size()); ++i) {
        if (i != g_cur and not g_tasks[static_cast<std::size_t>(i)]->done) {
            r.push_back(i);
        }
    }
    if (r.empty()) {
        return -1;
    }
    return r[pick % r.size()];
}

static void slow(u64 where)
{
    auto const was = g_on;
    g_on           = false;
    account();
    if (g_rec->edges >= g_edge_limit) {
        violation("hang", "no termination within %llu instrumented steps", static_cast<unsigned long long>(g_edge_limit));
    }
    if (g_to_pre == 0 and g_plan != nullptr and g_in_tasks) {
        if (g_noswitch > 0) {
            g_to_pre = 64;
        } else {
            u64 pick = g_pre_idx < g_plan->pres.size() ? g_plan->pres[g_pre_idx].pick : 0;
            if (g_pre_idx < g_plan->pres.size()) {
                ++g_pre_idx;
            }
            next_pre();
            auto const nxt = pick_other(pick);
            g_on           = was;
            if (nxt >= 0) {
                count("preemptions");
                arm();
                switch_to(nxt, where);
                return;
            }
            g_on = false;
        }
    }
    arm();
    g_on = was;
}

// A task that cannot proceed (lock held by a preempted task) gives the baton away.
static u64 g_blocked_spins = 0;
static void blocked_yield()
{
    if (not g_in_tasks) {
        return;
    }
    auto const was = g_on;
    g_on           = false;
    account();
    if (++g_blocked_spins > 1000000) {
        violation("deadlock", "tasks wait for each other's locks");
    }
    int nxt      = -1;  // round robin: whoever holds the lock gets its turn
    auto const n = static_cast<int>(g_tasks.size());
    for (int i = 1; i < n and nxt < 0; ++i) {
        auto const t = (g_cur + i) % n;
        nxt          = g_tasks[static_cast<std::size_t>(t)]->done ? -1 : t;
    }
    if (nxt < 0) {
        violation("deadlock", "last runnable task waits for a lock nobody will release");
    }
    arm();
    g_on = was;
    switch_to(nxt, 0xb10c);
}

bool idle()
{
    if (not g_in_tasks or pick_other(0) < 0) {
        return false;
    }
    blocked_yield();
    return true;
}
int current_task() { return g_cur; }
bool task_done(int t) { return not g_in_tasks or t >= static_cast<int>(g_tasks.size()) or g_tasks[static_cast<std::size_t>(t)]->done; }

Lib::Lib() : prev{g_on} { g_on = true; }
Lib::~Lib() { g_on = prev; }
NotLib::NotLib() : prev{g_on} { g_on = false; }
NotLib::~NotLib() { g_on = prev; }

// ------------------------------------------------------------------------------------------ violation
void violation(char const* cls, char const* fmt, ...)
{
    g_on = false;
    va_list ap;
    va_start(ap, fmt);
    std::snprintf(g_rec->cls, sizeof g_rec->cls, "%s", cls);
    std::vsnprintf(g_rec->msg, sizeof g_rec->msg, fmt, ap);
    va_end(ap);
    g_rec->violated = 1;
    if (g_chunk >= g_budget) {
        g_rec->edges += g_chunk - g_budget;
    }
    _exit(3);
}

// ------------------------------------------------------------------------------------------ tasks
struct Start
{
    int idx;
    std::function<void(int, Op const&)> const* exec;
};

// Handing the baton on is the last thing a task does: it runs after the destructors of its thread_local objects.
static void task_end(void* v)
{
    auto& t = *static_cast<Task*>(v);
    g_on    = false;
    t.done  = true;
    account();
    auto const nxt = pick_other(0);
    arm();
    if (nxt < 0) {
        futex_wake(g_main_go);
        return;
    }
    ++g_rec->switches;
    g_rec->sched_hash = fnv(fnv(g_rec->sched_hash, 0xdead), static_cast<u64>(nxt));
    g_cur             = nxt;
    auto& to          = *g_tasks[static_cast<std::size_t>(nxt)];
    g_on              = to.on;
    futex_wake(to.go);
}
static pthread_key_t g_end_key;

static void* task_main(void* arg)
{
    auto const st = *static_cast<Start*>(arg);
    auto& t       = *g_tasks[static_cast<std::size_t>(st.idx)];
    futex_wait(t.go);
    delete static_cast<Start*>(arg);
    pthread_setspecific(g_end_key, &t);
    try {
        for (auto const& op : g_plan->ops) {
            if (op.task == st.idx) {
                (*st.exec)(st.idx, op);
            }
        }
    } catch (std::exception const& e) {
        violation("exception", "uncaught exception in task %d: %s", st.idx, e.what());
    }
    g_on = false;
    return nullptr;
}

void run_tasks(Plan const& plan, std::function<void(int, Op const&)> const& exec)
{
    int n = 1;
    for (auto const& op : plan.ops) {
        n = op.task + 1 > n ? op.task + 1 : n;
    }
    if (n == 1) {
        try {
            for (auto const& op : plan.ops) {
                exec(0, op);
            }
        } catch (std::exception const& e) {
            violation("exception", "uncaught exception: %s", e.what());
        }
        g_on = false;
        return;
    }
    if (pthread_key_create(&g_end_key, task_end) != 0) {
        _exit(9);
    }
    g_tasks.clear();
    for (int i = 0; i < n; ++i) {
        g_tasks.push_back(std::make_unique<Task>());
    }
    g_plan    = &plan;
    g_pre_idx = 0;
    account();
    next_pre();
    arm();
    g_blocked_spins = 0;
    g_in_tasks = true;
    for (int i = 0; i < n; ++i) {
        pthread_attr_t at;
        pthread_attr_init(&at);
        pthread_attr_setstacksize(&at, 2u << 20);
        if (pthread_create(&g_tasks[static_cast<std::size_t>(i)]->th, &at, task_main, new Start{i, &exec}) != 0) {
            _exit(9);
        }
        pthread_attr_destroy(&at);
    }
    g_cur = 0;
    g_on  = false;
    futex_wake(g_tasks[0]->go);
    futex_wait(g_main_go);
    g_in_tasks = false;
    g_cur      = -1;
    g_plan     = nullptr;
    for (auto& t : g_tasks) {
        pthread_join(t->th, nullptr);
    }
    pthread_key_delete(g_end_key);
    g_tasks.clear();
    account();
    g_to_pre = 0;
    arm();
}

// ------------------------------------------------------------------------------------------ allocation seam
static i64 g_live = 0;
static constexpr std::size_t hdr = 32;
struct Hdr
{
    std::size_t size;
    u64 magic;
};
static constexpr u64 m_lib = 0x51b51b51b51b51b5ULL, m_out = 0x0e0e0e0e0e0e0e0eULL;

void alloc_arm(i64 nth, i64 how_many)
{
    auto& t  = self();
    t.arm_at = nth;
    t.arm_n  = how_many;
    t.fired  = 0;
}
i64 alloc_disarm()
{
    auto& t      = self();
    auto const f = t.fired;
    t.arm_at     = 0;
    t.arm_n      = 0;
    t.fired      = 0;
    return f;
}
u64 alloc_calls() { return self().calls; }
static thread_local bool g_expect = false;
void expect_failure(bool on) { g_expect = on; }
bool failure_expected() { return g_expect; }
i64 alloc_live_bytes() { return g_live; }

// size header is kept in a side table keyed by the block's own prefix; over-aligned requests use the plain path
static void* do_new(std::size_t n, std::size_t align, bool nothrow)
{
    if (g_on) {
        auto& t = self();
        ++t.calls;
        bool fail = false;
        if (t.arm_at > 0) {
            if (--t.arm_at == 0) {
                fail = true;
                if (--t.arm_n > 0) {
                    t.arm_at = 1;
                }
            }
        }
        if (g_live + static_cast<i64>(n) > (i64(3) << 30) or n > (std::size_t(2) << 30)) {
            fail = true;
        } else if (fail) {
            ++t.fired;
        }
        if (fail) {
            if (nothrow) {
                return nullptr;
            }
            throw std::bad_alloc{};
        }
    }
    void* p = nullptr;
    if (align > 16) {
        if (posix_memalign(&p, align, n ? n : 1) != 0) {
            p = nullptr;
        }
    } else {
        p = std::malloc(n ? n : 1);
    }
    if (p == nullptr) {
        if (nothrow) {
            return nullptr;
        }
        throw std::bad_alloc{};
    }
    return p;
}

}  // namespace sim

// live accounting of library allocations: an open-addressing table of (ptr -> size), only for library blocks
namespace {
struct Slot
{
    void* p;
    std::size_t n;
};
constexpr std::size_t slots_n = 1u << 18;
Slot* g_slots                 = nullptr;
std::size_t g_used            = 0;
inline std::size_t hslot(void* p) { return (reinterpret_cast<std::size_t>(p) >> 4) * 0x9e3779b97f4a7c15ULL >> 46; }
void live_add(void* p, std::size_t n)
{
    if (g_slots == nullptr or g_used > slots_n / 2) {
        return;
    }
    auto i = hslot(p) % slots_n;
    while (g_slots[i].p != nullptr and g_slots[i].p != reinterpret_cast<void*>(1)) {
        i = (i + 1) % slots_n;
    }
    g_slots[i] = {p, n};
    ++g_used;
    sim::g_live += static_cast<sim::i64>(n);
}
void live_del(void* p)
{
    if (g_slots == nullptr or p == nullptr) {
        return;
    }
    auto i = hslot(p) % slots_n;
    while (g_slots[i].p != nullptr) {
        if (g_slots[i].p == p) {
            sim::g_live -= static_cast<sim::i64>(g_slots[i].n);
            g_slots[i] = {reinterpret_cast<void*>(1), 0};
            return;
        }
        i = (i + 1) % slots_n;
    }
}
inline void* new_(std::size_t n, std::size_t a, bool nt)
{
    auto* p = sim::do_new(n, a, nt);
    if (sim::g_on and p != nullptr) {
        live_add(p, n);
    }
    return p;
}
inline void del_(void* p)
{
    live_del(p);
    std::free(p);
}
}  // namespace

void* operator new(std::size_t n) { return new_(n, 0, false); }
void* operator new[](std::size_t n) { return new_(n, 0, false); }
void* operator new(std::size_t n, std::nothrow_t const&) noexcept { return new_(n, 0, true); }
void* operator new[](std::size_t n, std::nothrow_t const&) noexcept { return new_(n, 0, true); }
void* operator new(std::size_t n, std::align_val_t a) { return new_(n, static_cast<std::size_t>(a), false); }
void* operator new[](std::size_t n, std::align_val_t a) { return new_(n, static_cast<std::size_t>(a), false); }
void operator delete(void* p) noexcept { del_(p); }
void operator delete[](void* p) noexcept { del_(p); }
void operator delete(void* p, std::size_t) noexcept { del_(p); }
void operator delete[](void* p, std::size_t) noexcept { del_(p); }
void operator delete(void* p, std::nothrow_t const&) noexcept { del_(p); }
void operator delete[](void* p, std::nothrow_t const&) noexcept { del_(p); }
void operator delete(void* p, std::align_val_t) noexcept { del_(p); }
void operator delete[](void* p, std::align_val_t) noexcept { del_(p); }
void operator delete(void* p, std::size_t, std::align_val_t) noexcept { del_(p); }
void operator delete[](void* p, std::size_t, std::align_val_t) noexcept { del_(p); }

// ------------------------------------------------------------------------------------------ instrumentation seam
extern "C" void __sanitizer_cov_trace_pc_guard_init(std::uint32_t* start, std::uint32_t* stop)
{
    if (start == stop or *start != 0) {
        return;
    }
    for (auto* g = start; g < stop; ++g) {
        *g = static_cast<std::uint32_t>(++sim::g_nguards);
    }
}
extern "C" void __sanitizer_cov_trace_pc_guard(std::uint32_t* g)
{
    if (not sim::g_on) {
        return;
    }
    sim::g_cov[*g & (sim::cov_max - 1)] = 1;
    if (--sim::g_budget == 0) {
        sim::slow(*g);
    }
}

// ------------------------------------------------------------------------------------------ lock seam
// Locks the library might take: never block the only running thread, hand the baton over instead.
extern "C" int __pthread_mutex_trylock(pthread_mutex_t*) __attribute__((weak));
extern "C" int pthread_mutex_lock(pthread_mutex_t* m)
{
    using fn           = int (*)(pthread_mutex_t*);
    static auto const real = reinterpret_cast<fn>(dlsym(RTLD_NEXT, "pthread_mutex_lock"));
    if (not sim::in_tasks() or not sim::g_on) {
        return real(m);
    }
    int r;
    while ((r = pthread_mutex_trylock(m)) == EBUSY) {
        sim::blocked_yield();
    }
    return r;
}
extern "C" int pthread_rwlock_rdlock(pthread_rwlock_t* m)
{
    using fn           = int (*)(pthread_rwlock_t*);
    static auto const real = reinterpret_cast<fn>(dlsym(RTLD_NEXT, "pthread_rwlock_rdlock"));
    if (not sim::in_tasks() or not sim::g_on) {
        return real(m);
    }
    int r;
    while ((r = pthread_rwlock_tryrdlock(m)) == EBUSY) {
        sim::blocked_yield();
    }
    return r;
}
extern "C" int pthread_rwlock_wrlock(pthread_rwlock_t* m)
{
    using fn           = int (*)(pthread_rwlock_t*);
    static auto const real = reinterpret_cast<fn>(dlsym(RTLD_NEXT, "pthread_rwlock_wrlock"));
    if (not sim::in_tasks() or not sim::g_on) {
        return real(m);
    }
    int r;
    while ((r = pthread_rwlock_trywrlock(m)) == EBUSY) {
        sim::blocked_yield();
    }
    return r;
}
extern "C" int pthread_once(pthread_once_t* ctl, void (*f)())
{
    using fn           = int (*)(pthread_once_t*, void (*)());
    static auto const real = reinterpret_cast<fn>(dlsym(RTLD_NEXT, "pthread_once"));
    ++sim::g_noswitch;  // the initialiser runs without being preempted
    auto const r = real(ctl, f);
    --sim::g_noswitch;
    return r;
}
// function-local statics
extern "C" int __cxa_guard_acquire(std::uint64_t* g)
{
    auto* b = reinterpret_cast<volatile unsigned char*>(g);
    for (;;) {
        if (__atomic_load_n(b, __ATOMIC_ACQUIRE) != 0) {
            return 0;
        }
        if (b[1] == 0) {
            b[1] = 1;
            return 1;
        }
        sim::blocked_yield();
    }
}
extern "C" void __cxa_guard_release(std::uint64_t* g)
{
    auto* b = reinterpret_cast<volatile unsigned char*>(g);
    b[1]    = 0;
    __atomic_store_n(b, static_cast<unsigned char>(1), __ATOMIC_RELEASE);
}
extern "C" void __cxa_guard_abort(std::uint64_t* g)
{
    auto* b = reinterpret_cast<volatile unsigned char*>(g);
    b[1]    = 0;
}

// ------------------------------------------------------------------------------------------ clock seam
namespace sim {
static double g_clock = 1.7e9;
double clock_now() { return g_clock; }
void clock_advance(double s) { g_clock += s; }
static bool g_simclock = false;
}  // namespace sim
extern "C" int clock_gettime(clockid_t id, struct timespec* ts)
{
    if (sim::g_simclock and (id == CLOCK_REALTIME or id == CLOCK_MONOTONIC)) {
        sim::g_clock += 1e-6;
        ts->tv_sec  = static_cast<time_t>(sim::g_clock);
        ts->tv_nsec = static_cast<long>((sim::g_clock - std::floor(sim::g_clock)) * 1e9);
        return 0;
    }
    return static_cast<int>(syscall(SYS_clock_gettime, id, ts));
}

extern "C" const char* __asan_default_options()
{
    return "detect_leaks=0:exitcode=77:allocator_may_return_null=1:max_malloc_fill_size=4194304:malloc_fill_byte=127:"
           "detect_stack_use_after_return=0:color=never:symbolize=0:handle_segv=1:print_summary=1:"
           "quarantine_size_mb=16:detect_odr_violation=0";
}

// ------------------------------------------------------------------------------------------ runner
namespace sim {
struct Scen
{
    std::string prop;
    GenFn gen;
    RunFn run;
};
static std::vector<Scen>& scens()
{
    static std::vector<Scen> s;
    return s;
}
Register::Register(char const* prop, GenFn gen, RunFn run) { scens().push_back({prop, gen, run}); }

static int g_errfd = -1;

static std::string read_err()
{
    std::string s(8000, 0);
    lseek(g_errfd, 0, SEEK_SET);
    auto n = read(g_errfd, s.data(), s.size());
    s.resize(n > 0 ? static_cast<std::size_t>(n) : 0);
    return s;
}

static void esc(std::string& o, char const* s)
{
    for (; *s; ++s) {
        if (*s == '"' or *s == '\\') {
            o += '\\';
            o += *s;
        } else if (static_cast<unsigned char>(*s) < 32) {
            o += ' ';
        } else {
            o += *s;
        }
    }
}

static void exec_child(Scen const& sc, Plan const& plan, u64 edge_limit)
{
    g_edge_limit = edge_limit;
    g_to_pre     = 0;
    arm();
    g_slots    = static_cast<Slot*>(mmap(nullptr, slots_n * sizeof(Slot), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
    g_simclock = true;
    try {
        sc.run(plan);
    } catch (std::exception const& e) {
        violation("exception", "uncaught exception: %s", e.what());
    }
    g_on = false;
    account();
    g_rec->sim_time = g_clock - 1.7e9;
    g_rec->done     = 1;
    std::fflush(stdout);
    _exit(0);
}

static std::string run_one(Scen const& sc, Plan const& plan, u64 edge_limit, bool verbose)
{
    std::memset(g_rec, 0, sizeof *g_rec);
    g_rec->hash       = 0xcbf29ce484222325ULL;
    g_rec->sched_hash = 0xcbf29ce484222325ULL;
    if (ftruncate(g_errfd, 0) != 0) {
        _exit(9);
    }
    lseek(g_errfd, 0, SEEK_SET);
    std::fflush(stdout);
    auto const pid = fork();
    if (pid == 0) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        dup2(g_errfd, 2);
        g_verbose = verbose;
        if (not verbose) {
            auto dn = open("/dev/null", O_WRONLY);
            dup2(dn, 1);
        }
        struct rlimit rl{0, 0};
        setrlimit(RLIMIT_CORE, &rl);
        alarm(100);
        exec_child(sc, plan, edge_limit);
    }
    int st = 0;
    if (pid < 0 or waitpid(pid, &st, 0) != pid) {
        std::perror("fork");
        _exit(9);
    }
    std::string cls, msg;
    if (WIFEXITED(st) and WEXITSTATUS(st) == 0 and g_rec->done) {
        // ok
    } else if (WIFEXITED(st) and WEXITSTATUS(st) == 3 and g_rec->violated) {
        cls = g_rec->cls;
        msg = g_rec->msg;
    } else if (WIFSIGNALED(st) and (WTERMSIG(st) == SIGKILL)) {
        cls = "killed";
        msg = "killed (memory?)";
    } else {
        auto err = read_err();
        auto pos = err.find("SIM-BOUNDS");
        if (pos != std::string::npos) {
            cls = "bounds";
        } else if ((pos = err.find("AddressSanitizer: ")) != std::string::npos) {
            auto e = err.find_first_of(" \n", pos + 18);
            cls    = "asan:" + err.substr(pos + 18, e - pos - 18);
        } else if ((pos = err.find("Assertion")) != std::string::npos) {
            cls = "assert";
        } else if (WIFSIGNALED(st) and WTERMSIG(st) == SIGALRM) {
            cls = "hang";
            msg = "no progress (wall clock limit)";
        } else if (WIFSIGNALED(st)) {
            cls = "signal:" + std::to_string(WTERMSIG(st));
            pos = 0;
        } else {
            cls = "exit:" + std::to_string(WEXITSTATUS(st));
            pos = 0;
        }
        if (msg.empty()) {
            if (pos == std::string::npos) {
                pos = 0;
            }
            msg = err.substr(pos, 240);
        }
        // the record of a crashed run may be torn in timing-dependent fields: keep only the history hash
    }
    std::string o = "{\"seed\":" + std::to_string(plan.seed);
    char b[256];
    std::snprintf(
        b, sizeof b, ",\"hash\":\"%016llx\",\"sched\":\"%016llx\",\"edges\":%llu,\"switches\":%llu,\"simt\":%.6f",
        static_cast<unsigned long long>(g_rec->hash), static_cast<unsigned long long>(g_rec->sched_hash),
        static_cast<unsigned long long>(g_rec->edges), static_cast<unsigned long long>(g_rec->switches), g_rec->sim_time
    );
    o += b;
    o += ",\"stats\":{";
    bool first = true;
    for (auto const& c : g_rec->counters) {
        if (c.name[0] == 0) {
            break;
        }
        if (not first) {
            o += ",";
        }
        first = false;
        o += "\"";
        o += c.name;
        o += "\":" + std::to_string(c.n);
    }
    o += "}";
    if (not cls.empty()) {
        o += ",\"cls\":\"";
        esc(o, cls.c_str());
        o += "\",\"msg\":\"";
        esc(o, msg.c_str());
        o += "\"";
    }
    o += "}";
    return o;
}

static Scen const& find(std::string const& prop)
{
    for (auto const& s : scens()) {
        if (s.prop == prop) {
            return s;
        }
    }
    std::fprintf(stderr, "no scenario %s\n", prop.c_str());
    std::exit(9);
}

static double wall()
{
    struct timespec ts{};
    syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts);
    return static_cast<double>(ts.tv_sec) + 1e-9 * static_cast<double>(ts.tv_nsec);
}
}  // namespace sim

int main(int argc, char** argv)
{
    using namespace sim;
    g_rec   = static_cast<Record*>(mmap(nullptr, sizeof(Record), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    g_cov   = static_cast<unsigned char*>(mmap(nullptr, cov_max, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    g_errfd = memfd_create("err", 0);
    std::string mode = argc > 1 ? argv[1] : "";
    u64 const limit  = 400000000ULL;
    if (mode == "list") {
        for (auto const& s : scens()) {
            std::printf("%s\n", s.prop.c_str());
        }
        return 0;
    }
    if (mode == "gen" and argc >= 5) {
        auto const& sc = find(argv[2]);
        auto seed      = std::strtoull(argv[3], nullptr, 10);
        Rng r(seed);
        auto p = sc.gen(r, std::atoi(argv[4]));
        p.prop = argv[2];
        p.seed = seed;
        std::fputs(p.text().c_str(), stdout);
        return 0;
    }
    if (mode == "exec" and argc >= 3) {
        std::string t;
        if (auto* f = std::fopen(argv[2], "r")) {
            char buf[65536];
            std::size_t n;
            while ((n = std::fread(buf, 1, sizeof buf, f)) > 0) {
                t.append(buf, n);
            }
            std::fclose(f);
        } else {
            return 9;
        }
        auto p = Plan::parse(t);
        auto o = run_one(find(p.prop), p, limit, argc > 3);
        std::printf("%s\n", o.c_str());
        return 0;
    }
    if (mode == "stdin") {  // many plans from stdin, separated by a line "end"
        std::string t;
        char* line    = nullptr;
        size_t cap    = 0;
        while (getline(&line, &cap, stdin) > 0) {
            if (std::strcmp(line, "end\n") == 0) {
                auto p = Plan::parse(t);
                auto o = run_one(find(p.prop), p, limit, false);
                std::printf("%s\n", o.c_str());
                std::fflush(stdout);
                t.clear();
            } else {
                t += line;
            }
        }
        return 0;
    }
    if (mode == "run" and argc >= 8) {
        // run PROP BASE START STRIDE COUNT DEADLINE TIER
        auto const& sc    = find(argv[2]);
        auto const base   = std::strtoull(argv[3], nullptr, 10);
        auto const start  = std::strtoull(argv[4], nullptr, 10);
        auto const stride = std::strtoull(argv[5], nullptr, 10);
        auto const cnt    = std::strtoull(argv[6], nullptr, 10);
        auto const dl     = std::atof(argv[7]);
        auto const tier   = argc > 8 ? std::atoi(argv[8]) : 0;
        auto const t0     = wall();
        for (u64 i = 0; i < cnt; ++i) {
            if (wall() - t0 > dl) {
                break;
            }
            auto const seed = mix64(base, start + i * stride) >> 1;
            Rng r(seed);
            auto p = sc.gen(r, tier);
            p.prop = argv[2];
            p.seed = seed;
            auto o = run_one(sc, p, limit, false);
            std::printf("%s\n", o.c_str());
            std::fflush(stdout);
        }
        u64 hit = 0;
        for (u64 i = 0; i < cov_max; ++i) {
            hit += g_cov[i];
        }
        // coverage bitmap as hex ranges would be long: print the hit guard ids compactly
        std::string ids;
        for (u64 i = 1; i <= g_nguards and i < cov_max; ++i) {
            if (g_cov[i]) {
                ids += std::to_string(i);
                ids += ',';
            }
        }
        std::printf("{\"cov_total\":%llu,\"cov_hit\":[%s0]}\n", static_cast<unsigned long long>(g_nguards), ids.c_str());
        return 0;
    }
    std::fprintf(stderr, "usage: worker list|gen|exec|stdin|run ...\n");
    return 9;
}
