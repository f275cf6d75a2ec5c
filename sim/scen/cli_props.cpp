// C15, C16: the command-line convolver as a process on a simulated disk.
#include "dr_wav.h"
#include "ref.hpp"
#include "simdisk.hpp"

#include <algorithm>
#include <cmath>
#include <cstdio>
#include <cstring>
#include <fcntl.h>
#include <filesystem>
#include <stdexcept>
#include <unistd.h>

int cli_main(int argc, char** argv);

namespace disk {
State& state()
{
    static State s;
    return s;
}
static std::string bytes_of(std::string const& path, bool& there)
{
    std::string s;
    auto const fd = open(path.c_str(), O_RDONLY | O_CLOEXEC);
    there         = fd >= 0;
    if (there) {
        char b[4096];
        ssize_t n = 0;
        while ((n = ::read(fd, b, sizeof b)) > 0) {
            s.append(b, static_cast<std::size_t>(n));
        }
        close(fd);
    }
    return s;
}
static bool bytes_to(std::string const& path, std::string const& s)
{
    auto const fd = open(path.c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_CLOEXEC, 0644);
    if (fd < 0) {
        return false;
    }
    auto const ok = ::write(fd, s.data(), s.size()) == static_cast<ssize_t>(s.size());
    close(fd);
    return ok;
}
// number of the content behind a name, or -1
static int id_of(std::string const& bytes)
{
    int id = -1, end = 0;
    if (std::sscanf(bytes.c_str(), "neo-sim-wav %d\n%n", &id, &end) == 1 and static_cast<std::size_t>(end) == bytes.size() and id >= 0
        and static_cast<std::size_t>(id) < state().store.size()) {
        return id;
    }
    return -1;
}
void enter()
{
    char exe[4096];
    auto const n = readlink("/proc/self/exe", exe, sizeof exe - 1);
    std::filesystem::path p{std::string(exe, n > 0 ? static_cast<std::size_t>(n) : 0)};
    p = p.parent_path() / ("fs." + std::to_string(getppid()));
    std::filesystem::remove_all(p);
    std::filesystem::create_directories(p / "disk");
    if (chdir(p.c_str()) != 0) {
        std::perror("scratch directory");
        _exit(9);
    }
}
std::map<std::string, File> snapshot()
{
    std::map<std::string, File> m;
    for (auto const& e : std::filesystem::recursive_directory_iterator(".")) {
        if (e.is_directory()) {
            continue;
        }
        auto const name = e.path().lexically_normal().string();
        bool there      = false;
        auto const b    = bytes_of(name, there);
        auto const id   = id_of(b);
        if (id >= 0) {
            m[name] = state().store[static_cast<std::size_t>(id)];
        } else {
            File f;
            f.valid = false;
            f.raw   = b;
            m[name] = f;
        }
    }
    return m;
}
bool put(std::string const& path, File f)
{
    state().store.push_back(std::move(f));
    if (not bytes_to(path, "neo-sim-wav " + std::to_string(state().store.size() - 1) + "\n")) {
        state().store.pop_back();
        return false;
    }
    return true;
}
void put_raw(std::string const& path, std::string const& bytes) { bytes_to(path, bytes); }

struct Handle
{
    std::string path;
    std::size_t id{};
    bool write{};
    std::size_t cursor{};
    std::size_t limit{~std::size_t{0}};
};
}  // namespace disk

using disk::state;

// ---------------------------------------------------------------- dr_wav over the disk
drwav_bool32 drwav_init_file(drwav* w, char const* name, drwav_allocation_callbacks const*)
{
    sim::NotLib n;
    auto& s = state();
    std::memset(w, 0, sizeof *w);
    ++s.opens_r;
    bool there    = false;
    auto const id = disk::id_of(disk::bytes_of(name, there));
    if (s.opens_r == s.fail_open_r) {
        ++s.faulted;
        sim::count("fault_open_read");
        s.unreadable.push_back(name);
        return 0;
    }
    if (id < 0 or not s.store[static_cast<std::size_t>(id)].valid) {
        ++s.faulted;
        sim::count(not there ? "fault_missing_file" : "fault_bad_header");
        return 0;
    }
    auto const& f         = s.store[static_cast<std::size_t>(id)];
    w->channels           = static_cast<drwav_uint16>(f.channels);
    w->sampleRate         = f.rate;
    w->bitsPerSample      = static_cast<drwav_uint16>(f.bits);
    w->totalPCMFrameCount = f.frames;
    w->pUserData          = new disk::Handle{name, static_cast<std::size_t>(id), false, 0, s.opens_r == s.short_read ? static_cast<std::size_t>(s.short_read_to) : ~std::size_t{0}};
    ++s.open_handles;
    return 1;
}
drwav_uint64 drwav_read_pcm_frames_f32(drwav* w, drwav_uint64 frames, float* out)
{
    sim::NotLib n;
    auto& s = state();
    auto* h = static_cast<disk::Handle*>(w->pUserData);
    if (h == nullptr or h->write) {
        ++s.bad_calls;
        return 0;
    }
    ++s.reads;
    auto const& f  = s.store[h->id];
    auto const all = f.channels == 0 ? 0 : f.data.size() / f.channels;
    auto k         = std::min<std::size_t>(frames, all - std::min(all, h->cursor));
    k              = std::min(k, h->limit - std::min(h->limit, h->cursor));
    if (k < frames and h->cursor + k < f.frames) {
        s.unreadable.push_back(h->path);
        ++s.faulted;
        sim::count("fault_short_read");
    }
    std::copy_n(f.data.begin() + static_cast<long>(h->cursor * f.channels), k * f.channels, out);
    h->cursor += k;
    return k;
}
drwav_bool32 drwav_init_file_write(drwav* w, char const* name, drwav_data_format const* fm, drwav_allocation_callbacks const*)
{
    sim::NotLib n;
    auto& s = state();
    std::memset(w, 0, sizeof *w);
    ++s.opens_w;
    if (s.opens_w == s.fail_open_w) {
        ++s.faulted;
        sim::count("fault_open_write");
        return 0;
    }
    s.opened_for_write.push_back(name);
    disk::File f;
    f.channels = fm->channels;
    f.rate     = fm->sampleRate;
    f.bits     = fm->bitsPerSample;
    f.format   = fm->format;
    if (not disk::put(name, f)) {
        s.opened_for_write.pop_back();
        ++s.faulted;
        sim::count("fault_no_such_directory");
        return 0;
    }
    w->channels      = static_cast<drwav_uint16>(fm->channels);
    w->sampleRate    = fm->sampleRate;
    w->bitsPerSample = static_cast<drwav_uint16>(fm->bitsPerSample);
    w->pUserData     = new disk::Handle{name, s.store.size() - 1, true, 0, s.opens_w == s.short_write ? static_cast<std::size_t>(s.short_write_to < 0 ? s.short_write_to - 1 : s.short_write_to) : ~std::size_t{0}};
    ++s.open_handles;
    return 1;
}
drwav_uint64 drwav_write_pcm_frames(drwav* w, drwav_uint64 frames, void const* data)
{
    sim::NotLib n;
    auto& s = state();
    auto* h = static_cast<disk::Handle*>(w->pUserData);
    if (h == nullptr) {
        return 0;  // not open: nothing is written
    }
    if (not h->write) {
        ++s.bad_calls;
        return 0;
    }
    ++s.writes;
    auto& f = s.store[h->id];
    if (f.format != 3 or f.bits != 32) {
        sim::violation("format", "samples written as format %u with %u bits", f.format, f.bits);
    }
    auto k = static_cast<std::size_t>(frames);
    if (auto const less = ~std::size_t{0} - h->limit; less > 0 and less < 16) {
        h->limit = h->cursor + (k > less ? k - less : 0);  // the disk fills up just before the end of this write
    }
    if (k > h->limit - h->cursor) {
        k = h->limit - h->cursor;
        ++s.faulted;
        sim::count("fault_disk_full");
    }
    auto const* p = static_cast<float const*>(data);
    h->cursor += k;
    f.data.insert(f.data.end(), p, p + k * f.channels);
    f.frames = f.channels == 0 ? 0 : f.data.size() / f.channels;
    return k;
}
drwav_result drwav_uninit(drwav* w)
{
    sim::NotLib n;
    auto& s = state();
    auto* h = static_cast<disk::Handle*>(w->pUserData);
    if (h == nullptr) {
        return DRWAV_SUCCESS;
    }
    if (h->write) {
        s.closed.push_back(s.store[h->id]);
    }
    delete h;
    w->pUserData = nullptr;
    --s.open_handles;
    return DRWAV_SUCCESS;
}

// ---------------------------------------------------------------- world
namespace {
using namespace sim;

std::string path(i64 i) { return (i == 8 ? "none/" : "disk/") + std::to_string(i) + ".wav"; }

struct Expected
{
    std::vector<double> data;  // interleaved, peak normalised
    double tol32{}, tol16{};
    bool beyond_half{};  // spectra may exceed it
    bool half_ok{};  // the half precision pass stays inside its range
};

// sparse taps: cheap exact convolution
Expected model(disk::File const& x, disk::File const& h)
{
    Expected e;
    auto const ch = x.channels;
    auto const n  = x.data.size() / ch;
    auto const m  = h.data.size() / ch;
    double factor = 0;
    for (unsigned c = 0; c < ch; ++c) {
        double en = 0;
        for (std::size_t i = 0; i < m; ++i) {
            en += static_cast<double>(h.data[i * ch + c]) * h.data[i * ch + c];
        }
        auto const f = en == 0 ? 1.0 : 1.0 / std::sqrt(en);
        factor       = c == 0 ? f : std::min(factor, f);
    }
    e.data.assign(n * ch, 0.0);
    double worst = 0, range = 0;
    for (unsigned c = 0; c < ch; ++c) {
        double hs = 0;
        for (std::size_t k = 0; k < m; ++k) {
            auto const t = factor * h.data[k * ch + c];
            if (t == 0) {
                continue;
            }
            hs += std::abs(t);
            for (std::size_t i = k; i < n; ++i) {
                e.data[i * ch + c] += t * x.data[(i - k) * ch + c];
            }
        }
        double nx = 0, sx = 0;
        for (std::size_t i = 0; i < n; ++i) {
            nx += static_cast<double>(x.data[i * ch + c]) * x.data[i * ch + c];
        }
        for (std::size_t b = 0; b < n; b += 32768) {
            double s = 0;
            for (std::size_t i = b; i < std::min(n, b + 32768); ++i) {
                s += std::abs(x.data[i * ch + c]);
            }
            sx = std::max(sx, s);
        }
        worst = std::max(worst, std::sqrt(nx));
        range = std::max(range, sx * std::max(1.0, hs));
    }
    double peak = 0;
    for (auto v : e.data) {
        peak = std::max(peak, std::abs(v));
    }
    if (peak > 0) {
        for (auto& v : e.data) {
            v /= peak;
        }
    }
    // a result below rounding (a tap beyond the end of the signal) is rounding noise scaled to full level: no value is wrong
    auto const rel = peak > 0 ? worst / peak : worst > 0 and factor > 0 ? 1e30 : 0.0;
    e.tol32        = 2e-6 * (1.0 + rel);
    e.tol16        = 6e-3 * (1.0 + rel);
    e.beyond_half  = range >= 30000.0;
    e.half_ok      = range < 30000.0 and peak > 1e-2;
    return e;
}

void compare(char const* which, disk::File const& f, Expected const& e, disk::File const& x, double tol)
{
    if (f.channels != x.channels or f.rate != x.rate) {
        violation("format", "%s: %u channels at %u Hz instead of %u at %u", which, f.channels, f.rate, x.channels, x.rate);
    }
    if (f.data.size() != e.data.size() or f.frames * f.channels != e.data.size()) {
        violation("length", "%s: %zu samples instead of %zu", which, f.data.size(), e.data.size());
    }
    for (std::size_t i = 0; i < e.data.size(); ++i) {
        if (not(std::abs(f.data[i] - e.data[i]) <= tol)) {
            violation(
                "mismatch", "%s: frame %zu channel %zu: %g instead of %g (tol %.3g, %zu frames)", which, i / x.channels,
                i % x.channels, static_cast<double>(f.data[i]), e.data[i], tol, f.frames
            );
        }
    }
}

struct CliWorld
{
    Plan const& plan;
    explicit CliWorld(Plan const& p) : plan{p} {}

    void file(Op const& op)
    {
        // c.file path channels rate frames seed taps amp% header_excess
        disk::File f;
        f.channels    = static_cast<unsigned>(std::clamp<i64>(op.at(1, 1), 1, 8));
        f.rate        = static_cast<unsigned>(op.at(2, 44100));
        auto const n  = static_cast<std::size_t>(std::clamp<i64>(op.at(3), 0, 300000));
        auto const sp = op.at(5);
        double amp    = static_cast<double>(op.at(6, 100)) / 100.0;
        Rng r(static_cast<u64>(op.at(4)) + 17);
        f.data.assign(n * f.channels, 0.0F);
        if (sp > 0) {
            auto const equal = op.at(9) != 0;
            for (unsigned c = 0; c < f.channels and n > 0; ++c) {
                for (i64 t = 0; t < sp; ++t) {
                    auto const at = r.chance(0.2) ? (r.chance(0.5) ? n - 1 : 0) : static_cast<std::size_t>(r.below(n));
                    f.data[at * f.channels + c] = static_cast<float>(equal ? amp : amp * r.sym());
                }
            }
        } else if (sp == 0) {
            for (auto& v : f.data) {
                v = static_cast<float>(amp * r.sym());
            }
        } else if (sp == -2) {
            std::fill(f.data.begin(), f.data.end(), static_cast<float>(amp));
        }  // otherwise: silence
        f.frames = n + static_cast<std::size_t>(std::max<i64>(0, op.at(7)));
        f.valid  = op.at(8) == 0;
        disk::put(path(op.at(0)), std::move(f));
        count("files");
    }

    void run(Op const& op)
    {
        // c.run signal filter output argc
        auto& s = state();
        s.start();
        for (auto const& f : plan.faults) {
            if (f.op != op.id) {
                continue;
            }
            if (f.kind == "open_r") {
                s.fail_open_r = static_cast<int>(f.a);
            } else if (f.kind == "open_w") {
                s.fail_open_w = static_cast<int>(f.a);
            } else if (f.kind == "read") {
                s.short_read    = static_cast<int>(f.a);
                s.short_read_to = f.b;
            } else if (f.kind == "write") {
                s.short_write    = static_cast<int>(f.a);
                s.short_write_to = f.b;
            } else if (f.kind == "clock") {
                clock_advance(static_cast<double>(f.a));
                count("fault_clock_jump");
            }
        }
        auto const before = disk::snapshot();
        std::string a[5]  = {"neo_convolver", path(op.at(0)), path(op.at(1)), path(op.at(2)), "extra"};
        char* argv[6]     = {};
        auto const argc   = static_cast<int>(std::clamp<i64>(op.at(3, 4), 1, 5));
        for (int i = 0; i < argc; ++i) {
            argv[i] = a[i].data();
        }
        int rc       = 0;
        bool threw   = false;
        std::string other;
        i64 injected = 0;
        if (auto const* f = plan.fault_for(op.id, "alloc")) {
            alloc_arm(f->a, 1);
        }
        try {
            Lib l;
            rc = cli_main(argc, argv);
        } catch (std::bad_alloc const&) {
            threw = true;  // the process ends with an error
            rc    = 134;
        } catch (std::exception const& ex) {
            threw = true;
            rc    = 134;
            other = ex.what();
        }
        auto after = disk::snapshot();
        if (plan.fault_for(op.id, "alloc") != nullptr) {
            injected = alloc_disarm();
            count("fault_alloc", static_cast<u64>(injected));
        }
        count("runs");
        mix(static_cast<u64>(rc));
        for (auto const& [name, f] : before) {
            mix(f.data.size());
            if (not f.data.empty()) {
                mixd(f.data[f.data.size() / 2]);
            }
        }
        mix(static_cast<u64>(s.faulted));
        note("run %s %s -> %s: exit %d", a[1].c_str(), a[2].c_str(), a[3].c_str(), rc);
        auto const& out = a[3];
        if (threw and injected == 0 and s.faulted == 0) {
            violation("exception", "ended by an exception although nothing failed: %s", other.empty() ? "bad_alloc" : other.c_str());
        }
        if (s.bad_calls != 0) {
            violation("misuse", "a file that is not open was used");
        }
        if (not threw and s.open_handles != 0) {
            violation("handles", "%d files left open", s.open_handles);
        }
        // only the output is ever written
        for (auto const& [name, f] : before) {
            if (name == out) {
                continue;
            }
            if (after.count(name) == 0) {
                violation("input-changed", "%s was removed", name.c_str());
            }
            if (not(after[name] == f)) {
                violation("input-changed", "%s was modified", name.c_str());
            }
        }
        for (auto const& [name, f] : after) {
            if (name != out and before.count(name) == 0) {
                violation("stray-file", "%s appeared", name.c_str());
            }
        }
        for (auto const& name : s.opened_for_write) {
            if (name != out) {
                violation("stray-write", "%s opened for writing", name.c_str());
            }
        }

        // what the run can do with its inputs
        auto const* x = usable(before, a[1], s);
        auto const* h = usable(before, a[2], s);
        bool const ok_args = argc == 4 and x != nullptr and h != nullptr and x->channels == h->channels and x->rate == h->rate
                         and not h->data.empty();
        if (not ok_args) {
            count("probe_unusable_input");
            if (rc == 0) {
                violation("false-success", "exit 0 although the inputs cannot be convolved");
            }
            if (not s.opened_for_write.empty()) {
                violation("clobbered", "the output file was opened although the inputs cannot be convolved");
            }
            auto const b = before.find(out);
            auto const n = after.find(out);
            if ((b == before.end()) != (n == after.end()) or (b != before.end() and n != after.end() and not(b->second == n->second))) {
                violation("clobbered", "the output path was changed although the inputs cannot be convolved");
            }
            return;
        }
        if (s.faulted != 0) {
            count("probe_output_failed");
            if (rc == 0) {
                violation("false-success", "exit 0 although the output could not be written");
            }
            return;
        }
        if (threw) {
            return;
        }
        if (rc != 0) {
            violation("false-failure", "exit %d although nothing failed", rc);
        }
        count("probe_success");
        if (s.closed.empty() or after.count(out) == 0) {
            violation("no-output", "exit 0 and no output file");
        }
        auto const e     = model(*x, *h);
        auto const& last = after[out];
        auto const& done = s.closed.back().data;
        if (last.data.size() != done.size() or (not done.empty() and std::memcmp(last.data.data(), done.data(), done.size() * sizeof(float)) != 0)) {
            violation("no-output", "the output file was changed after it was closed");
        }
        for (std::size_t i = 0; i < s.closed.size(); ++i) {
            auto const half = i >= 2;
            if (half and e.beyond_half) {
                for (auto v : s.closed[i].data) {
                    if (not std::isfinite(v)) {
                        violation("half-overflow", "half precision result is not finite: the spectrum exceeds the range of the delay line type");
                    }
                }
            }
            if (half and not e.half_ok) {
                continue;
            }
            compare(i == 0 ? "first result" : i == 1 ? "second result" : "half precision result", s.closed[i], e, *x, half ? e.tol16 : e.tol32);
        }
        for (std::size_t i = 0; i < last.data.size(); i += 101) {
            mixd(last.data[i]);
        }
    }

    // the file as the process could read it, or null
    static disk::File const* usable(std::map<std::string, disk::File> const& before, std::string const& name, disk::State const& s)
    {
        auto const it = before.find(name);
        if (it == before.end() or not it->second.valid or std::count(s.unreadable.begin(), s.unreadable.end(), name) != 0) {
            return nullptr;
        }
        auto const& f = it->second;
        if (f.frames * f.channels != f.data.size()) {
            return nullptr;
        }
        return &f;
    }
};

void run_cli(Plan const& p)
{
    state() = disk::State{};
    disk::enter();
    // bystanders
    disk::put_raw("disk/notes.txt", "do not touch");
    disk::put_raw("disk/2.wav.bak", "do not touch either");
    CliWorld w(p);
    for (auto const& op : p.ops) {
        if (op.kind == "c.file") {
            w.file(op);
        } else if (op.kind == "c.run") {
            w.run(op);
        }
    }
}

i64 any_frames(Rng& r, bool filter)
{
    auto const u = r.unit();
    if (u < 0.05) {
        return r.range(0, 2);
    }
    if (u < 0.45) {
        return r.range(1, 3000);
    }
    if (u < 0.65) {
        return 32768 + r.range(-2, 2);
    }
    if (u < 0.8) {
        return r.range(3000, 32768);
    }
    if (u < 0.95) {
        return r.range(32768, 70000);
    }
    return filter ? r.range(70000, 140000) : r.range(70000, 110000);
}

void gen_file(Rng& r, Plan& p, i64 name, i64 ch, i64 rate, bool filter, bool broken)
{
    auto const frames = ch > 3 ? std::min<i64>(any_frames(r, filter), 40000) : any_frames(r, filter);
    i64 const taps    = filter ? r.pick<i64>({1, 1, 2, 4, 9}) : r.chance(0.85) ? 0 : r.chance(0.7) ? r.range(1, 5) : r.chance(0.7) ? -1 : -2;
    p.add(
        0, "c.file",
        {name, ch, rate, frames, r.seed31(), filter and r.chance(0.03) ? -1 : taps, r.pick<i64>({100, 100, 50, 10, 5, 800}),
         broken and r.chance(0.5) ? r.range(1, 5000) : 0, broken and r.chance(0.5) ? 1 : 0, r.chance(0.2) ? 1 : 0}
    );
}

Plan gen_cli(Rng& r, bool faults)
{
    Plan p;
    auto const ch   = r.pick<i64>({1, 1, 1, 1, 2, 2, 2, 3, 3, r.range(4, 8)});
    auto const rate = r.pick<i64>({44100, 48000, 96000, 8000, 11025});
    gen_file(r, p, 0, ch, rate, false, faults and r.chance(0.1));
    gen_file(r, p, 1, faults and r.chance(0.08) ? ch + 1 : ch, faults and r.chance(0.08) ? rate + r.range(1, 4000) : rate, true, faults and r.chance(0.1));
    if (r.chance(0.4)) {
        gen_file(r, p, 2, ch, rate, false, false);
    }
    auto const n = r.chance(0.75) ? 1 : 2;
    for (i64 i = 0; i < n; ++i) {
        auto& op = p.add(
            0, "c.run",
            {i == 0 or r.chance(0.3) ? 0 : 2, faults and r.chance(0.04) ? 7 : 1, faults and r.chance(0.04) ? 8 : r.chance(0.8) ? 2 : r.chance(0.5) ? 0 : 1,
             faults and r.chance(0.03) ? r.range(1, 5) : 4}
        );
        if (faults) {
            auto const k = r.below(9);
            if (k == 0) {
                p.faults.push_back({op.id, "open_r", r.range(1, 2), 0});
            } else if (k == 1) {
                p.faults.push_back({op.id, "read", r.range(1, 2), r.chance(0.3) ? 0 : r.range(0, 40000)});
            } else if (k == 2 or k == 3) {
                p.faults.push_back({op.id, "open_w", r.range(1, 3), 0});
            } else if (k == 4 or k == 5) {
                p.faults.push_back({op.id, "write", r.range(1, 3), r.chance(0.3) ? 0 : r.chance(0.4) ? -r.range(1, 3) : r.range(0, 70000)});
            } else if (k == 6) {
                p.faults.push_back({op.id, "alloc", r.range(1, 60), 1});
            } else if (k == 7) {
                p.faults.push_back({op.id, "clock", r.pick<i64>({-3600, 3600, -1, 86400}), 0});
            } else if (r.chance(0.5)) {
                p.faults.push_back({op.id, "open_r", 1, 0});
                p.ops[0].a[8] = 0;
                p.ops[1].a[8] = 1;  // neither input can be read
            }
        }
    }
    return p;
}

Plan gen_c15(Rng& r, int) { return gen_cli(r, false); }
Plan gen_c16(Rng& r, int) { return gen_cli(r, true); }

Register const r15{"C15", gen_c15, run_cli};
Register const r16{"C16", gen_c16, run_cli};
}  // namespace
