// C22: the plugin's editor: a message thread and the benchmark thread under a simulated user.
#include "ref.hpp"

#include "plugin/src/PluginProcessor.hpp"

#include "plugin/src/PerceptualConvolution.hpp"
#include "plugin/src/PluginEditor.hpp"
#include "plugin/src/PluginParameter.hpp"
#include "plugin/src/dsp/AudioBuffer.hpp"
#include "plugin/src/dsp/AudioFile.hpp"
#include "plugin/src/dsp/Convolution.hpp"
#include "plugin/src/dsp/DenseConvolution.hpp"
#include "plugin/src/dsp/Spectrum.hpp"
#include "plugin/src/ui/BenchmarkTab.hpp"
#include "plugin/src/ui/ParameterTab.hpp"

#include <cmath>
#include <set>

namespace jsim {
using namespace sim;
static std::map<std::string, Wav> disk;
static std::set<std::string> directories;
static int disk_mode      = 0;  // 1 no space, 2 directories are refused
static bool disk_trouble  = false;
static bool inline_worker = false;
struct Write
{
    std::string path;
    std::vector<std::vector<float>> channels;
    double rate;
};
static std::vector<Write> writes;

static_assert(sizeof(Whole) == sizeof(NotLib));
Whole::Whole() { new (this) NotLib; }
Whole::~Whole() { reinterpret_cast<NotLib*>(this)->~NotLib(); }
void assertion(char const*) { count("probe_jassert"); }
bool on_message_thread() { return not inline_worker and current_task() <= 0; }
void off_thread(char const* what) { violation("thread", "a %s is used off the message thread", what); }
bool idle() { return sim::idle(); }
bool exists(std::string const& p)
{
    NotLib n;
    return disk.count(p) != 0;
}
Wav& file(std::string const& p)
{
    NotLib n;
    return disk[p];
}
bool has_directory(std::string const& p)
{
    NotLib n;
    return directories.count(p) != 0;
}
bool make_directory(std::string const& p)
{
    NotLib n;
    if (disk_mode == 2) {
        count("fault_no_directory");
        return false;
    }
    directories.insert(p);
    return true;
}
bool remove(std::string const& p)
{
    if (disk.count(p) != 0) {
        violation("overwrite", "%s is removed", p.c_str());
    }
    return true;
}
bool create(std::string const& p)
{
    NotLib n;
    if (disk_mode == 1) {
        count("fault_disk_full");
        return false;
    }
    if (disk.count(p) != 0) {
        violation("overwrite", "%s exists and is written again", p.c_str());
    }
    disk[p];
    return true;
}
bool write(std::string const& p, std::vector<std::vector<float>> const& v, double rate)
{
    NotLib n;
    disk[p].channels = v;
    disk[p].rate     = rate;
    writes.push_back({p, v, rate});
    return true;
}
// y[from..x.size())
std::vector<double> convolve(std::vector<double> const& x, std::vector<double> const& h, std::size_t from)
{
    NotLib n;
    std::size_t size = 1;
    while (size < x.size() + h.size()) {
        size *= 2;
    }
    auto a       = ref::rfft(x, size);
    auto const b = ref::rfft(h, size);
    for (std::size_t i = 0; i < a.size(); ++i) {
        a[i] *= b[i];
    }
    auto const y = ref::irfft(a, size);
    return {y.begin() + static_cast<std::ptrdiff_t>(from), y.begin() + static_cast<std::ptrdiff_t>(x.size())};
}
}  // namespace jsim

namespace {
using namespace sim;
using jsim::Wav;
using Audio = std::vector<ref::vec>;

char const* const engines[] = {
    "juce::dsp::Convolution", "neo::Convolution",      "DenseConvolution",      "upols_convolver",        "upola_convolver",
    "upola_convolver_v2",     "split_upola_convolver", "split_upols_convolver", "sparse_upola_convolver", "convolver_tests",
};
enum Engine
{
    e_juce,
    e_neo,
    e_dense,
    e_sparse = 8,
    e_tests  = 9
};

struct Settings
{
    double range{90};
    int bins{10};
    bool weighted{true};
    unsigned engines{0};
};
struct Render
{
    int engine{};
    Audio x, h;
    double rate{};
    std::size_t block{};
    Settings set;
    bool required{true};
    bool ready{false};
    Audio want;
    double tol{0};
    bool vague{false};  // the output is too small against the rounding errors
};
struct Selection
{
    std::optional<int> file;
    bool unsure{false};  // something unreadable was chosen afterwards
};
struct World
{
    std::unique_ptr<neo::PluginProcessor> processor;
    std::unique_ptr<juce::AudioProcessorEditor> editor;
    double rate{44100};
    std::size_t block{512}, channels{2};
    Selection sig, imp;
    Settings set;
    std::vector<Render> renders;
    std::size_t session{0};  // first render of the open editor
    juce::FileChooser* pending[2]{};
    std::map<int, bool> good;
};
World* W = nullptr;

std::string path_of(i64 i) { return "/home/files/f" + std::to_string(i) + ".wav"; }

template<typename T, typename F>
T* find(juce::Component* c, F f)
{
    if (c == nullptr) {
        return nullptr;
    }
    if (auto* t = dynamic_cast<T*>(c); t != nullptr and f(*t)) {
        return t;
    }
    for (auto* k : c->children) {
        if (auto* t = find<T>(k, f)) {
            return t;
        }
    }
    return nullptr;
}
template<typename T>
T* property(char const* name)
{
    return find<T>(W->editor.get(), [&](T& p) { return p.name == name; });
}
juce::TextEditor* text_box()
{
    return find<juce::TextEditor>(W->editor.get(), [](auto&) { return true; });
}
void click(char const* name)
{
    auto* b = find<juce::TextButton>(W->editor.get(), [&](juce::TextButton& t) { return t.text == name; });
    if (b == nullptr) {
        violation("ui", "there is no button %s", name);
    }
    if (b->isEnabled() and b->onClick) {
        Lib l;
        b->onClick();
    }
}
void pump(std::size_t most)
{
    auto& q = juce::MessageManager::queue();
    while (most-- > 0 and not q.empty()) {
        auto f = std::move(q.front());
        q.pop_front();
        Lib l;
        f();
    }
}

juce::AudioBuffer<float> resampled(Wav const& w, double rate)
{
    juce::AudioBuffer<float> b(static_cast<int>(w.channels.size()), static_cast<int>(w.channels[0].size()));
    for (std::size_t c = 0; c < w.channels.size(); ++c) {
        for (std::size_t i = 0; i < w.channels[c].size(); ++i) {
            b.setSample(static_cast<int>(c), static_cast<int>(i), w.channels[c][i]);
        }
    }
    if (w.rate == rate) {
        return b;
    }
    auto const ratio = w.rate / rate;
    auto const n     = juce::roundToInt(std::max(1.0, b.getNumSamples() / ratio));
    juce::MemoryAudioSource src(b, false);
    juce::ResamplingAudioSource rs(&src, false, b.getNumChannels());
    rs.setResamplingRatio(ratio);
    juce::AudioBuffer<float> out(b.getNumChannels(), n);
    rs.getNextAudioBlock({&out, 0, n});
    return out;
}
Audio audio(juce::AudioBuffer<float> const& b)
{
    Audio r;
    for (int c = 0; c < b.getNumChannels(); ++c) {
        r.emplace_back(b.getReadPointer(c), b.getReadPointer(c) + b.getNumSamples());
    }
    return r;
}
juce::AudioBuffer<float> buffer(Audio const& a)
{
    juce::AudioBuffer<float> b(static_cast<int>(a.size()), static_cast<int>(a[0].size()));
    for (std::size_t c = 0; c < a.size(); ++c) {
        for (std::size_t i = 0; i < a[c].size(); ++i) {
            b.setSample(static_cast<int>(c), static_cast<int>(i), static_cast<float>(a[c][i]));
        }
    }
    return b;
}

void expect(Render& r)
{
    if (r.ready) {
        return;
    }
    r.ready      = true;
    double noise = 0;
    if (r.engine == e_sparse) {
        // the sparse renderer itself is the subject of C20; here it says what these inputs and settings give
        auto const out = neo::sparse_convolve(buffer(r.x), buffer(r.h), 4096, r.rate, -static_cast<float>(r.set.range), r.set.bins);
        r.want         = audio(out);
        noise          = 0;
    } else {
        std::size_t frame = 1;
        while (frame < r.block) {
            frame *= 2;
        }
        double factor = 1e300;
        for (auto const& h : r.h) {
            auto const e = ref::norm2(h);
            factor       = std::min(factor, e > 0 ? 1.0 / e : 1.0);
        }
        bool const normalised = r.engine != e_juce and r.engine != e_neo;
        for (std::size_t c = 0; c < r.x.size(); ++c) {
            auto const& x = r.x[c];
            auto h        = r.h[std::min(c, r.h.size() - 1)];
            if (normalised) {
                for (auto& v : h) {
                    v *= factor;
                }
            }
            auto y = jsim::convolve(x, h, 0);
            noise  = std::max(noise, 6e-6 * ref::norm2(x) * ref::norm2(h) + 1e-9 * ref::maxabs(x));
            if (r.engine == e_neo) {
                for (std::size_t i = x.size() / 4096 * 4096; i < x.size(); ++i) {
                    y[i] = x[i];  // an incomplete block passes unchanged
                }
            }
            if (r.engine == e_dense) {
                for (std::size_t i = x.size(); i-- > 0;) {
                    y[i] = i >= frame - 1 ? y[i - (frame - 1)] : 0.0;
                }
            }
            r.want.push_back(std::move(y));
        }
    }
    double peak = 0;
    for (auto const& y : r.want) {
        peak = std::max(peak, ref::maxabs(y));
    }
    r.vague = peak <= 20 * noise or peak < 1e-36;  // (too quiet to be normalised)
    r.tol   = peak > 0 ? noise / peak * 2 + 1e-5 : 1e-30;
    for (auto& y : r.want) {
        for (auto& v : y) {
            v *= peak > 0 ? 1.0 / peak : 1.0;
        }
    }
}
bool fits(jsim::Write const& w, Render& r, std::string& why)
{
    expect(r);
    char t[200];
    if (w.rate != r.rate) {
        std::snprintf(t, sizeof t, "rate %g, not %g", w.rate, r.rate);
        why = t;
        return false;
    }
    if (w.channels.size() != r.want.size() or w.channels[0].size() != r.want[0].size()) {
        std::snprintf(t, sizeof t, "%zu channels of %zu samples, not %zu of %zu", w.channels.size(), w.channels.empty() ? 0 : w.channels[0].size(), r.want.size(), r.want[0].size());
        why = t;
        return false;
    }
    for (std::size_t c = 0; c < r.want.size(); ++c) {
        for (std::size_t i = 0; i < r.want[c].size(); ++i) {
            if (r.vague) {
                if (not(std::abs(static_cast<double>(w.channels[c][i])) <= 1.0001)) {
                    std::snprintf(t, sizeof t, "channel %zu sample %zu is %.6g, above the peak of 1", c, i, static_cast<double>(w.channels[c][i]));
                    why = t;
                    return false;
                }
                continue;
            }
            auto const d = std::abs(static_cast<double>(w.channels[c][i]) - r.want[c][i]);
            if (not(d <= r.tol)) {
                std::snprintf(t, sizeof t, "channel %zu sample %zu is %.6g, not %.6g (tol %.2g)", c, i, static_cast<double>(w.channels[c][i]), r.want[c][i], r.tol);
                why = t;
                return false;
            }
        }
    }
    return true;
}

// one result per render and one render per result
void check_results()
{
    auto& ws = jsim::writes;
    std::vector<std::vector<int>> ok(ws.size());
    std::string why;
    for (std::size_t w = 0; w < ws.size(); ++w) {
        for (std::size_t r = 0; r < W->renders.size(); ++r) {
            std::string s;
            if (fits(ws[w], W->renders[r], s)) {
                ok[w].push_back(static_cast<int>(r));
            } else if (w == r) {
                why = s;
            }
        }
        if (ok[w].empty()) {
            for (auto& r : W->renders) {
                std::string s;
                fits(ws[w], r, s);
                note("  against %s: %s", engines[r.engine], s.c_str());
            }
            violation("result", "%s is no result of a render that was started (%s)", ws[w].path.c_str(), W->renders.empty() ? "none was" : why.c_str());
        }
    }
    // required renders first, each augmented through the writes
    std::vector<int> of_write(ws.size(), -1), of_render(W->renders.size(), -1);
    std::vector<std::vector<int>> back(W->renders.size());
    for (std::size_t w = 0; w < ws.size(); ++w) {
        for (int r : ok[w]) {
            back[static_cast<std::size_t>(r)].push_back(static_cast<int>(w));
        }
    }
    std::vector<char> seen;
    std::function<bool(int)> from_render = [&](int r) {
        for (int w : back[static_cast<std::size_t>(r)]) {
            if (seen[static_cast<std::size_t>(w)]) {
                continue;
            }
            seen[static_cast<std::size_t>(w)] = 1;
            if (of_write[static_cast<std::size_t>(w)] < 0 or from_render(of_write[static_cast<std::size_t>(w)])) {
                of_write[static_cast<std::size_t>(w)]  = r;
                of_render[static_cast<std::size_t>(r)] = w;
                return true;
            }
        }
        return false;
    };
    for (std::size_t r = 0; r < W->renders.size(); ++r) {
        if (W->renders[r].required and not jsim::disk_trouble) {
            seen.assign(ws.size(), 0);
            if (not from_render(static_cast<int>(r))) {
                violation("lost", "render %zu (%s, %zu samples at %g Hz) left no result of its own; %zu results of %zu renders", r, engines[W->renders[r].engine], W->renders[r].x[0].size(), W->renders[r].rate, ws.size(), W->renders.size());
            }
        }
    }
    for (std::size_t w = 0; w < ws.size(); ++w) {
        if (of_write[w] < 0) {
            std::vector<char> tried(W->renders.size(), 0);
            std::function<bool(int)> from_write = [&](int i) {
                for (int r : ok[static_cast<std::size_t>(i)]) {
                    if (tried[static_cast<std::size_t>(r)]) {
                        continue;
                    }
                    tried[static_cast<std::size_t>(r)] = 1;
                    if (of_render[static_cast<std::size_t>(r)] < 0 or from_write(of_render[static_cast<std::size_t>(r)])) {
                        of_render[static_cast<std::size_t>(r)] = i;
                        of_write[static_cast<std::size_t>(i)]  = r;
                        return true;
                    }
                }
                return false;
            };
            if (not from_write(static_cast<int>(w))) {
                violation("twice", "%s: more results than renders", ws[w].path.c_str());
            }
        }
    }
    count("results_checked", ws.size());
    for (auto const& w : ws) {
        mix(w.channels.size() * 1000003 + w.channels[0].size());
        mixd(static_cast<double>(w.channels[0][w.channels[0].size() / 2]));
    }
}

// "<name>: <milliseconds>"
std::size_t reports(std::string const& s)
{
    std::size_t n = 0, at = 0;
    while (at < s.size()) {
        auto const e    = std::min(s.find('\n', at), s.size());
        auto const line = s.substr(at, e - at);
        at              = e + 1;
        auto const p    = line.rfind(": ");
        if (p != std::string::npos and p + 2 < line.size() and line.find_first_not_of("-0123456789", p + 2) == std::string::npos) {
            ++n;
        }
    }
    return n;
}
void check_reports(bool closing)
{
    auto* t = text_box();
    if (t == nullptr) {
        violation("ui", "there is no text box");
    }
    auto const n      = reports(t->added);
    std::size_t least = 0, most = 0;
    for (std::size_t i = W->session; i < W->renders.size(); ++i) {
        least += W->renders[i].required ? 1 : 0;
        ++most;
    }
    if (n > most or (not closing and n < least)) {
        violation("report", "%zu reports of %zu renders", n, most);
    }
}

double weight_of(double f)
{
    auto const f2 = f * f;
    auto const ra = 12194.0 * 12194.0 * f2 * f2 / ((f2 + 20.6 * 20.6) * std::sqrt((f2 + 107.7 * 107.7) * (f2 + 737.9 * 737.9)) * (f2 + 12194.0 * 12194.0));
    return f == 0 ? 0.0 : 20 * std::log10(ra) + 2.0;
}

// the pictures and the share of bins shown belong to the impulse and the settings that are selected
void look()
{
    auto const& w = *W;
    if (not w.imp.file or w.imp.unsure) {
        return;
    }
    auto const h     = resampled(jsim::disk[path_of(*w.imp.file)], w.rate);
    auto const ha    = audio(h);
    double const thr = -static_cast<double>(static_cast<float>(w.set.range));
    auto const wt    = [&](std::size_t b) { return w.set.weighted ? weight_of(static_cast<double>(b) * w.rate / 1024.0) : 0.0; };
    auto const lvl   = [](double p) { return p > 0 ? 10 * std::log10(p) : -1e9; };
    double const tie = 0.03;

    auto m          = neo::to_mdarray(h);
    auto const spec = neo::fft::stft(m.to_mdspan(), 1024);
    double maxp     = 0;
    for (std::size_t f = 0; f < spec.extent(1); ++f) {
        for (std::size_t b = 0; b < spec.extent(2); ++b) {
            maxp = std::max(maxp, static_cast<double>(std::norm(spec(0, f, b))));
        }
    }
    auto* pic  = find<juce::ImageComponent>(w.editor.get(), [&](juce::ImageComponent& i) { return i.image.height == 513; });
    auto* hist = find<juce::ImageComponent>(w.editor.get(), [&](juce::ImageComponent& i) { return i.image.height == 250; });
    if (pic == nullptr or hist == nullptr) {
        violation("image", "an impulse of %d samples is selected and no picture of it is shown", h.getNumSamples());
    }
    if (pic->image.width != static_cast<int>(spec.extent(1))) {
        violation("image", "the spectrogram has %d columns for %zu frames", pic->image.width, static_cast<std::size_t>(spec.extent(1)));
    }
    count("looks");
    if (maxp < 1e-30) {
        return;
    }
    std::vector<double> lo(144, 0), hi(144, 0);
    for (std::size_t f = 0; f < spec.extent(1); ++f) {
        for (std::size_t b = 0; b < spec.extent(2); ++b) {
            auto const db = lvl(static_cast<double>(std::norm(spec(0, f, b))) / maxp) + wt(b);
            auto const px = pic->image.getPixelAt(static_cast<int>(f), 512 - static_cast<int>(b));
            if (std::abs(db - thr) > tie and (px == juce::Colours::black) != (db > thr)) {
                violation("image", "frame %zu bin %zu has %.2f dB, the threshold is %.2f dB and the pixel is %s", f, b, db, thr, px == juce::Colours::black ? "set" : "not set");
            }
            auto const a = std::clamp(-db - tie, 0.0, 143.0), z = std::clamp(-db + tie, 0.0, 143.0);
            auto const i = static_cast<std::size_t>(std::nearbyint(a)), j = static_cast<std::size_t>(std::nearbyint(z));
            hi[i] += 1;
            if (i == j) {
                lo[i] += 1;
            } else {
                hi[j] += 1;
            }
        }
    }
    double const top_lo = *std::max_element(lo.begin(), lo.end() - 1), top_hi = *std::max_element(hi.begin(), hi.end() - 1);
    for (std::size_t i = 0; i < 143 and top_lo > 0; ++i) {
        if (i == 32 or i == 64 or i == 96) {
            continue;
        }
        int height = 0;
        for (int y = 0; y < 250; ++y) {
            height += hist->image.getPixelAt(static_cast<int>(i) * 8 + 3, y) == juce::Colours::white ? 1 : 0;
        }
        if (height < std::floor(lo[i] / top_hi * 250 - 0.51) or height > std::ceil(hi[i] / top_lo * 250 + 0.51)) {
            violation("image", "the histogram bar at %zu dB is %d high, %.0f to %.0f of %.0f bins are there", i, height, lo[i], hi[i], top_hi);
        }
    }
    // share of the bins after the first 512 samples that stay
    if (ha[0].size() <= 512) {
        return;
    }
    std::vector<std::vector<double>> pw;
    std::vector<std::size_t> bin;
    std::vector<double> p;
    double top = 0;
    for (auto const& c : ha) {
        for (std::size_t at = 512; at < c.size(); at += 512) {
            ref::vec seg(c.begin() + static_cast<std::ptrdiff_t>(at), c.begin() + static_cast<std::ptrdiff_t>(std::min(c.size(), at + 512)));
            auto const s = ref::rfft(seg, 1024);
            for (std::size_t b = 0; b < s.size(); ++b) {
                p.push_back(std::norm(s[b]));
                bin.push_back(b);
                top = std::max(top, p.back());
            }
        }
    }
    if (top < 1e-30) {
        return;
    }
    double sure = 0, maybe = 0;
    for (std::size_t i = 0; i < p.size(); ++i) {
        auto const g = std::sqrt(p[i] / top), eps = 2e-6;
        sure += lvl(std::max(0.0, g - eps) * std::max(0.0, g - eps)) + wt(bin[i]) > thr + tie ? 1 : 0;
        maybe += lvl((g + eps) * (g + eps)) + wt(bin[i]) > thr - tie ? 1 : 0;
    }
    auto const all = static_cast<double>(p.size());
    // the last such line of the text
    auto const& t = text_box()->text;
    auto const at = t.rfind("% ");
    if (at == std::string::npos) {
        violation("share", "the share of bins is not shown");
    }
    auto from = t.rfind('\n', at);
    from      = from == std::string::npos ? 0 : from + 1;
    double const shown = std::atof(t.substr(from, at - from).c_str()), shown_thr = std::atof(t.substr(at + 2).c_str());
    if (shown < sure / all * 100 - 0.006 or shown > maybe / all * 100 + 0.006) {
        violation("share", "%.2f%% of the bins are said to stay, %.2f%% to %.2f%% do", shown, sure / all * 100, maybe / all * 100);
    }
    if (std::abs(shown_thr - thr) > 0.051) {
        violation("share", "the share is shown for %.1f dB instead of %.1f dB", shown_thr, thr);
    }
}

void close_editor()
{
    if (W->editor == nullptr) {
        return;
    }
    check_reports(true);
    for (std::size_t i = W->session; i < W->renders.size(); ++i) {
        W->renders[i].required = false;  // what has not begun is dropped
    }
    {
        Lib l;
        W->editor.reset();
    }
    W->session = W->renders.size();
    W->sig = W->imp = {};
    W->set          = {};
    count("editors_closed");
}

bool run_job()
{
    for (auto* p : juce::ThreadPool::all()) {
        if (not p->jobs.empty() and p->running < p->options.threads) {
            auto f = std::move(p->jobs.front());
            p->jobs.pop_front();
            ++p->running;
            count("jobs");
            clock_advance(0.05);
            {
                Lib l;
                f();
                f = nullptr;
            }
            --p->running;
            return true;
        }
    }
    return false;
}

void exec(int, Op const& op)
{
    auto& w = *W;
    if (op.kind == "g.work") {
        while (run_job() or (not task_done(0) and sim::idle())) {
        }
        return;
    }
    clock_advance(0.01);
    if (op.kind == "g.file") {
        Wav f;
        Rng r(static_cast<u64>(op.at(3)) + 5);
        auto const ch = static_cast<std::size_t>(std::clamp<i64>(op.at(1), 1, 3));
        auto const n  = static_cast<std::size_t>(std::clamp<i64>(op.at(2), 0, 20000));
        for (std::size_t c = 0; c < ch; ++c) {
            auto v = op.at(7) != 0 ? ref::make_ir(r, n, static_cast<int>(op.at(4))) : ref::make(r, n, static_cast<int>(op.at(4)), 1.0);
            f.channels.emplace_back(v.begin(), v.end());
        }
        f.rate        = static_cast<double>(std::clamp<i64>(op.at(5), 4000, 200000));
        f.can_open    = op.at(6) != 1;
        f.good_header = op.at(6) != 2;
        f.can_read    = op.at(6) != 3;
        static char const* const names[] = {"files", "fault_open", "fault_bad_header", "fault_read"};
        count(n == 0 ? "fault_empty_file" : names[std::clamp<i64>(op.at(6), 0, 3)]);
        w.good[static_cast<int>(op.at(0))] = n > 0 and f.can_open and f.good_header and f.can_read;
        jsim::disk[path_of(op.at(0))]      = f;
        return;
    }
    if (op.kind == "g.disk") {
        jsim::disk_mode = static_cast<int>(op.at(0));
        jsim::disk_trouble |= jsim::disk_mode != 0;
        return;
    }
    if (op.kind == "g.prepare") {
        auto const rate = static_cast<double>(std::clamp<i64>(op.at(0), 4000, 200000));
        auto const blk  = static_cast<int>(std::clamp<i64>(op.at(1), 2, 8192));
        auto const ch   = static_cast<int>(std::clamp<i64>(op.at(2), 1, 2));
        {
            Lib l;
            w.processor->setBusesLayout({juce::AudioChannelSet::discreteChannels(ch), juce::AudioChannelSet::discreteChannels(ch)});
            w.processor->prepareToPlay(rate, blk);
        }
        w.rate     = rate;
        w.block    = static_cast<std::size_t>(blk);
        w.channels = static_cast<std::size_t>(ch);
        count("prepares");
        if (w.editor != nullptr) {
            char want[3][64];
            std::snprintf(want[0], 64, "%d", static_cast<int>(rate));
            std::snprintf(want[1], 64, "%d", blk);
            std::snprintf(want[2], 64, "%d", ch);
            for (auto const* s : want) {
                if (find<juce::Label>(w.editor.get(), [&](juce::Label& t) { return t.text.find(s) != std::string::npos; }) == nullptr) {
                    violation("label", "%s is not shown after prepare", s);
                }
            }
        }
        return;
    }
    if (op.kind == "g.open") {
        if (w.editor == nullptr) {
            Lib l;
            w.editor.reset(w.processor->createEditor());
            count("editors_opened");
        }
        return;
    }
    if (op.kind == "g.close") {
        close_editor();
        return;
    }
    if (op.kind == "g.pump") {
        pump(op.at(0) <= 0 ? 1000000 : static_cast<std::size_t>(op.at(0)));
        return;
    }
    if (op.kind == "g.wait") {
        for (i64 i = 0; i < std::min<i64>(op.at(0), 1000) and sim::idle(); ++i) {
        }
        return;
    }
    if (w.editor == nullptr) {
        return;
    }
    if (op.kind == "g.click") {
        auto const which = op.at(0) & 1;
        auto const had   = juce::FileChooser::open().size();
        click(which == 0 ? "Open Impulse" : "Select Signal File");
        auto& o = juce::FileChooser::open();
        if (not o.empty()) {
            w.pending[which] = o.back();
        }
        (void)had;
    } else if (op.kind == "g.choose") {
        auto const which = op.at(0) & 1;
        auto* c          = w.pending[which];
        auto& o          = juce::FileChooser::open();
        w.pending[which] = nullptr;
        if (c == nullptr or std::find(o.begin(), o.end(), c) == o.end()) {
            return;
        }
        juce::Array<juce::File> r;
        if (op.at(1) >= 0) {
            r.add(juce::File{path_of(op.at(1))});
        }
        {
            Lib l;
            c->finish(r);
        }
        if (op.at(1) >= 0 and jsim::exists(path_of(op.at(1)))) {
            auto& s = which == 0 ? w.imp : w.sig;
            if (w.good[static_cast<int>(op.at(1))]) {
                s.file   = static_cast<int>(op.at(1));
                s.unsure = false;
            } else {
                s.unsure = true;
                count("probe_unreadable_choice");
            }
        }
        count("choices");
    } else if (op.kind == "g.set") {
        switch (op.at(0)) {
            case 0:
                if (auto* p = property<juce::SliderPropertyComponent>("Dynamic Range")) {
                    w.set.range = static_cast<double>(std::clamp<i64>(op.at(1), 100, 900)) / 10.0;
                    Lib l;
                    p->value.setValue(juce::var{w.set.range});
                }
                break;
            case 1:
                if (auto* p = property<juce::SliderPropertyComponent>("Keep Low Bins")) {
                    w.set.bins = static_cast<int>(std::clamp<i64>(op.at(1), 0, 25));
                    Lib l;
                    p->value.setValue(juce::var{static_cast<double>(w.set.bins)});
                }
                break;
            default:
                if (auto* p = property<juce::ChoicePropertyComponent>("Weighting")) {
                    w.set.weighted = op.at(1) % 2 != 0;
                    for (auto const& v : p->values) {
                        if ((v.toString() == "A-Weighting") == w.set.weighted) {
                            Lib l;
                            p->value.setValue(v);
                        }
                    }
                }
                break;
        }
    } else if (op.kind == "g.engines") {
        auto* p = property<juce::MultiChoicePropertyComponent>("Engine");
        if (p == nullptr) {
            violation("ui", "there is no choice of engines");
        }
        juce::Array<juce::var> a;
        w.set.engines = 0;
        for (unsigned i = 0; i < std::size(engines); ++i) {
            if ((op.at(0) >> i & 1) != 0) {
                w.set.engines |= 1U << i;
                a.add(juce::var{engines[i]});
            }
        }
        Lib l;
        p->value.setValue(juce::var{a});
    } else if (op.kind == "g.render") {
        if (w.sig.file and w.imp.file) {
            auto const x = audio(resampled(jsim::disk[path_of(*w.sig.file)], w.rate));
            auto const h = audio(resampled(jsim::disk[path_of(*w.imp.file)], w.rate));
            for (unsigned i = 0; i < std::size(engines); ++i) {
                if ((w.set.engines >> i & 1) != 0 and i != e_tests) {
                    Render r;
                    r.engine   = static_cast<int>(i);
                    r.x        = x;
                    r.h        = h;
                    r.rate     = w.rate;
                    r.block    = w.block;
                    r.set      = w.set;
                    r.required = not w.sig.unsure and not w.imp.unsure;
                    w.renders.push_back(std::move(r));
                    count("renders");
                }
            }
        } else {
            count("probe_render_without_input");
        }
        click("Render");
    } else if (op.kind == "g.look") {
        pump(1000000);
        look();
    }
}

void run(Plan const& p)
{
    World w;
    W = &w;
    jsim::disk.clear();
    w.processor = std::make_unique<neo::PluginProcessor>();
    run_tasks(p, exec);
    // faults stop; everything that was started comes to its end
    jsim::disk_mode     = 0;
    jsim::inline_worker = true;
    while (run_job()) {
    }
    jsim::inline_worker = false;
    pump(1000000);
    if (w.editor != nullptr) {
        check_reports(false);
        look();
    }
    check_results();
    close_editor();
    pump(1000000);
    {
        Lib l;
        w.processor->prepareToPlay(48000, 64);
        w.processor.reset();
    }
}

Plan gen(Rng& r, int tier)
{
    Plan p;
    int const nsig = static_cast<int>(r.range(1, 2)), nimp = static_cast<int>(r.range(1, 3));
    double const rates[] = {44100, 48000, 22050, 96000};
    auto rate            = [&] { return r.chance(0.7) ? static_cast<i64>(rates[r.below(2)]) : static_cast<i64>(rates[r.below(4)]); };
    auto length          = [&](bool ir) -> i64 {
        if (r.chance(0.25)) {
            return r.range(1, 600);
        }
        if (r.chance(0.1)) {
            return r.pick<i64>({0, 1, 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097});
        }
        return r.range(1, r.chance(tier > 0 ? 0.4 : 0.1) ? 10000 : r.chance(0.5) ? 1300 : ir ? 2500 : 5000);
    };
    for (int i = 0; i < nsig + nimp; ++i) {
        bool const ir = i >= nsig;
        p.add(0, "g.file", {i, r.range(1, r.chance(0.1) ? 3 : 2), length(ir), r.seed31(), ir ? (r.chance(0.1) ? 6 : static_cast<i64>(r.below(6))) : static_cast<i64>(r.chance(0.8) ? 0 : r.below(10)), rate(), r.chance(0.12) ? r.range(1, 3) : 0, ir ? 1 : 0});
    }
    if (r.chance(0.6)) {
        p.add(0, "g.prepare", {rate(), r.pick<i64>({64, 128, 256, 441, 512, 1000, 1024}), r.range(1, 2)});
    }
    auto choose = [&](int which) {
        p.add(0, "g.click", {which});
        if (r.chance(0.9)) {
            p.add(0, "g.choose", {which, r.chance(0.05) ? -1 : r.chance(0.02) ? 77 : which == 0 ? r.range(nsig, nsig + nimp - 1) : r.range(0, nsig - 1)});
        }
    };
    auto pick_engines = [&] {
        i64 m = i64(1) << r.below(9);
        if (r.chance(0.3)) {
            m |= i64(1) << r.below(10);
        }
        p.add(0, "g.engines", {m});
    };
    auto set_one = [&](i64 which) {
        p.add(0, "g.set", {which, which == 0 ? (r.chance(0.4) ? r.range(100, 300) : r.range(100, 900)) : which == 1 ? (r.chance(0.5) ? r.range(0, 2) : r.range(0, 25)) : r.range(0, 1)});
    };
    p.add(0, "g.open", {});
    choose(0);
    choose(1);
    pick_engines();
    for (i64 i = 0; i < 3; ++i) {
        if (r.chance(0.4)) {
            set_one(i);
        }
    }
    auto const steps = r.range(3, tier > 0 ? 30 : 16);
    int renders      = 0;
    for (i64 i = 0; i < steps; ++i) {
        switch (r.below(12)) {
            case 0: choose(0); break;
            case 1: choose(1); break;
            case 2: set_one(static_cast<i64>(r.below(3))); break;
            case 3: pick_engines(); break;
            case 4: p.add(0, "g.prepare", {rate(), r.pick<i64>({64, 128, 256, 441, 512, 1000, 1024}), r.range(1, 2)}); break;
            case 5: p.add(0, "g.pump", {r.chance(0.5) ? 0 : r.range(1, 3)}); break;
            case 6: p.add(0, "g.wait", {r.range(1, 20)}); break;
            case 7:
                if (r.chance(0.35)) {
                    p.add(0, "g.close", {});
                    p.add(0, "g.pump", {0});
                    p.add(0, "g.open", {});
                    if (r.chance(0.7)) {
                        choose(0);
                        choose(1);
                        pick_engines();
                    }
                } else {
                    p.add(0, "g.look", {});
                }
                break;
            case 8:
                if (r.chance(0.15)) {
                    p.add(0, "g.disk", {static_cast<i64>(r.below(3))});
                }
                break;
            default:
                if (renders < (tier > 0 ? 8 : 4)) {
                    p.add(0, "g.render", {});
                    ++renders;
                    if (r.chance(0.35)) {  // the user goes on while the job waits or runs
                        switch (r.below(4)) {
                            case 0: choose(0); break;
                            case 1: choose(1); break;
                            case 2: set_one(static_cast<i64>(r.below(3))); break;
                            default: pick_engines(); break;
                        }
                    }
                }
                break;
        }
    }
    if (r.chance(0.3)) {
        p.add(0, "g.close", {});
        p.add(0, "g.pump", {0});
    }
    p.add(1, "g.work", {});
    if (r.chance(0.5)) {
        p.add(2, "g.work", {});  // (takes a job only from a pool of several threads)
    }
    gen_preemptions(r, p, 40, r.chance(0.5) ? 20000 : 400000);
    return p;
}
Register r22("C22", gen, run);
}  // namespace
