// C18, C19, C20, C21: the audio plugin's processors under a simulated host.
#include "ref.hpp"

#include "plugin/src/PluginProcessor.hpp"

#include "plugin/src/PerceptualConvolution.hpp"
#include "plugin/src/PluginParameter.hpp"
#include "plugin/src/dsp/AudioBuffer.hpp"
#include "plugin/src/dsp/AudioFile.hpp"
#include "plugin/src/dsp/Convolution.hpp"
#include "plugin/src/dsp/DenseConvolution.hpp"

#include <cmath>
#include <deque>

namespace jsim {
// every simulated host thread has its own disk: paths do not collide, whatever path the plugin asks for
static thread_local std::map<std::string, Wav> t_disk;
static thread_local Wav t_any;
static thread_local bool t_has_any = false;
Whole::Whole() : prev{false} {}
Whole::~Whole() = default;
void assertion(char const*) { sim::count("probe_jassert"); }
bool exists(std::string const& p) { return t_has_any or t_disk.count(p) != 0; }
Wav& file(std::string const& p)
{
    auto it = t_disk.find(p);
    return it == t_disk.end() ? t_any : it->second;
}
static thread_local bool t_full = false;
bool remove(std::string const& p)
{
    t_disk.erase(p);
    return true;
}
bool create(std::string const& p)
{
    if (t_full) {
        return false;
    }
    t_disk[p];
    return true;
}
bool write(std::string const& p, std::vector<std::vector<float>> const& v, double rate)
{
    t_disk[p].channels = v;
    t_disk[p].rate     = rate;
    return true;
}
}  // namespace jsim

namespace {
using namespace sim;
using juce::dsp::AudioBlock;
using juce::dsp::ProcessContextNonReplacing;
using juce::dsp::ProcessContextReplacing;
using juce::dsp::ProcessSpec;
using jsim::Wav;

struct Plain final : neo::ConstantOverlapAdd<float>
{
    Plain(int order, int div) : neo::ConstantOverlapAdd<float>{order, div} {}
    void prepareFrame(ProcessSpec const& s) override { channels = s.numChannels; }
    void processFrame(ProcessContextReplacing<float> const& c) override
    {
        ++frames;
        if (c.getOutputBlock().getNumChannels() != channels) {
            violation("frame", "a frame of %zu channels in a stream of %zu", c.getOutputBlock().getNumChannels(), static_cast<std::size_t>(channels));
        }
    }
    void resetFrame() override {}
    std::uint32_t channels{0};
    u64 frames{0};
};

// Reference: frames of `frame` samples; a frame sees the samples since the last time the filter was (re)loaded.
struct Channel
{
    ref::vec since;      // samples since the last filter load, frame aligned
    ref::vec pending;    // samples of the unfinished frame
    std::deque<double> out;
    double norm{0};      // squared norm of everything heard since the clear (tolerance)
    double gain{0};      // largest filter norm since the clear (tolerance)
    std::size_t popped{0};
};
struct Model
{
    bool prepared{false};
    std::size_t frame{1}, latency{0}, maxblock{0}, channels{0};
    double rate{0};
    std::optional<Wav> impulse;
    std::vector<ref::vec> h;  // per channel; empty: identity
    std::vector<Channel> ch;
    bool active{true};        // neo::Convolution: filters present

    void silence(std::size_t lat)
    {
        latency = lat;
        ch.assign(channels, Channel{});
        for (auto& c : ch) {
            c.out.assign(lat, 0.0);
        }
    }
    void filter_restart()
    {
        for (auto& c : ch) {
            c.since.clear();
        }
    }
    void make_filter(bool normalise)
    {
        h.assign(channels, ref::vec{1.0});
        if (not impulse) {
            return;
        }
        // the resampler is a stand-in, so ask it for the resampled impulse; the rest is computed here
        juce::AudioBuffer<float> b(static_cast<int>(impulse->channels.size()), static_cast<int>(impulse->channels[0].size()));
        for (std::size_t c = 0; c < impulse->channels.size(); ++c) {
            for (std::size_t i = 0; i < impulse->channels[c].size(); ++i) {
                b.setSample(static_cast<int>(c), static_cast<int>(i), impulse->channels[c][i]);
            }
        }
        std::vector<ref::vec> m(impulse->channels.size());
        if (impulse->rate != rate) {
            auto const ratio = impulse->rate / rate;
            auto const n     = juce::roundToInt(std::max(1.0, b.getNumSamples() / ratio));
            juce::MemoryAudioSource src(b, false);
            juce::ResamplingAudioSource rs(&src, false, b.getNumChannels());
            rs.setResamplingRatio(ratio);
            juce::AudioBuffer<float> out(b.getNumChannels(), n);
            rs.getNextAudioBlock({&out, 0, n});
            b = out;
        }
        double factor = 1e300;
        for (std::size_t c = 0; c < m.size(); ++c) {
            double e = 0;
            for (int i = 0; i < b.getNumSamples(); ++i) {
                m[c].push_back(static_cast<double>(b.getSample(static_cast<int>(c), i)));
                e += m[c].back() * m[c].back();
            }
            factor = std::min(factor, e > 0 ? 1.0 / std::sqrt(e) : 1.0);
        }
        for (std::size_t c = 0; c < channels; ++c) {
            h[c] = m[std::min(c, m.size() - 1)];
            if (normalise) {
                for (auto& v : h[c]) {
                    v *= factor;
                }
            }
        }
    }
    void push(std::size_t c, float v)
    {
        auto& k = ch[c];
        k.pending.push_back(static_cast<double>(v));
        k.gain = std::max(k.gain, ref::norm2(h[c]));
        k.norm += static_cast<double>(v) * static_cast<double>(v);
        if (k.pending.size() == frame) {
            auto const from = k.since.size();
            k.since.insert(k.since.end(), k.pending.begin(), k.pending.end());
            auto y = ref::direct(k.since, h[c], from, k.since.size());
            k.out.insert(k.out.end(), y.begin(), y.end());
            k.pending.clear();
        }
    }
    double pop(std::size_t c)
    {
        ++ch[c].popped;
        auto v = ch[c].out.front();
        ch[c].out.pop_front();
        return v;
    }
    double tol(std::size_t c) const
    {
        return 1.2e-5 * std::sqrt(ch[c].norm) * ch[c].gain * (std::log2(static_cast<double>(ch[c].since.size() + frame)) + 4) / 16.0 + 1e-30;
    }
};

enum Kind
{
    dense,
    cola,
    perceptual,
    direct_conv,
    kinds,
    processor = kinds
};
char const* const names[] = {"DenseConvolution", "ConstantOverlapAdd", "PerceptualConvolution", "neo::Convolution", "PluginProcessor"};

char const* const param_ids[] = {neo::ParamID::inGain, neo::ParamID::outGain, neo::ParamID::wet};
float const param_max[]       = {4.0F, 4.0F, 1.0F};
struct Told final : neo::ProcessSpecListener
{
    void processSpecChanged(ProcessSpec const& s) override
    {
        ++calls;
        last = s;
    }
    int calls{0};
    ProcessSpec last{};
    bool on{false};
};

struct Host
{
    int kind{0};
    std::size_t hop{1};
    std::unique_ptr<neo::DenseConvolution> d;
    std::unique_ptr<Plain> p;
    std::unique_ptr<juce::AudioProcessorValueTreeState> state;
    std::unique_ptr<neo::PerceptualConvolution> pc;
    std::unique_ptr<neo::Convolution> nc;
    std::unique_ptr<neo::PluginProcessor> pp;
    std::array<Told, 3> told;
    // every value a parameter was set to, in order; the ones before `settled` are past
    std::array<std::vector<float>, 3> values;
    std::array<std::size_t, 3> settled{};
    Model m;
    float in_gain{1}, out_gain{1}, wet{1};
    std::map<int, Wav> files;
};

std::size_t pow2_at_least(std::size_t n)
{
    std::size_t r = 1;
    while (r < n) {
        r *= 2;
    }
    return r;
}

Wav make_wav(Op const& op, std::size_t at)
{
    // channels length seed irkind rate fault
    Wav w;
    Rng r(static_cast<u64>(op.at(at + 2)) + 11);
    auto const ch = static_cast<std::size_t>(std::clamp<i64>(op.at(at), 1, 8));
    auto const n  = static_cast<std::size_t>(std::clamp<i64>(op.at(at + 1), 0, 4000));
    for (std::size_t c = 0; c < ch; ++c) {
        auto v = ref::make_ir(r, n, static_cast<int>(op.at(at + 3)));
        w.channels.emplace_back(v.begin(), v.end());
    }
    w.rate        = static_cast<double>(std::max<i64>(1000, op.at(at + 4)));
    w.can_open    = op.at(at + 5) != 1;
    w.good_header = op.at(at + 5) != 2;
    w.can_read    = op.at(at + 5) != 3;
    return w;
}
bool usable(Wav const& w) { return w.can_open and w.good_header and w.can_read and not w.channels.empty() and not w.channels[0].empty(); }
void count_fault(Wav const& w, i64 f)
{
    static char const* const n[] = {"file_ok", "fault_open", "fault_bad_header", "fault_read"};
    count(w.channels[0].empty() ? "fault_empty_file" : n[std::clamp<i64>(f, 0, 3)]);
}

void do_load(Host& h, Op const& op)
{
    auto w = make_wav(op, 1);
    count_fault(w, op.at(6));
    jsim::t_disk["ir.wav"] = w;
    bool const ok          = usable(w);
    if (h.kind == dense) {
        auto s = juce::File{"ir.wav"}.createInputStream();
        if (s == nullptr) {
            return;  // the caller sees that the file cannot be opened
        }
        {
            Lib l;
            h.d->loadImpulseResponse(std::move(s));
        }
        if (ok) {
            h.m.impulse = w;
            if (h.m.prepared) {
                h.m.make_filter(true);
                h.m.filter_restart();
            }
        }
    } else if (h.kind == direct_conv) {
        {
            Lib l;
            h.nc->loadImpulseResponse(juce::File{"ir.wav"}, neo::Convolution::Stereo::yes, neo::Convolution::Trim::no, 0, neo::Convolution::Normalise::no);
        }
        if (ok) {
            h.m.impulse = w;
            if (h.m.prepared) {
                h.m.make_filter(false);
                h.m.active = true;
                h.m.silence(0);
            }
        }
    } else if (h.kind == perceptual or h.kind == processor) {
        // takes effect with the next prepare
        jsim::t_has_any = w.can_open;
        jsim::t_any     = w;
    }
}

void do_prepare(Host& h, Op const& op)
{
    auto& m          = h.m;
    double const sr  = static_cast<double>(std::max<i64>(1000, op.at(1)));
    auto maxb        = static_cast<std::size_t>(std::clamp<i64>(op.at(2), 1, 4096));
    auto const chans = static_cast<std::size_t>(std::clamp<i64>(op.at(3), 1, 8));
    if (h.kind == direct_conv) {
        maxb = std::max<std::size_t>(2, pow2_at_least(maxb));
    }
    ProcessSpec const spec{sr, static_cast<juce::uint32>(maxb), static_cast<juce::uint32>(chans)};
    if (h.kind == processor) {
        // whatever the host asks for: only mono to mono and stereo to stereo are agreed on
        auto const in = static_cast<int>(op.at(4, op.at(3)));
        bool ok{};
        {
            Lib l;
            ok = h.pp->setBusesLayout({juce::AudioChannelSet::discreteChannels(in), juce::AudioChannelSet::discreteChannels(static_cast<int>(chans))});
        }
        bool const want = in == static_cast<int>(chans) and (chans == 1 or chans == 2);
        if (ok != want) {
            violation("layout", "%d inputs and %zu outputs are %s", in, chans, ok ? "accepted" : "refused");
        }
        if (not ok) {
            return;
        }
    }
    m.prepared = true;
    m.maxblock = maxb;
    m.channels = chans;
    m.rate     = sr;
    switch (h.kind) {
        case dense: {
            Lib l;
            h.d->prepare(spec);
            break;
        }
        case cola: {
            Lib l;
            h.p->prepare(spec);
            break;
        }
        case processor:
        case perceptual: {
            auto before = h.told;
            {
                Lib l;
                if (h.kind == processor) {
                    h.pp->prepareToPlay(sr, static_cast<int>(maxb));
                } else {
                    h.pc->prepare(spec);
                }
            }
            for (std::size_t i = 0; i < h.told.size() and h.kind == processor; ++i) {
                auto const n = h.told[i].calls - before[i].calls;
                if (n != (h.told[i].on ? 1 : 0)) {
                    violation("listener", "a listener %s was told %d times of one prepare", h.told[i].on ? "in the list" : "not in the list", n);
                }
                auto const& t = h.told[i].last;
                if (h.told[i].on and (t.sampleRate != sr or t.maximumBlockSize != maxb or t.numChannels != chans)) {
                    violation("listener", "told %g Hz, %u samples, %u channels instead of %g, %zu, %zu", t.sampleRate, t.maximumBlockSize, t.numChannels, sr, maxb, chans);
                }
            }
            if (h.kind == processor) {
                auto const t = h.pp->getProcessSpec();
                if (t.sampleRate != sr or t.maximumBlockSize != maxb or t.numChannels != chans) {
                    violation("spec", "the processor reports %g Hz, %u samples, %u channels instead of %g, %zu, %zu", t.sampleRate, t.maximumBlockSize, t.numChannels, sr, maxb, chans);
                }
            }
            m.frame = pow2_at_least(maxb);
            m.impulse.reset();
            if (jsim::t_has_any and usable(jsim::t_any)) {
                m.impulse = jsim::t_any;
            }
            break;
        }
        default: {
            Lib l;
            h.nc->prepare(spec);
            break;
        }
    }
    if (h.kind == direct_conv) {
        m.frame = maxb;
        m.make_filter(false);
        if (m.impulse) {
            m.active = true;
        } else {
            m.active = false;
        }
        m.silence(0);
    } else {
        m.make_filter(true);
        m.silence(m.frame - 1);
    }
    count("prepares");
}

void do_reset(Host& h)
{
    {
        Lib l;
        switch (h.kind) {
            case dense: h.d->reset(); break;
            case cola: h.p->reset(); break;
            case perceptual: h.pc->reset(); break;
            case processor: h.pp->releaseResources(); break;
            default: h.nc->reset(); break;
        }
    }
    if (h.m.prepared) {
        if (h.kind == direct_conv) {
            h.m.active = h.m.impulse.has_value();
            h.m.silence(0);
        } else {
            h.m.silence(h.m.frame - 1);
        }
    }
    count("resets");
}

struct NoHeap
{
    explicit NoHeap(bool on) : _on{on}
    {
        if (_on) {
            alloc_arm(1, i64(1) << 40);
        }
    }
    ~NoHeap()
    {
        if (_on) {
            auto const n = alloc_disarm();
            if (n != 0) {
                violation("alloc", "the audio callback allocates memory");
            }
            count("fault_heap_exhausted");
        }
    }
    bool _on;
};

// d.process slot blocks seed datakind sizemode separate noheap amp%
void do_process(Host& h, Op const& op)
{
    auto& m = h.m;
    if (not m.prepared) {
        return;
    }
    Rng r(static_cast<u64>(op.at(2)) + 17);
    auto const blocks = std::clamp<i64>(op.at(1), 0, 400);
    auto const sep    = op.at(5) == 1 and h.kind != perceptual and h.kind != processor;
    double const amp  = static_cast<double>(op.at(7, 100)) / 100.0;
    for (i64 b = 0; b < blocks; ++b) {
        std::size_t n = m.maxblock;
        switch (op.at(4)) {
            case 0: break;
            case 1: n = 1; break;
            case 2: n = static_cast<std::size_t>(r.range(1, static_cast<i64>(m.maxblock))); break;
            case 3: n = r.chance(0.2) ? 0 : static_cast<std::size_t>(r.range(1, static_cast<i64>(m.maxblock))); break;
            default: n = r.chance(0.7) ? m.maxblock : static_cast<std::size_t>(r.range(1, static_cast<i64>(m.maxblock))); break;
        }
        juce::AudioBuffer<float> in(static_cast<int>(m.channels), static_cast<int>(n)), out(static_cast<int>(m.channels), static_cast<int>(n));
        for (std::size_t c = 0; c < m.channels; ++c) {
            auto v = ref::make(r, n, static_cast<int>(op.at(3)), amp);
            for (std::size_t i = 0; i < n; ++i) {
                in.setSample(static_cast<int>(c), static_cast<int>(i), static_cast<float>(v[i]));
            }
        }
        auto const before = in;
        auto inb          = AudioBlock<float>{in};
        auto outb         = AudioBlock<float>{out};
        {
            NoHeap nh(op.at(6) == 1);
            auto call = [&](auto& proc) {
                if (sep) {
                    auto ctx = ProcessContextNonReplacing<float>{inb, outb};
                    Lib l;
                    proc.process(ctx);
                } else {
                    auto ctx = ProcessContextReplacing<float>{inb};
                    Lib l;
                    proc.process(ctx);
                }
            };
            try {
                switch (h.kind) {
                    case dense: call(*h.d); break;
                    case cola: call(*h.p); break;
                    case perceptual: {
                        auto ctx = ProcessContextReplacing<float>{inb};
                        Lib l;
                        h.pc->process(ctx);
                        break;
                    }
                    case processor: {
                        juce::MidiBuffer midi;
                        Lib l;
                        h.pp->processBlock(in, midi);
                        break;
                    }
                    default: call(*h.nc); break;
                }
            } catch (std::bad_alloc const&) {
                violation("alloc", "the audio callback of %s allocates memory", names[h.kind]);
            }
        }
        auto const& got = sep ? out : in;
        count("blocks");
        count("samples", n);
        clock_advance(static_cast<double>(n) / m.rate);
        for (std::size_t c = 0; c < m.channels; ++c) {
            bool const pass = h.kind == direct_conv and (not m.active or n != m.maxblock);
            if (not pass) {
                for (std::size_t i = 0; i < n; ++i) {
                    m.push(c, before.getSample(static_cast<int>(c), static_cast<int>(i)) * h.in_gain);
                }
            }
            double const tol = m.tol(c);
            for (std::size_t i = 0; i < n; ++i) {
                double const g = static_cast<double>(got.getSample(static_cast<int>(c), static_cast<int>(i)));
                double w, t = tol;
                if (pass) {
                    w = static_cast<double>(before.getSample(static_cast<int>(c), static_cast<int>(i)));
                    t = 0;
                } else {
                    w = m.pop(c);
                    if (h.kind == cola and m.ch[c].popped <= m.latency + m.frame - h.hop and m.ch[c].popped > m.latency) {
                        // the first samples of a stream lie in fewer overlapping frames: no louder than the input
                        if (std::abs(g) <= std::abs(w) + t) {
                            mixd(g);
                            continue;
                        }
                    }
                }
                if (h.kind == perceptual or h.kind == processor) {
                    double const dry = static_cast<double>(before.getSample(static_cast<int>(c), static_cast<int>(i)) * h.in_gain);
                    w = (w * 2 * std::min(0.5, static_cast<double>(h.wet)) + dry * 2 * std::min(0.5, 1.0 - static_cast<double>(h.wet))) * static_cast<double>(h.out_gain);
                    t = t * static_cast<double>(h.out_gain) + 1e-6 * std::abs(w) + 1e-6 * std::abs(dry * static_cast<double>(h.out_gain));
                }
                if (not(std::abs(g - w) <= t)) {
                    violation("mismatch", "%s channel %zu of %zu, block %lld of %zu samples (largest %zu), sample %zu: %g instead of %g (tolerance %g)", names[h.kind], c, m.channels, static_cast<long long>(b), n, m.maxblock, i, g, w, t);
                }
                mixd(g);
            }
            if (sep) {
                for (std::size_t i = 0; i < n; ++i) {
                    if (in.getSample(static_cast<int>(c), static_cast<int>(i)) != before.getSample(static_cast<int>(c), static_cast<int>(i))) {
                        violation("input-changed", "%s wrote to its input", names[h.kind]);
                    }
                }
            }
        }
    }
}

// o.dense engine sigch siglen seed kind irch irlen irkind block
template<typename C>
juce::AudioBuffer<float> dense_run(juce::AudioBuffer<float> const& s, juce::AudioBuffer<float> const& f, int block)
{
    Lib l;
    return neo::dense_convolve<C>(s, f, block);
}
void do_offline(Op const& op, bool sparse)
{
    Rng r(static_cast<u64>(op.at(3)) + 23);
    auto const sch = static_cast<int>(std::clamp<i64>(op.at(1), 1, 4)), n = static_cast<int>(std::clamp<i64>(op.at(2), 0, 4000));
    auto const fch = static_cast<int>(std::clamp<i64>(op.at(5), 1, 4)), k = static_cast<int>(std::clamp<i64>(op.at(6), 1, 2000));
    auto const block = static_cast<int>(pow2_at_least(static_cast<std::size_t>(std::clamp<i64>(op.at(8), 2, 4096))));
    juce::AudioBuffer<float> s(sch, n), f(fch, k);
    std::vector<ref::vec> x, h;
    for (int c = 0; c < sch; ++c) {
        auto v = ref::make(r, static_cast<std::size_t>(n), static_cast<int>(op.at(4)), 1.0);
        for (int i = 0; i < n; ++i) {
            s.setSample(c, i, static_cast<float>(v[static_cast<std::size_t>(i)]));
            v[static_cast<std::size_t>(i)] = static_cast<double>(s.getSample(c, i));
        }
        x.push_back(v);
    }
    double factor = 1e300;
    for (int c = 0; c < fch; ++c) {
        auto v   = ref::make_ir(r, static_cast<std::size_t>(k), static_cast<int>(op.at(7)));
        double e = 0;
        for (int i = 0; i < k; ++i) {
            f.setSample(c, i, static_cast<float>(v[static_cast<std::size_t>(i)]));
            v[static_cast<std::size_t>(i)] = static_cast<double>(f.getSample(c, i));
            e += v[static_cast<std::size_t>(i)] * v[static_cast<std::size_t>(i)];
        }
        factor = std::min(factor, e > 0 ? 1.0 / std::sqrt(e) : 1.0);
        h.push_back(v);
    }
    for (auto& v : h) {
        for (auto& t : v) {
            t *= factor;
        }
    }
    auto const s0 = s;
    auto const f0 = f;
    clock_advance(static_cast<double>(n) / 44100.0);
    juce::AudioBuffer<float> out;
    auto const low    = std::clamp<i64>(op.at(9), 0, block - 1);
    auto const thresh = static_cast<double>(op.at(10)) / 10.0;
    double const sr   = static_cast<double>(std::max<i64>(1000, op.at(11, 44100)));
    using C           = std::complex<float>;
    namespace nc      = neo::convolution;
    if (sparse) {
        Lib l;
        out = neo::sparse_convolve(s, f, block, sr, static_cast<float>(thresh), static_cast<int>(low));
    } else {
        switch (op.at(0)) {
            case 0: out = dense_run<nc::upols_convolver<C>>(s, f, block); break;
            case 1: out = dense_run<nc::upola_convolver<C>>(s, f, block); break;
            case 2: out = dense_run<nc::upola_convolver_v2<C>>(s, f, block); break;
            case 3: out = dense_run<nc::split_upola_convolver<C>>(s, f, block); break;
            default: out = dense_run<nc::split_upols_convolver<C>>(s, f, block); break;
        }
    }
    count(sparse ? "sparse_renders" : "dense_renders");
    if (out.getNumChannels() != sch or out.getNumSamples() != n) {
        violation("shape", "%d channels of %d samples rendered to %d channels of %d", sch, n, out.getNumChannels(), out.getNumSamples());
    }
    for (int c = 0; c < sch; ++c) {
        auto const& hc = h[static_cast<std::size_t>(std::min(c, fch - 1))];
        auto const& xc = x[static_cast<std::size_t>(c)];
        auto eff       = hc;
        if (sparse) {
            // spectrum bins of each partition that stay
            auto const B     = static_cast<std::size_t>(block);
            auto const parts = (hc.size() + B - 1) / B;
            std::vector<ref::cvec> sp;
            double maxp = 0;
            for (std::size_t p = 0; p < parts; ++p) {
                ref::vec seg(hc.begin() + static_cast<std::ptrdiff_t>(p * B), hc.begin() + static_cast<std::ptrdiff_t>(std::min(hc.size(), (p + 1) * B)));
                seg.resize(2 * B, 0.0);
                sp.push_back(ref::rfft(seg, 2 * B));
                for (auto v : sp.back()) {
                    maxp = std::max(maxp, std::norm(v));
                }
            }
            auto const aw = [](double fr) {
                auto const f2 = fr * fr;
                auto const ra = 12194.0 * 12194.0 * f2 * f2 / ((f2 + 20.6 * 20.6) * std::sqrt((f2 + 107.7 * 107.7) * (f2 + 737.9 * 737.9)) * (f2 + 12194.0 * 12194.0));
                return 20 * std::log10(ra) + 2.0;
            };
            bool clear = true;
            for (std::size_t p = 0; p < parts; ++p) {
                for (std::size_t b = 0; b < sp[p].size(); ++b) {
                    auto const pw     = maxp > 0 ? std::norm(sp[p][b]) / maxp : 0.0;
                    auto const weight = static_cast<i64>(b) < low ? 100.0 : aw(static_cast<double>(b) * sr / static_cast<double>(2 * B));
                    auto const db     = 10 * std::log10(pw) + weight;
                    // bins whose level, within rounding, may lie on either side of the threshold may go either way
                    auto const level = [&](double g) { return g > 0 ? 20 * std::log10(g / std::sqrt(maxp)) + weight : -1e9; };
                    auto const mag = std::abs(sp[p][b]), eps = 4e-6 * std::sqrt(maxp);
                    if (mag > 0 and level(mag + eps) + 0.02 > thresh and level(mag - eps) - 0.02 <= thresh) {
                        clear = false;
                    }
                    if (not(db > thresh)) {
                        sp[p][b] = 0;
                    }
                }
            }
            if (not clear) {
                count("probe_threshold_tie");
                continue;
            }
            // overlap-add of B-sample blocks with the thinned spectra
            ref::vec want(xc.size(), 0.0);
            double nh = ref::norm2(hc);
            std::vector<ref::cvec> xs;
            ref::vec tail(B, 0.0);
            for (std::size_t i = 0; i < xc.size(); i += B) {
                ref::vec seg(xc.begin() + static_cast<std::ptrdiff_t>(i), xc.begin() + static_cast<std::ptrdiff_t>(std::min(xc.size(), i + B)));
                seg.resize(2 * B, 0.0);
                xs.push_back(ref::rfft(seg, 2 * B));
                ref::cvec acc(B + 1);
                for (std::size_t p = 0; p < parts and p < xs.size(); ++p) {
                    for (std::size_t b = 0; b <= B; ++b) {
                        acc[b] += xs[xs.size() - 1 - p][b] * sp[p][b];
                    }
                }
                auto y = ref::irfft(acc, 2 * B);
                for (std::size_t j = 0; j < B; ++j) {
                    if (i + j < want.size()) {
                        want[i + j] = y[j] + tail[j];
                    }
                    tail[j] = y[B + j];
                }
            }
            double const tol = 4e-6 * ref::norm2(xc) * nh * (std::log2(static_cast<double>(xc.size() + 2)) + 4) / 4 + 1e-30;
            for (int i = 0; i < n; ++i) {
                auto const g = static_cast<double>(out.getSample(c, i));
                if (not(std::abs(g - want[static_cast<std::size_t>(i)]) <= tol)) {
                    violation("mismatch", "sparse render channel %d of %d, %d samples, filter %d x %d, block %d, sample %d: %g instead of %g (tolerance %g)", c, sch, n, fch, k, block, i, g, want[static_cast<std::size_t>(i)], tol);
                }
                mixd(g);
            }
            count("sparse_compared");
        } else {
            auto const want  = ref::direct(xc, eff, 0, xc.size());
            double const tol = 1e-6 * ref::norm2(xc) * ref::norm2(eff) * (std::log2(static_cast<double>(xc.size() + 2)) + 4) / 2 + 1e-30;
            for (int i = 0; i < n; ++i) {
                auto const g = static_cast<double>(out.getSample(c, i));
                if (not(std::abs(g - want[static_cast<std::size_t>(i)]) <= tol)) {
                    violation("mismatch", "render with engine %lld, channel %d of %d, %d samples, filter %d x %d, block %d, sample %d: %g instead of %g (tolerance %g)", static_cast<long long>(op.at(0)), c, sch, n, fch, k, block, i, g, want[static_cast<std::size_t>(i)], tol);
                }
                mixd(g);
            }
        }
    }
    for (int c = 0; c < sch; ++c) {
        for (int i = 0; i < n; ++i) {
            if (s.getSample(c, i) != s0.getSample(c, i)) {
                violation("input-changed", "rendering changed the signal");
            }
        }
    }
    for (int c = 0; c < fch; ++c) {
        for (int i = 0; i < k; ++i) {
            if (f.getSample(c, i) != f0.getSample(c, i)) {
                violation("input-changed", "rendering changed the impulse response");
            }
        }
    }
}

// o.file channels length seed rate destrate fault
void do_file(Op const& op)
{
    Rng r(static_cast<u64>(op.at(2)) + 29);
    auto const ch = static_cast<int>(std::clamp<i64>(op.at(0), 1, 16)), n = static_cast<int>(std::clamp<i64>(op.at(1), 1, 4000));
    double const sr = static_cast<double>(std::max<i64>(1000, op.at(3)));
    juce::AudioBuffer<float> b(ch, n);
    for (int c = 0; c < ch; ++c) {
        auto v = ref::make(r, static_cast<std::size_t>(n), 0, 1.0);
        for (int i = 0; i < n; ++i) {
            b.setSample(c, i, static_cast<float>(v[static_cast<std::size_t>(i)]));
        }
    }
    auto const fault = op.at(5);
    jsim::t_disk.clear();
    jsim::t_has_any = false;
    jsim::t_full    = fault == 4;
    juce::AudioFormatManager formats;
    formats.registerBasicFormats();
    {
        Lib l;
        neo::writeToWavFile(juce::File{"out.wav"}, b, sr, 32);
    }
    jsim::t_full = false;
    if (fault >= 1 and fault <= 3) {
        auto& w       = jsim::t_disk["out.wav"];
        w.can_open    = fault != 1;
        w.good_header = fault != 2;
        w.can_read    = fault != 3;
    }
    static char const* const names[] = {"file_ok", "fault_open", "fault_bad_header", "fault_read", "fault_open_write"};
    count(names[std::clamp<i64>(fault, 0, 4)]);
    neo::BufferWithSampleRate<float> got;
    {
        Lib l;
        got = neo::load(formats, juce::File{"out.wav"});
    }
    if (fault != 0) {
        if (got.buffer.getNumChannels() != 0 or got.sampleRate != 0.0) {
            violation("load", "a file that cannot be read gave %d channels at %g Hz", got.buffer.getNumChannels(), got.sampleRate);
        }
        return;
    }
    if (got.buffer.getNumChannels() != ch or got.buffer.getNumSamples() != n or got.sampleRate != sr) {
        violation("load", "%d x %d at %g Hz came back as %d x %d at %g Hz", ch, n, sr, got.buffer.getNumChannels(), got.buffer.getNumSamples(), got.sampleRate);
    }
    for (int c = 0; c < ch; ++c) {
        for (int i = 0; i < n; ++i) {
            if (got.buffer.getSample(c, i) != b.getSample(c, i)) {
                violation("load", "sample %d of channel %d of %d changed on disk: %g instead of %g", i, c, ch, static_cast<double>(got.buffer.getSample(c, i)), static_cast<double>(b.getSample(c, i)));
            }
        }
    }
    // resampled on the way in: duration stays, a request for the own rate changes nothing
    double const dest = static_cast<double>(std::max<i64>(1000, op.at(4)));
    {
        Lib l;
        got = neo::loadAndResample(formats, juce::File{"out.wav"}, dest);
    }
    auto const want = dest == sr ? n : std::max(1, juce::roundToInt(static_cast<double>(n) * dest / sr));
    if (got.sampleRate != dest or got.buffer.getNumChannels() != ch or std::abs(got.buffer.getNumSamples() - want) > 1) {
        violation("resample", "%d samples at %g Hz became %d at %g Hz", n, sr, got.buffer.getNumSamples(), got.sampleRate);
    }
    for (int c = 0; c < ch; ++c) {
        for (int i = 0; i < got.buffer.getNumSamples(); ++i) {
            auto const v = got.buffer.getSample(c, i);
            if (not(std::abs(v) < 1e6F) or (dest == sr and v != b.getSample(c, i))) {
                violation("resample", "sample %d of channel %d of %d: %g", i, c, ch, static_cast<double>(v));
            }
        }
    }
    clock_advance(static_cast<double>(n) / sr);
    count("files");
}

// o.blocks kind(0 dense, 1 direct) channels siglen seed datakind block rate rounds irch irlen irseed irkind irrate
void do_blocks(Op const& op)
{
    Host h;
    h.kind           = op.at(0) == 0 ? dense : direct_conv;
    auto const ch    = static_cast<int>(std::clamp<i64>(op.at(1), 1, 4)), n = static_cast<int>(std::clamp<i64>(op.at(2), 0, 4000));
    auto const block = std::max<std::size_t>(2, pow2_at_least(static_cast<std::size_t>(std::clamp<i64>(op.at(5), 2, 4096))));
    auto const rate  = static_cast<double>(std::max<i64>(1000, op.at(6)));
    {
        Lib l;
        if (h.kind == dense) {
            h.d = std::make_unique<neo::DenseConvolution>(static_cast<int>(block));
        } else {
            h.nc = std::make_unique<neo::Convolution>();
        }
    }
    auto load = op;
    load.a    = {0, op.at(8), op.at(9), op.at(10), op.at(11), op.at(12), 0};
    if (op.at(9) > 0) {
        do_load(h, load);
    }
    Rng r(static_cast<u64>(op.at(3)) + 31);
    for (i64 k = 0; k < std::clamp<i64>(op.at(7), 1, 3); ++k) {
        juce::AudioBuffer<float> in(ch, n), out(ch, n);
        for (int c = 0; c < ch; ++c) {
            auto v = ref::make(r, static_cast<std::size_t>(n), static_cast<int>(op.at(4)), 1.0);
            for (int i = 0; i < n; ++i) {
                in.setSample(c, i, static_cast<float>(v[static_cast<std::size_t>(i)]));
            }
        }
        auto const before = in;
        {
            auto outb = AudioBlock<float>{out};
            auto inb  = AudioBlock<float const>{AudioBlock<float>{in}};
            Lib l;
            if (h.kind == dense) {
                neo::processBlocks(*h.d, inb, outb, block, rate);
            } else {
                neo::processBlocks(*h.nc, inb, outb, block, rate);
            }
        }
        auto& m    = h.m;
        m.prepared = true;
        m.maxblock = m.frame = block;
        m.channels = static_cast<std::size_t>(ch);
        m.rate     = rate;
        m.make_filter(h.kind == dense);
        m.active = h.kind == dense or m.impulse.has_value();
        m.silence(h.kind == dense ? block - 1 : 0);
        count("block_renders");
        clock_advance(static_cast<double>(n) / rate);
        for (int c = 0; c < ch; ++c) {
            auto const cc = static_cast<std::size_t>(c);
            for (int i = 0; i < n; i += static_cast<int>(block)) {
                auto const len  = std::min(n - i, static_cast<int>(block));
                bool const pass = not m.active or (h.kind == direct_conv and static_cast<std::size_t>(len) != block);
                for (int j = 0; j < len and not pass; ++j) {
                    m.push(cc, before.getSample(c, i + j));
                }
                for (int j = 0; j < len; ++j) {
                    double const w = pass ? static_cast<double>(before.getSample(c, i + j)) : m.pop(cc), g = static_cast<double>(out.getSample(c, i + j));
                    double const t = pass ? 0.0 : m.tol(cc);
                    if (not(std::abs(g - w) <= t)) {
                        violation("mismatch", "%s in blocks of %zu, round %lld, channel %d of %d, sample %d of %d: %g instead of %g (tolerance %g)", names[h.kind], block, static_cast<long long>(k), c, ch, i + j, n, g, w, t);
                    }
                    mixd(g);
                    if (in.getSample(c, i + j) != before.getSample(c, i + j)) {
                        violation("input-changed", "processBlocks wrote to its input");
                    }
                }
            }
        }
    }
}

// ---------------------------------------------------------------- C21: the processor's parameters and saved state
juce::AudioParameterFloat& param(Host& h, int i) { return *neo::getFloatParameter(h.pp->getState(), param_ids[i]); }
bool near(float a, float b, int i) { return std::abs(a - b) <= 2e-4F * param_max[i]; }
void audio_gains(Host& h)
{
    h.in_gain  = param(h, 0).get();
    h.out_gain = param(h, 1).get();
    h.wet      = param(h, 2).get();
}
void check_params(Host& h, char const* when)
{
    for (int i = 0; i < 3; ++i) {
        auto const want = h.values[static_cast<std::size_t>(i)].back();
        if (not near(param(h, i).get(), want, i)) {
            violation("parameter", "%s is %g instead of %g %s", param_ids[i], static_cast<double>(param(h, i).get()), static_cast<double>(want), when);
        }
        mixd(static_cast<double>(param(h, i).get()));
    }
    audio_gains(h);
}
void begin_value(Host& h, int i, float v) { h.values[static_cast<std::size_t>(i)].push_back(v); }
void settle(Host& h)
{
    for (std::size_t i = 0; i < 3; ++i) {
        h.settled[i] = h.values[i].size() - 1;
    }
}
struct Saved
{
    juce::MemoryBlock data;
    std::array<float, 3> v{};
};
struct StateWorld
{
    std::map<int, Saved> saved;  // by number
};
// What the data says, read by the harness the way JUCE reads it.
bool decode(juce::MemoryBlock const& b, std::array<std::optional<float>, 3>& v)
{
    auto const t = juce::ValueTree::readFromData(b.getData(), b.getSize());
    if (not t.hasType("PerceptualConvolution")) {
        return false;
    }
    for (auto const& c : t) {
        for (int i = 0; i < 3; ++i) {
            if (c.getProperty("id").toString() == param_ids[i] and c.hasProperty("value")) {
                v[static_cast<std::size_t>(i)] = static_cast<float>(c.getProperty("value"));
            }
        }
    }
    return true;
}
// v.save slot number(of the saved state)
void do_save(StateWorld& sw, Host& h, Op const& op)
{
    auto const from = h.settled;
    Saved s;
    s.data.append("old contents", 12);
    {
        Lib l;
        h.pp->getStateInformation(s.data);
    }
    count("saves");
    // a fresh instance tells what was saved
    neo::PluginProcessor other;
    other.setStateInformation(s.data.getData(), static_cast<int>(s.data.getSize()));
    for (int i = 0; i < 3; ++i) {
        auto const k    = static_cast<std::size_t>(i);
        auto const got  = neo::getFloatParameter(other.getState(), param_ids[i])->get();
        bool found      = false;
        auto const last = h.values[k].size();
        for (auto j = from[k]; j < last; ++j) {
            found = found or near(got, h.values[k][j], i);
        }
        if (not found) {
            violation("save", "the saved %s restores to %g; it was %g when the save began (%zu changes during the save)", param_ids[i], static_cast<double>(got), static_cast<double>(h.values[k][from[k]]), last - 1 - from[k]);
        }
        s.v[k] = got;
        mixd(static_cast<double>(got));
    }
    sw.saved[static_cast<int>(op.at(1))] = s;
}
// v.restore slot number fault(0 none, 1 cut, 2 foreign, 3 garbage, 4 empty) seed
void do_restore(StateWorld& sw, Host& h, Op const& op)
{
    auto it = sw.saved.find(static_cast<int>(op.at(1)));
    juce::MemoryBlock data;
    std::array<float, 3> want{};
    auto fault = std::clamp<i64>(op.at(2), 0, 4);
    Rng r(static_cast<u64>(op.at(3)) + 41);
    if (fault <= 1) {
        if (it == sw.saved.end()) {
            return;
        }
        data = it->second.data;
        want = it->second.v;
        if (fault == 1) {
            data.bytes.resize(static_cast<std::size_t>(r.below(data.bytes.size())));
        }
    } else if (fault == 2) {
        juce::ValueTree t{juce::Identifier{r.chance(0.5) ? "Reverb" : "PARAMETERS"}};
        for (int i = 0; i < 3; ++i) {
            if (r.chance(0.6)) {
                juce::ValueTree c{juce::Identifier{"PARAM"}};
                c.setProperty("id", juce::String{r.chance(0.5) ? param_ids[i] : "size"}, nullptr);
                c.setProperty("value", static_cast<float>(r.unit()), nullptr);
                t.appendChild(c, nullptr);
            }
        }
        juce::MemoryOutputStream s(data, false);
        t.writeToStream(s);
    } else if (fault == 3) {
        for (auto n = r.range(1, 60); n > 0; --n) {
            data.bytes.push_back(static_cast<char>(r.below(256)));
        }
        std::array<std::optional<float>, 3> v;
        if (decode(data, v)) {
            return;
        }
    }
    static char const* const kinds[] = {"restores", "fault_state_cut", "fault_state_foreign", "fault_state_garbage", "fault_state_empty"};
    count(kinds[fault]);
    bool cut = false;
    if (fault == 1) {
        std::array<std::optional<float>, 3> v;
        cut = decode(data, v);
    }
    for (int i = 0; i < 3 and (fault == 0 or cut); ++i) {
        begin_value(h, i, want[static_cast<std::size_t>(i)]);
        if (cut) {
            begin_value(h, i, 0.0F);
            begin_value(h, i, 1.0F);
        }
    }
    // exact size on the heap: reading past the end is seen
    auto copy = std::make_unique<char[]>(data.getSize());
    std::memcpy(copy.get(), data.getData(), data.getSize());
    {
        Lib l;
        h.pp->setStateInformation(copy.get(), static_cast<int>(data.getSize()));
    }
    if (cut) {
        // the rest of the data is lost: every parameter is legal, nothing else is promised
        for (int i = 0; i < 3; ++i) {
            auto const v = param(h, i).get();
            if (not(v >= 0.0F and v <= param_max[i])) {
                violation("parameter", "%s is %g after a damaged state", param_ids[i], static_cast<double>(v));
            }
            begin_value(h, i, v);
        }
    }
    settle(h);
    check_params(h, fault == 0 ? "after the state was restored" : "after data that is not a state of this plugin");
}

struct World
{
    std::map<std::pair<int, int>, Host> hosts;  // created before the tasks run
    StateWorld state;
};

void exec_state(StateWorld& sw, Host& h, Op const& op)
{
    if (op.kind == "v.new") {
        h      = Host{};
        h.kind = processor;
        jsim::t_has_any = false;
        {
            Lib l;
            h.pp = std::make_unique<neo::PluginProcessor>();
        }
        for (int i = 0; i < 3; ++i) {
            h.values[static_cast<std::size_t>(i)] = {1.0F};
        }
        settle(h);
        check_params(h, "in a new processor");
        return;
    }
    if (h.pp == nullptr) {
        return;
    }
    if (op.kind == "v.set") {
        // v.set slot param value%
        auto const i = static_cast<int>(std::clamp<i64>(op.at(1), 0, 2));
        auto const v = std::clamp(static_cast<float>(op.at(2)) / 1000.0F, 0.0F, param_max[i]);
        begin_value(h, i, v);
        {
            auto& p = param(h, i);
            Lib l;
            p.setValueNotifyingHost(p.convertTo0to1(v));
        }
        settle(h);
        check_params(h, "after it was set");
        count("sets");
    } else if (op.kind == "v.timer") {
        {
            Lib l;
            h.pp->getState().timerCallback();
        }
        check_params(h, "after a timer tick");
        count("timer_ticks");
    } else if (op.kind == "v.save") {
        do_save(sw, h, op);
    } else if (op.kind == "v.restore") {
        do_restore(sw, h, op);
    } else if (op.kind == "v.listen") {
        // v.listen slot who on
        auto& t = h.told[static_cast<std::size_t>(std::clamp<i64>(op.at(1), 0, 2))];
        t.on    = op.at(2) != 0;
        Lib l;
        if (t.on) {
            h.pp->addProcessSpecListener(&t);
        } else {
            h.pp->removeProcessSpecListener(&t);
        }
    }
}

void exec(World& w, int task, Op const& op)
{
    if (op.kind.rfind("v.", 0) == 0) {
        // these are shared by the tasks: slots are numbered over the whole run
        auto it = w.hosts.find({0, static_cast<int>(op.at(0))});
        if (it != w.hosts.end()) {
            exec_state(w.state, it->second, op);
        }
        return;
    }
    if (op.kind == "o.blocks") {
        do_blocks(op);
        return;
    }
    if (op.kind == "o.dense") {
        do_offline(op, false);
        return;
    }
    if (op.kind == "o.sparse") {
        do_offline(op, true);
        return;
    }
    if (op.kind == "o.file") {
        do_file(op);
        return;
    }
    auto it = w.hosts.find({task, static_cast<int>(op.at(0))});
    if (it == w.hosts.end()) {
        return;
    }
    auto& h = it->second;
    if (op.kind == "d.new") {
        // d.new slot kind ctorblock hopdiv
        h      = Host{};
        h.kind = static_cast<int>(std::clamp<i64>(op.at(1), 0, kinds - 1));
        jsim::t_has_any = false;
        auto const block = static_cast<int>(std::clamp<i64>(op.at(2), 2, 4096));
        Lib l;
        switch (h.kind) {
            case dense: h.d = std::make_unique<neo::DenseConvolution>(block); break;
            case cola: {
                int order = 0;
                while ((1 << order) < block) {
                    ++order;
                }
                auto const div = static_cast<int>(std::clamp<i64>(op.at(3), 0, order));
                h.hop          = (std::size_t(1) << order) >> div;
                h.p            = std::make_unique<Plain>(order, div);
                break;
            }
            case perceptual:
                h.state = std::make_unique<juce::AudioProcessorValueTreeState>(neo::createParameters());
                h.pc    = std::make_unique<neo::PerceptualConvolution>(*h.state);
                break;
            default: h.nc = std::make_unique<neo::Convolution>(); break;
        }
        h.m.frame = pow2_at_least(static_cast<std::size_t>(block));
    } else if (op.kind == "d.prepare") {
        do_prepare(h, op);
    } else if (op.kind == "d.process") {
        do_process(h, op);
    } else if (op.kind == "d.reset") {
        do_reset(h);
    } else if (op.kind == "d.load") {
        do_load(h, op);
    } else if (op.kind == "d.gain" and h.kind == perceptual) {
        // d.gain slot in% out% wet%
        h.in_gain  = static_cast<float>(op.at(1)) / 100.0F;
        h.out_gain = static_cast<float>(op.at(2)) / 100.0F;
        h.wet      = static_cast<float>(op.at(3)) / 100.0F;
        neo::getFloatParameter(*h.state, neo::ParamID::inGain)->value  = h.in_gain;
        neo::getFloatParameter(*h.state, neo::ParamID::outGain)->value = h.out_gain;
        neo::getFloatParameter(*h.state, neo::ParamID::wet)->value     = h.wet;
    }
}
void run_plug(Plan const& p)
{
    World w;
    for (auto const& op : p.ops) {
        if (op.kind == "d.new") {
            w.hosts[{op.task, static_cast<int>(op.at(0))}];
        }
        if (op.kind == "v.new") {
            w.hosts[{0, static_cast<int>(op.at(0))}];
        }
    }
    Plan rest = p;
    if (p.get("shared") == 1) {
        // instances used by several threads exist before the threads start
        rest.ops.clear();
        for (auto const& op : p.ops) {
            if (op.kind == "v.new") {
                exec(w, 0, op);
            } else {
                rest.ops.push_back(op);
            }
        }
    }
    run_tasks(rest, [&](int task, Op const& op) { exec(w, task, op); });
}

// ---------------------------------------------------------------- generators
i64 rate(Rng& r) { return r.pick<i64>({44100, 44100, 48000, 48000, 96000, 22050}); }
void gen_load(Rng& r, Plan& p, int t, int slot, std::size_t frame, bool faults)
{
    auto const len   = r.chance(0.6) ? r.range(1, static_cast<i64>(3 * frame)) : r.chance(0.3) ? r.range(1, 3) : r.range(1, 400);
    auto const fault = faults and r.chance(0.35) ? r.range(1, 4) : 0;
    p.add(t, "d.load", {slot, r.pick<i64>({1, 2, 2, 2, 3, r.range(1, 8)}), fault == 4 ? 0 : std::min<i64>(len, 1500), r.seed31(), static_cast<i64>(r.below(7)), rate(r), fault == 4 ? 0 : fault});
}
void gen_process(Rng& r, Plan& p, int t, int slot, std::size_t frame)
{
    auto const mode   = static_cast<i64>(r.below(5));
    auto const budget = static_cast<i64>(6 * frame + 40);
    auto blocks       = mode == 1 ? r.range(1, std::min<i64>(budget, 200)) : r.range(1, 14);
    p.add(t, "d.process", {slot, blocks, r.seed31(), r.chance(0.7) ? 0 : static_cast<i64>(r.below(ref::kind_count)), mode, static_cast<i64>(r.below(2)), static_cast<i64>(r.below(2)), r.pick<i64>({100, 100, 10, 400})});
}
i64 host_channels(Rng& r) { return r.chance(0.2) ? r.range(3, 8) : r.pick<i64>({1, 2, 2}); }
void gen_stream(Rng& r, Plan& p, int t, bool lifecycle, int steps)
{
    auto const kind  = r.chance(0.45) ? dense : static_cast<int>(r.below(kinds));
    auto const max0  = r.chance(0.75) ? r.range(2, 40) : r.range(2, r.chance(0.8) ? 150 : 600);
    auto const ctor  = r.chance(0.6) ? max0 : r.range(2, 150);
    p.add(t, "d.new", {0, kind, ctor, static_cast<i64>(r.below(4))});
    auto const sr    = rate(r);
    i64 maxb         = max0;
    auto const early = r.chance(0.7);
    auto const f     = pow2_at_least(static_cast<std::size_t>(kind == perceptual or kind == direct_conv ? maxb : ctor));
    if (early) {
        gen_load(r, p, t, 0, f, lifecycle);
    }
    p.add(t, "d.prepare", {0, sr, maxb, host_channels(r)});
    if (not early or r.chance(0.2)) {
        gen_load(r, p, t, 0, f, lifecycle);
    }
    for (int i = 0; i < steps; ++i) {
        gen_process(r, p, t, 0, f);
        auto const u = r.unit();
        if (kind == perceptual and r.chance(0.4)) {
            p.add(t, "d.gain", {0, r.pick<i64>({100, 0, 50, 400}), r.pick<i64>({100, 0, 50, 400}), r.pick<i64>({100, 100, 50, 30, 0})});
        }
        if (lifecycle) {
            if (u < 0.25) {
                p.add(t, "d.reset", {0});
            } else if (u < 0.5) {
                if (r.chance(0.5)) {
                    maxb = r.range(2, 100);
                }
                p.add(t, "d.prepare", {0, r.chance(0.7) ? sr : rate(r), maxb, host_channels(r)});
            } else if (u < 0.8) {
                gen_load(r, p, t, 0, f, true);
            }
        } else if (u < 0.15) {
            gen_load(r, p, t, 0, f, false);
        }
    }
}
Plan gen_host(Rng& r, bool lifecycle)
{
    Plan p;
    int const nt = r.chance(0.6) ? 1 : static_cast<int>(r.range(2, 3));
    for (int t = 0; t < nt; ++t) {
        gen_stream(r, p, t, lifecycle, static_cast<int>(r.range(1, lifecycle ? 7 : 4)));
    }
    if (nt > 1) {
        gen_preemptions(r, p, static_cast<int>(r.pick<i64>({4, 30, 100})), 8000);
    }
    return p;
}
Plan gen_c18(Rng& r, int) { return gen_host(r, false); }
Plan gen_c19(Rng& r, int) { return gen_host(r, true); }
Plan gen_c20(Rng& r, int)
{
    Plan p;
    int const nt = r.chance(0.7) ? 1 : static_cast<int>(r.range(2, 3));
    for (int t = 0; t < nt; ++t) {
        auto const n = r.range(1, 3);
        for (i64 i = 0; i < n; ++i) {
            if (r.chance(0.12)) {
                p.add(t, "o.file", {r.chance(0.1) ? r.range(4, 12) : r.range(1, 3), r.range(1, r.chance(0.8) ? 60 : 600), r.seed31(), rate(r), rate(r), r.chance(0.6) ? 0 : r.range(1, 4)});
                continue;
            }
            auto const block  = r.chance(0.8) ? i64(1) << r.range(1, 6) : i64(1) << r.range(1, 9);
            if (r.chance(0.12)) {
                p.add(t, "o.blocks", {static_cast<i64>(r.below(2)), r.pick<i64>({1, 2, 2}), r.chance(0.05) ? 0 : r.range(1, 6 * block), r.seed31(), r.chance(0.7) ? 0 : static_cast<i64>(r.below(ref::kind_count)), block, rate(r), r.range(1, 3), r.pick<i64>({1, 2, 2, 3}), r.chance(0.15) ? 0 : r.range(1, std::min<i64>(3 * block, 400)), r.seed31(), static_cast<i64>(r.below(7)), rate(r)});
                continue;
            }
            auto const sparse = r.chance(0.4);
            p.add(t, sparse ? "o.sparse" : "o.dense", {static_cast<i64>(r.below(5)), r.pick<i64>({1, 2, 2}), r.chance(0.05) ? 0 : r.range(1, r.chance(0.7) ? 5 * block : 900), r.seed31(), r.chance(0.7) ? 0 : static_cast<i64>(r.below(ref::kind_count)), r.pick<i64>({1, 2, 2, 3}), r.range(1, r.chance(0.7) ? 4 * block : 300), static_cast<i64>(sparse and r.chance(0.3) ? 7 : r.below(7)), block, r.chance(0.5) ? 0 : r.range(1, 8), r.chance(0.2) ? -9000 : r.chance(0.1) ? 3000 : r.range(-900, 50), rate(r)});
        }
    }
    if (nt > 1) {
        gen_preemptions(r, p, static_cast<int>(r.pick<i64>({4, 30, 100})), 8000);
    }
    return p;
}
Register const r18{"C18", gen_c18, run_plug};
Register const r19{"C19", gen_c19, run_plug};
void gen_set(Rng& r, Plan& p, int t, int slot)
{
    auto const i = static_cast<i64>(r.below(3));
    p.add(t, "v.set", {slot, i, r.chance(0.15) ? 0 : r.chance(0.15) ? 1000 : r.range(1, i == 2 ? 1000 : 4000)});
}
Plan gen_c21(Rng& r, int)
{
    Plan p;
    if (r.chance(0.6)) {
        // one host thread: sessions over up to three instances, with audio
        int const slots = static_cast<int>(r.range(1, 3));
        for (int s = 0; s < slots; ++s) {
            p.add(0, "v.new", {s});
        }
        auto const steps = r.range(3, 25);
        int saved        = 0;
        i64 maxb         = r.range(2, 40);
        for (i64 k = 0; k < steps; ++k) {
            auto const s = static_cast<int>(r.below(static_cast<u64>(slots)));
            auto const u = r.unit();
            if (u < 0.3) {
                gen_set(r, p, 0, s);
            } else if (u < 0.4) {
                p.add(0, "v.timer", {s});
            } else if (u < 0.55) {
                p.add(0, "v.save", {s, saved++});
            } else if (u < 0.75) {
                auto const f = r.chance(0.7) ? 0 : r.range(1, 4);
                if (saved > 0 or f > 1) {
                    p.add(0, "v.restore", {s, saved > 0 ? static_cast<i64>(r.below(static_cast<u64>(saved))) : 0, f, r.seed31()});
                }
            } else if (u < 0.8) {
                p.add(0, "v.listen", {s, static_cast<i64>(r.below(3)), static_cast<i64>(r.below(3)) > 0 ? 1 : 0});
            } else if (u < 0.9) {
                if (r.chance(0.3)) {
                    maxb = r.range(2, 60);
                }
                if (r.chance(0.5)) {
                    gen_load(r, p, 0, s, pow2_at_least(static_cast<std::size_t>(maxb)), true);
                }
                auto const ch = r.pick<i64>({1, 2, 2, 2, 3});
                p.add(0, "d.prepare", {s, rate(r), maxb, ch, r.chance(0.8) ? ch : r.range(1, 3)});
            } else if (u < 0.93) {
                p.add(0, "d.reset", {s});
            } else {
                gen_process(r, p, 0, s, static_cast<std::size_t>(maxb));
            }
        }
        return p;
    }
    // several threads: the message thread moves parameters, ticks the timer and restores; others save
    p.cfg["shared"] = 1;
    p.add(0, "v.new", {0});
    int saved = 0;
    for (auto k = r.range(2, 14); k > 0; --k) {
        auto const u = r.unit();
        if (u < 0.55) {
            gen_set(r, p, 0, 0);
        } else if (u < 0.75) {
            p.add(0, "v.timer", {0});
        } else if (u < 0.9) {
            p.add(0, "v.save", {0, saved++});
        } else {
            auto const f = r.chance(0.8) ? 0 : r.range(1, 4);
            p.add(0, "v.restore", {0, static_cast<i64>(r.below(static_cast<u64>(saved + 1))), f, r.seed31()});
        }
    }
    for (int t = 1, nt = static_cast<int>(r.range(1, 2)); t <= nt; ++t) {
        for (auto k = r.range(1, 6); k > 0; --k) {
            p.add(t, "v.save", {0, 100 * t + k});
        }
    }
    gen_preemptions(r, p, static_cast<int>(r.pick<i64>({4, 20, 60})), r.pick<u64>({30, 200, 1000}));
    return p;
}
Register const r21{"C21", gen_c21, run_plug};
Register const r20{"C20", gen_c20, run_plug};
}  // namespace
