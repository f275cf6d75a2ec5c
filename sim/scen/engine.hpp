// Type-erased access to neo's streaming convolution engines.
#pragma once
#include "ref.hpp"

#include <memory>
#include <string>
#include <vector>

struct FilterSpec
{
    int block{2};
    int segs{1};
    ref::vec h;                // time domain taps, at most segs*block, more than (segs-1)*block
    int source{0};             // 0: spectra computed by the harness, 1: by neo's uniform_partition
    int layout{0};             // 0 right, 1 left, 2 padded rows, 3 reversed? (unused)
    std::vector<char> mask;    // sparse engines: kept bins (empty: all)
    bool poison{false};        // every bin NaN
    ref::cvec spectrum(int seg) const
    {
        ref::vec part;
        for (int i = 0; i < block; ++i) {
            auto const k = static_cast<std::size_t>(seg) * static_cast<std::size_t>(block) + static_cast<std::size_t>(i);
            part.push_back(k < h.size() ? h[k] : 0.0);
        }
        return ref::rfft(part, static_cast<std::size_t>(block) * 2);
    }
};

struct IEngine
{
    virtual ~IEngine()                                                = default;
    virtual void load(FilterSpec const& f)                            = 0;
    virtual void process(double* io, std::size_t n, int view)         = 0;
    virtual std::unique_ptr<IEngine> clone() const                    = 0;
    virtual std::unique_ptr<IEngine> take()                           = 0;
    virtual void assign(IEngine const& o)                             = 0;
    virtual void assign_move(IEngine& o)                              = 0;
};

enum Method
{
    OLS,
    OLA,
    V2
};
enum Quant
{
    Q_NONE,
    Q_F16,
    Q_I16,
    Q_I8
};

struct EngineInfo
{
    char const* name;
    Method method;
    bool sparse;
    Quant quant;
    double eps;
    std::unique_ptr<IEngine> (*make)();
};
std::vector<EngineInfo>& engines();
struct EngineReg
{
    EngineReg(EngineInfo const& e);
};
EngineInfo const& engine_named(std::string const& n);
