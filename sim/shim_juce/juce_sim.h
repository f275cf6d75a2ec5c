// JUCE stand-in: the audio containers with JUCE's documented semantics (setSize leaves memory uninitialised, clear flags
// do not matter to the result), a simulated disk behind File/AudioFormatReader, a deterministic resampler.
#pragma once
#include <algorithm>
#include <array>
#include <atomic>
#include <cassert>
#include <chrono>
#include <cmath>
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <deque>
#include <functional>
#include <limits>
#include <map>
#include <memory>
#include <mutex>
#include <numbers>
#include <numeric>
#include <optional>
#include <string>
#include <utility>
#include <vector>

namespace jsim {
struct Whole  // no other task runs while one exists (JUCE guards its own queues with locks)
{
    Whole();
    ~Whole();
    bool prev;
};
void assertion(char const* what);  // jassert that did not hold (a debug aid in JUCE, not a failure)
struct Wav
{
    std::vector<std::vector<float>> channels;
    double rate{44100.0};
    bool can_open{true};
    bool good_header{true};
    bool can_read{true};
};
bool exists(std::string const& path);
Wav& file(std::string const& path);
bool create(std::string const& path);
bool remove(std::string const& path);
bool make_directory(std::string const& path);
bool has_directory(std::string const& path);
std::vector<double> convolve(std::vector<double> const& x, std::vector<double> const& h, std::size_t from);
bool write(std::string const& path, std::vector<std::vector<float>> const& v, double rate);
}  // namespace jsim

#define jassert(x)                                                                                                     \
    do {                                                                                                               \
        if (not(x)) {                                                                                                  \
            ::jsim::assertion(#x);                                                                                     \
        }                                                                                                              \
    } while (false)
#define jassertquiet(x) jassert(x)
#define jassertfalse jassert(false)
#define DBG(x)
#define JUCE_CALLTYPE
#define JUCE_DECLARE_NON_COPYABLE_WITH_LEAK_DETECTOR(x)
#define JUCE_DECLARE_NON_COPYABLE(x)
#define JUCE_DECLARE_NON_MOVEABLE(x)
#define JUCE_LEAK_DETECTOR(x)
#define JUCE_ASSERT_MESSAGE_THREAD
#define TRANS(x) ::juce::String(x)

namespace juce {
using uint8  = std::uint8_t;
using int8   = std::int8_t;
using uint16 = std::uint16_t;
using int16  = std::int16_t;
using uint32 = std::uint32_t;
using int32  = std::int32_t;
using uint64 = std::uint64_t;
using int64  = std::int64_t;

template<typename... T>
void ignoreUnused(T const&...)
{}
template<typename T>
constexpr bool exactlyEqual(T a, T b)
{
    return a == b;
}
template<typename T>
constexpr bool approximatelyEqual(T a, T b)
{
    return std::abs(a - b) <= std::max(std::numeric_limits<T>::min(), std::numeric_limits<T>::epsilon() * std::max(std::abs(a), std::abs(b)));
}
template<typename T>
constexpr T jmax(T a, T b)
{
    return a < b ? b : a;
}
template<typename T>
constexpr T jmin(T a, T b)
{
    return b < a ? b : a;
}
template<typename T>
constexpr T jmax(T a, T b, T c, T d)
{
    return std::max({a, b, c, d});
}
template<typename T>
constexpr T jmin(T a, T b, T c, T d)
{
    return std::min({a, b, c, d});
}
template<typename T>
constexpr bool isWithin(T a, T b, T tolerance)
{
    return std::abs(a - b) <= tolerance;
}
template<typename T, std::size_t N>
constexpr int numElementsInArray(T (&)[N])
{
    return static_cast<int>(N);
}
template<typename T>
void zeromem(T* p, std::size_t n)
{
    std::memset(p, 0, n);
}
template<typename T>
T negativeAwareModulo(T a, T b)
{
    a %= b;
    return a < 0 ? a + b : a;
}
struct Decibels
{
    template<typename T>
    static T gainToDecibels(T g, T floor = T(-100))
    {
        return g > T(0) ? std::max(floor, static_cast<T>(std::log10(g)) * T(20)) : floor;
    }
    template<typename T>
    static T decibelsToGain(T d, T floor = T(-100))
    {
        return d > floor ? std::pow(T(10), d * T(0.05)) : T(0);
    }
};
template<typename T>
constexpr T jmax(T a, T b, T c)
{
    return jmax(a, jmax(b, c));
}
template<typename T>
constexpr T jmin(T a, T b, T c)
{
    return jmin(a, jmin(b, c));
}
template<typename T>
constexpr T square(T v)
{
    return v * v;
}
template<typename T>
struct MathConstants
{
    static constexpr T pi     = std::numbers::pi_v<T>;
    static constexpr T twoPi  = T(2) * std::numbers::pi_v<T>;
    static constexpr T halfPi = std::numbers::pi_v<T> / T(2);
    static constexpr T sqrt2  = std::numbers::sqrt2_v<T>;
};
template<typename T>
struct Range
{
    Range() = default;
    Range(T a, T b) : _a{a}, _b{std::max(a, b)} {}
    T getStart() const { return _a; }
    T getEnd() const { return _b; }
    T getLength() const { return _b - _a; }
    bool isEmpty() const { return _a == _b; }
    bool contains(T v) const { return _a <= v and v < _b; }
    T _a{}, _b{};
};
template<typename T>
constexpr T jlimit(T lo, T hi, T v)
{
    return v < lo ? lo : (hi < v ? hi : v);
}
template<typename T>
constexpr T jmap(T v, T c, T d)
{
    return c + v * (d - c);
}
template<typename T>
constexpr T jmap(T v, T a, T b, T c, T d)
{
    return c + (d - c) * (v - a) / (b - a);
}
template<typename T>
int roundToInt(T v)
{
    return static_cast<int>(std::nearbyint(static_cast<double>(v)));
}
template<typename T>
constexpr bool isPowerOfTwo(T v)
{
    return (v & (v - 1)) == 0;
}
inline int nextPowerOfTwo(int n)
{
    int r = 1;
    while (r < n) {
        r *= 2;
    }
    return r;
}
template<typename A, typename B>
constexpr bool isPositiveAndNotGreaterThan(A v, B upper)
{
    return A() <= v and v <= static_cast<A>(upper);
}
template<typename A, typename B>
constexpr bool isPositiveAndBelow(A v, B upper)
{
    return A() <= v and v < static_cast<A>(upper);
}

struct String : std::string
{
    String() = default;
    String(char const* s) : std::string{s} {}
    String(std::string s) : std::string{std::move(s)} {}
    explicit String(int v) : std::string{std::to_string(v)} {}
    explicit String(unsigned v) : std::string{std::to_string(v)} {}
    explicit String(long v) : std::string{std::to_string(v)} {}
    explicit String(unsigned long v) : std::string{std::to_string(v)} {}
    explicit String(long long v) : std::string{std::to_string(v)} {}
    explicit String(unsigned long long v) : std::string{std::to_string(v)} {}
    explicit String(double v) : String{v, 10} {}
    explicit String(float v) : String{static_cast<double>(v)} {}
    String(double v, int places)
    {
        char b[400];
        std::snprintf(b, sizeof b, "%.*f", places, v);
        assign(b);
    }
    String(float v, int places) : String{static_cast<double>(v), places} {}
    bool isEmpty() const { return empty(); }
    bool isNotEmpty() const { return not empty(); }
    String const& toString() const { return *this; }
    std::string toStdString() const { return *this; }
    char const* toRawUTF8() const { return c_str(); }
    char const* toUTF8() const { return c_str(); }
    int length() const { return static_cast<int>(size()); }
    bool contains(std::string const& o) const { return find(o) != npos; }
    bool startsWith(std::string const& o) const { return rfind(o, 0) == 0; }
    bool endsWith(std::string const& o) const { return size() >= o.size() and compare(size() - o.size(), o.size(), o) == 0; }
    String substring(int a) const { return a >= length() ? String{} : String{substr(static_cast<std::size_t>(std::max(0, a)))}; }
    String substring(int a, int b) const { return b <= a or a >= length() ? String{} : String{substr(static_cast<std::size_t>(std::max(0, a)), static_cast<std::size_t>(b - std::max(0, a)))}; }
    String replace(std::string const& a, std::string const& b) const
    {
        std::string r = *this;
        for (std::size_t p = 0; not a.empty() and (p = r.find(a, p)) != npos; p += b.size()) {
            r.std::string::replace(p, a.size(), b);
        }
        return String{r};
    }
    String quoted() const { return String{"\"" + *this + "\""}; }
    String paddedLeft(char c, int n) const { return String{std::string(static_cast<std::size_t>(std::max(0, n - length())), c) + *this}; }
    String paddedRight(char c, int n) const { return String{*this + std::string(static_cast<std::size_t>(std::max(0, n - length())), c)}; }
    int getIntValue() const { return std::atoi(c_str()); }
    float getFloatValue() const { return static_cast<float>(std::atof(c_str())); }
    double getDoubleValue() const { return std::atof(c_str()); }
    template<typename... A>
    static String formatted(char const* f, A... a)
    {
        char b[1000];
        std::snprintf(b, sizeof b, f, a...);
        return String{b};
    }
    template<typename... A>
    static String formatted(std::string const& f, A... a)
    {
        return formatted(f.c_str(), a...);
    }
    static String repeatedString(std::string const& t, int n)
    {
        String r;
        for (int i = 0; i < n; ++i) {
            r += t;
        }
        return r;
    }
};
inline String& operator<<(String& s, std::string const& o)
{
    s += o;
    return s;
}
inline String& operator<<(String& s, char const* o)
{
    s += o;
    return s;
}
inline String& operator<<(String& s, char o)
{
    s += o;
    return s;
}
template<typename T>
    requires(std::is_arithmetic_v<T> and not std::is_same_v<T, char>)
String& operator<<(String& s, T v)
{
    s += String(v);
    return s;
}
inline char const* const newLine = "\n";
template<typename T>
struct Array
{
    Array() = default;
    Array(std::initializer_list<T> l) : v{l} {}
    Array(T const* p, int n) : v(p, p + n) {}
    void add(T x) { v.push_back(std::move(x)); }
    template<typename... R>
        requires(sizeof...(R) > 0)
    void add(T x, R... r)
    {
        add(std::move(x));
        add(std::move(r)...);
    }
    template<typename C>
    void addArray(C const& o)
    {
        v.insert(v.end(), o.begin(), o.end());
    }
    void addIfNotAlreadyThere(T const& x)
    {
        if (not contains(x)) {
            add(x);
        }
    }
    void insert(int i, T x) { v.insert(i < 0 or i > size() ? v.end() : v.begin() + i, std::move(x)); }
    void set(int i, T x)
    {
        if (i >= 0 and i < size()) {
            v[static_cast<std::size_t>(i)] = std::move(x);
        } else if (i >= 0) {
            add(std::move(x));
        }
    }
    void clear() { v.clear(); }
    void clearQuick() { v.clear(); }
    void resize(int n) { v.resize(static_cast<std::size_t>(n)); }
    void ensureStorageAllocated(int n) { v.reserve(static_cast<std::size_t>(n)); }
    void remove(int i)
    {
        if (i >= 0 and i < size()) {
            v.erase(v.begin() + i);
        }
    }
    void removeFirstMatchingValue(T const& x)
    {
        if (auto i = std::find(v.begin(), v.end(), x); i != v.end()) {
            v.erase(i);
        }
    }
    void removeAllInstancesOf(T const& x) { std::erase(v, x); }
    int indexOf(T const& x) const
    {
        auto const i = std::find(v.begin(), v.end(), x);
        return i == v.end() ? -1 : static_cast<int>(i - v.begin());
    }
    T getFirst() const { return (*this)[0]; }
    T getLast() const { return (*this)[size() - 1]; }
    T getUnchecked(int i) const { return v[static_cast<std::size_t>(i)]; }
    T& getReference(int i) { return v[static_cast<std::size_t>(i)]; }
    T const& getReference(int i) const { return v[static_cast<std::size_t>(i)]; }
    T* data() { return v.data(); }
    T const* data() const { return v.data(); }
    T* getRawDataPointer() { return v.data(); }
    bool isEmpty() const { return v.empty(); }
    int size() const { return static_cast<int>(v.size()); }
    bool contains(T const& x) const { return std::find(v.begin(), v.end(), x) != v.end(); }
    T operator[](int i) const { return i >= 0 and i < size() ? v[static_cast<std::size_t>(i)] : T(); }
    auto begin() const { return v.begin(); }
    auto end() const { return v.end(); }
    auto begin() { return v.begin(); }
    auto end() { return v.end(); }
    bool operator==(Array const& o) const { return v == o.v; }
    std::vector<T> v;
};
struct StringArray : Array<String>
{
    StringArray() = default;
    StringArray(std::initializer_list<char const*> l)
    {
        for (auto const* s : l) {
            add(String(s));
        }
    }
    StringArray(std::initializer_list<String> l) : Array<String>{l} {}
    String joinIntoString(std::string const& sep, int start = 0, int n = -1) const
    {
        String r;
        for (int i = std::max(0, start); i < size() and (n < 0 or i < start + n); ++i) {
            r += (i > std::max(0, start) ? sep : std::string{}) + v[static_cast<std::size_t>(i)];
        }
        return r;
    }
    static StringArray fromLines(std::string const& t)
    {
        StringArray r;
        std::size_t p = 0;
        while (p < t.size()) {
            auto const e = std::min(t.find('\n', p), t.size());
            r.add(String(t.substr(p, e - p)));
            p = e + 1;
        }
        return r;
    }
};
struct Result
{
    static Result ok() { return {}; }
    static Result fail(String const& m) { return {m}; }
    bool failed() const { return not message.empty(); }
    bool wasOk() const { return message.empty(); }
    explicit operator bool() const { return wasOk(); }
    bool operator!() const { return failed(); }
    String getErrorMessage() const { return message; }
    String message;
};
struct StringRef : std::string
{
    StringRef(char const* s) : std::string{s} {}
    StringRef(std::string s) : std::string{std::move(s)} {}
};

struct FloatVectorOperations
{
    template<typename T>
    static void copy(T* d, T const* s, int n)
    {
        for (int i = 0; i < n; ++i) {
            d[i] = s[i];
        }
    }
    template<typename T>
    static void clear(T* d, int n)
    {
        for (int i = 0; i < n; ++i) {
            d[i] = T(0);
        }
    }
    template<typename T>
    static void add(T* d, T const* a, T const* b, int n)
    {
        for (int i = 0; i < n; ++i) {
            d[i] = a[i] + b[i];
        }
    }
    template<typename T>
    static void subtract(T* d, T const* s, int n)
    {
        for (int i = 0; i < n; ++i) {
            d[i] -= s[i];
        }
    }
    template<typename T>
    static void multiply(T* d, T const* s, std::type_identity_t<T> v, int n)
    {
        for (int i = 0; i < n; ++i) {
            d[i] = s[i] * v;
        }
    }
    template<typename T>
    static void addWithMultiply(T* d, T const* a, T const* b, int n)
    {
        for (int i = 0; i < n; ++i) {
            d[i] += a[i] * b[i];
        }
    }
    template<typename T>
    static void negate(T* d, T const* s, int n)
    {
        for (int i = 0; i < n; ++i) {
            d[i] = -s[i];
        }
    }
    template<typename T>
    static void abs(T* d, T const* s, int n)
    {
        for (int i = 0; i < n; ++i) {
            d[i] = std::abs(s[i]);
        }
    }
    template<typename T>
    static T findMinimum(T const* s, int n)
    {
        return n > 0 ? *std::min_element(s, s + n) : T(0);
    }
    template<typename T>
    static T findMaximum(T const* s, int n)
    {
        return n > 0 ? *std::max_element(s, s + n) : T(0);
    }
    template<typename T>
    static Range<T> findMinAndMax(T const* s, int n)
    {
        return {findMinimum(s, n), findMaximum(s, n)};
    }
    template<typename T>
    static void fill(T* d, std::type_identity_t<T> v, int n)
    {
        for (int i = 0; i < n; ++i) {
            d[i] = v;
        }
    }
    template<typename T>
    static void add(T* d, T const* s, int n)
    {
        for (int i = 0; i < n; ++i) {
            d[i] += s[i];
        }
    }
    template<typename T>
    static void add(T* d, std::type_identity_t<T> v, int n)
    {
        for (int i = 0; i < n; ++i) {
            d[i] += v;
        }
    }
    template<typename T>
    static void multiply(T* d, T const* s, int n)
    {
        for (int i = 0; i < n; ++i) {
            d[i] *= s[i];
        }
    }
    template<typename T>
    static void multiply(T* d, T const* a, T const* b, int n)
    {
        for (int i = 0; i < n; ++i) {
            d[i] = a[i] * b[i];
        }
    }
    template<typename T>
    static void multiply(T* d, std::type_identity_t<T> v, int n)
    {
        for (int i = 0; i < n; ++i) {
            d[i] *= v;
        }
    }
    template<typename T>
    static void copyWithMultiply(T* d, T const* s, std::type_identity_t<T> v, int n)
    {
        for (int i = 0; i < n; ++i) {
            d[i] = s[i] * v;
        }
    }
    template<typename T>
    static void addWithMultiply(T* d, T const* s, std::type_identity_t<T> v, int n)
    {
        for (int i = 0; i < n; ++i) {
            d[i] += s[i] * v;
        }
    }
};

template<typename T>
class AudioBuffer
{
public:
    AudioBuffer() = default;
    AudioBuffer(int ch, int n) { allocate(ch, n); }
    AudioBuffer(T* const* data, int ch, int n) : _ch{ch}, _n{n}, _ptr(data, data + ch) {}
    AudioBuffer(AudioBuffer const& o) { *this = o; }
    AudioBuffer(AudioBuffer&& o) noexcept { *this = std::move(o); }
    AudioBuffer& operator=(AudioBuffer const& o)
    {
        if (this != &o) {
            setSize(o._ch, o._n);
            for (int c = 0; c < _ch; ++c) {
                std::copy_n(o._ptr[static_cast<std::size_t>(c)], _n, _ptr[static_cast<std::size_t>(c)]);
            }
        }
        return *this;
    }
    AudioBuffer& operator=(AudioBuffer&& o) noexcept
    {
        _ch  = std::exchange(o._ch, 0);
        _n   = std::exchange(o._n, 0);
        _mem = std::move(o._mem);
        _ptr = std::move(o._ptr);
        o._mem.clear();
        o._ptr.clear();
        return *this;
    }
    int getNumChannels() const noexcept { return _ch; }
    int getNumSamples() const noexcept { return _n; }
    T const* getReadPointer(int c) const { return at(c, 0); }
    T const* getReadPointer(int c, int i) const { return at(c, i); }
    T* getWritePointer(int c) { return at(c, 0); }
    T* getWritePointer(int c, int i) { return at(c, i); }
    T const* const* getArrayOfReadPointers() const { return const_cast<T const* const*>(_ptr.data()); }
    T* const* getArrayOfWritePointers() { return _ptr.data(); }
    T getSample(int c, int i) const { return *at(c, i); }
    void setSample(int c, int i, T v) { *at(c, i) = v; }
    void addSample(int c, int i, T v) { *at(c, i) += v; }
    void setSize(int ch, int n, bool keep = false, bool clearExtra = false, bool avoid = false)
    {
        ignoreUnused(avoid);
        if (ch == _ch and n == _n and not _mem.empty()) {
            return;  // like JUCE: nothing happens, the old samples stay
        }
        auto old = std::move(*this);
        allocate(ch, n);
        if (keep or clearExtra) {
            clear();
        }
        if (keep) {
            for (int c = 0; c < std::min(ch, old._ch); ++c) {
                std::copy_n(old._ptr[static_cast<std::size_t>(c)], std::min(n, old._n), _ptr[static_cast<std::size_t>(c)]);
            }
        }
    }
    void makeCopyOf(AudioBuffer const& o, bool = false) { *this = o; }
    void clear()
    {
        for (int c = 0; c < _ch; ++c) {
            clear(c, 0, _n);
        }
    }
    void clear(int start, int n)
    {
        for (int c = 0; c < _ch; ++c) {
            clear(c, start, n);
        }
    }
    void clear(int c, int start, int n) { FloatVectorOperations::clear(at(c, start), n); }
    void applyGain(T g)
    {
        for (int c = 0; c < _ch; ++c) {
            applyGain(c, 0, _n, g);
        }
    }
    void applyGain(int start, int n, T g)
    {
        for (int c = 0; c < _ch; ++c) {
            applyGain(c, start, n, g);
        }
    }
    void applyGain(int c, int start, int n, T g) { FloatVectorOperations::multiply(at(c, start), g, n); }
    void addFrom(int c, int start, AudioBuffer const& s, int sc, int ss, int n, T g = T(1))
    {
        FloatVectorOperations::addWithMultiply(at(c, start), s.at(sc, ss), g, n);
    }
    void addFrom(int c, int start, T const* s, int n, T g = T(1)) { FloatVectorOperations::addWithMultiply(at(c, start), s, g, n); }
    void copyFrom(int c, int start, AudioBuffer const& s, int sc, int ss, int n) { FloatVectorOperations::copy(at(c, start), s.at(sc, ss), n); }
    void copyFrom(int c, int start, T const* s, int n) { FloatVectorOperations::copy(at(c, start), s, n); }
    void copyFrom(int c, int start, T const* s, int n, T g) { FloatVectorOperations::copyWithMultiply(at(c, start), s, g, n); }
    T getMagnitude(int c, int start, int n) const
    {
        T m = 0;
        for (int i = 0; i < n; ++i) {
            m = std::max(m, std::abs(*at(c, start + i)));
        }
        return m;
    }
    T getRMSLevel(int c, int start, int n) const
    {
        double s = 0;
        for (int i = 0; i < n; ++i) {
            s += static_cast<double>(*at(c, start + i)) * static_cast<double>(*at(c, start + i));
        }
        return n > 0 ? static_cast<T>(std::sqrt(s / n)) : T(0);
    }
    Range<T> findMinMax(int c, int start, int n) const { return FloatVectorOperations::findMinAndMax(static_cast<T const*>(at(c, start)), n); }
    void applyGainRamp(int c, int start, int n, T a, T b)
    {
        for (int i = 0; i < n; ++i) {
            *at(c, start + i) *= a + (b - a) * static_cast<T>(i) / static_cast<T>(n);
        }
    }
    void applyGainRamp(int start, int n, T a, T b)
    {
        for (int c = 0; c < _ch; ++c) {
            applyGainRamp(c, start, n, a, b);
        }
    }
    void reverse(int c, int start, int n) { std::reverse(at(c, start), at(c, start) + n); }
    void reverse(int start, int n)
    {
        for (int c = 0; c < _ch; ++c) {
            reverse(c, start, n);
        }
    }
    void setDataToReferTo(T* const* d, int ch, int n) { *this = AudioBuffer(d, ch, n); }
    bool operator==(AudioBuffer const& o) const
    {
        if (_ch != o._ch or _n != o._n) {
            return false;
        }
        for (int c = 0; c < _ch; ++c) {
            if (not std::equal(at(c, 0), at(c, 0) + _n, o.at(c, 0))) {
                return false;
            }
        }
        return true;
    }
    void setNotClear() {}
    bool hasBeenCleared() const { return false; }
    T getMagnitude(int start, int n) const
    {
        T m = 0;
        for (int c = 0; c < _ch; ++c) {
            m = std::max(m, getMagnitude(c, start, n));
        }
        return m;
    }

private:
    void allocate(int ch, int n)
    {
        _ch = ch;
        _n  = n;
        _mem.clear();
        _ptr.clear();
        for (int c = 0; c < ch; ++c) {
            // one block per channel, nothing behind its end; uninitialised like JUCE's
            _mem.push_back(std::unique_ptr<T[]>(new T[static_cast<std::size_t>(n)]));
            std::fill_n(_mem.back().get(), n, T(1e30));
            _ptr.push_back(_mem.back().get());
        }
    }
    T* at(int c, int i) const
    {
        if (c < 0 or c >= _ch or i < 0 or i > _n) {
            std::fprintf(stderr, "SIM-BOUNDS AudioBuffer channel %d of %d, sample %d of %d\n", c, _ch, i, _n);
            std::abort();
        }
        return _ptr[static_cast<std::size_t>(c)] + i;
    }
    int _ch{0}, _n{0};
    std::vector<std::unique_ptr<T[]>> _mem;
    std::vector<T*> _ptr;
};

// ------------------------------------------------------------------------------------------------------- sources
struct AudioSourceChannelInfo
{
    AudioBuffer<float>* buffer{};
    int startSample{};
    int numSamples{};
};
struct AudioSource
{
    virtual ~AudioSource() = default;
    virtual void prepareToPlay(int, double) {}
    virtual void releaseResources() {}
    virtual void getNextAudioBlock(AudioSourceChannelInfo const&) = 0;
};
struct MemoryAudioSource : AudioSource
{
    MemoryAudioSource(AudioBuffer<float>& b, bool copy, bool loop = false) : _b{b} { ignoreUnused(copy, loop); }
    void getNextAudioBlock(AudioSourceChannelInfo const& info) override
    {
        for (int i = 0; i < info.numSamples; ++i, ++_pos) {
            for (int c = 0; c < info.buffer->getNumChannels(); ++c) {
                auto const v = _pos < _b.getNumSamples() and c < _b.getNumChannels() ? _b.getSample(c, _pos) : 0.0F;
                info.buffer->setSample(c, info.startSample + i, v);
            }
        }
    }
    AudioBuffer<float>& _b;
    int _pos{0};
};
struct ResamplingAudioSource : AudioSource
{
    ResamplingAudioSource(AudioSource* src, bool, int channels = 2) : _src{src}, _ch{channels} {}
    void setResamplingRatio(double r) { _ratio = r; }
    void getNextAudioBlock(AudioSourceChannelInfo const& info) override
    {
        // linear interpolation, first sample at position 0
        auto const need = static_cast<int>(std::ceil(static_cast<double>(info.numSamples) * _ratio)) + 2;
        AudioBuffer<float> in(_ch, need);
        _src->getNextAudioBlock({&in, 0, need});
        for (int i = 0; i < info.numSamples; ++i) {
            auto const pos = static_cast<double>(i) * _ratio;
            auto const k   = static_cast<int>(pos);
            auto const f   = static_cast<float>(pos - k);
            for (int c = 0; c < _ch; ++c) {
                info.buffer->setSample(c, info.startSample + i, in.getSample(c, k) * (1.0F - f) + in.getSample(c, k + 1) * f);
            }
        }
    }
    AudioSource* _src;
    int _ch;
    double _ratio{1.0};
};

// ------------------------------------------------------------------------------------------------------- files
struct InputStream
{
    virtual ~InputStream() = default;
    std::string path;
};
struct FileInputStream : InputStream
{};
struct OutputStream
{
    virtual ~OutputStream() = default;
};
struct FileOutputStream : OutputStream
{
    bool openedOk() const { return true; }
    bool failedToOpen() const { return false; }
    std::string path;
};
struct File
{
    File() = default;
    File(char const* p) : path{p} {}
    File(std::string p) : path{std::move(p)} {}
    std::unique_ptr<FileInputStream> createInputStream() const
    {
        if (not existsAsFile() or not jsim::file(path).can_open) {
            return nullptr;
        }
        auto s  = std::make_unique<FileInputStream>();
        s->path = path;
        return s;
    }
    std::unique_ptr<FileOutputStream> createOutputStream() const
    {
        if (not jsim::create(path)) {
            return nullptr;
        }
        auto s  = std::make_unique<FileOutputStream>();
        s->path = path;
        return s;
    }
    bool existsAsFile() const { return jsim::exists(path); }
    bool exists() const { return existsAsFile() or isDirectory(); }
    bool isDirectory() const { return jsim::has_directory(path); }
    bool operator==(File const& o) const { return path == o.path; }
    bool operator<(File const& o) const { return path < o.path; }
    bool hasWriteAccess() const { return true; }
    bool isRoot() const { return path == "/"; }
    String getFileName() const { return String(path.substr(path.find_last_of('/') + 1)); }
    String getFileNameWithoutExtension() const
    {
        auto const n = getFileName();
        return String(n.substr(0, n.find_last_of('.')));
    }
    String getFullPathName() const { return String(path); }
    String getFileExtension() const
    {
        auto const n = getFileName();
        auto const p = n.find_last_of('.');
        return p == std::string::npos ? String() : String(n.substr(p));
    }
    bool hasFileExtension(String const& e) const { return getFileExtension() == e or getFileExtension() == String("." + e); }
    File getParentDirectory() const { return File{path.substr(0, path.find_last_of('/'))}; }
    File getSiblingFile(String const& n) const { return getParentDirectory().getChildFile(n); }
    File withFileExtension(String const& e) const
    {
        return File{path.substr(0, path.size() - getFileExtension().size()) + (e.empty() or e[0] == '.' ? "" : ".") + e};
    }
    File getNonexistentSibling(bool b = true) const
    {
        return exists() ? getParentDirectory().getNonexistentChildFile(getFileNameWithoutExtension(), getFileExtension(), b) : *this;
    }
    bool deleteFile() const { return jsim::remove(path); }
    int64 getSize() const { return existsAsFile() and not jsim::file(path).channels.empty() ? static_cast<int64>(44 + jsim::file(path).channels.size() * jsim::file(path).channels[0].size() * 4) : 0; }
    enum SpecialLocationType
    {
        userHomeDirectory,
        userDocumentsDirectory,
        userDesktopDirectory,
        userMusicDirectory,
        tempDirectory
    };
    static File getSpecialLocation(SpecialLocationType) { return File{"/home/music"}; }
    File getChildFile(String const& n) const { return File{path + "/" + n}; }
    Result createDirectory() const { return jsim::make_directory(path) ? Result::ok() : Result::fail("refused"); }
    File getNonexistentChildFile(String const& prefix, String const& suffix, bool = true) const
    {
        auto f = getChildFile(String(prefix + suffix));
        for (int i = 2; f.exists(); ++i) {
            f = getChildFile(String(prefix + " (" + std::to_string(i) + ")" + suffix));
        }
        return f;
    }
    std::string path;
};
struct AudioFormatReader
{
    bool read(float* const* dest, int channels, int64 start, int n)
    {
        if (not wav.can_read) {
            return false;
        }
        for (int c = 0; c < channels; ++c) {
            for (int i = 0; i < n; ++i) {
                auto const k = static_cast<std::size_t>(start) + static_cast<std::size_t>(i);
                auto const s = static_cast<std::size_t>(c) < wav.channels.size() ? static_cast<std::size_t>(c) : wav.channels.size() - 1;
                dest[c][i]   = k < wav.channels[s].size() ? wav.channels[s][k] : 0.0F;
            }
        }
        return true;
    }
    bool read(AudioBuffer<float>* b, int start, int n, int64 readerStart, bool, bool)
    {
        std::vector<float*> p;
        for (int c = 0; c < b->getNumChannels(); ++c) {
            p.push_back(b->getWritePointer(c, start));
        }
        return read(p.data(), b->getNumChannels(), readerStart, n);
    }
    jsim::Wav wav;
    double sampleRate{};
    unsigned numChannels{};
    int64 lengthInSamples{};
    unsigned bitsPerSample{32};
};
struct StringPairArray
{};
struct AudioFormatWriter
{
    AudioFormatWriter(std::unique_ptr<FileOutputStream> o, double sr, unsigned ch, int bits)
        : _o{std::move(o)}, _sr{sr}, _ch{ch}, _bits{bits}, _data(ch)
    {}
    AudioFormatWriter(AudioFormatWriter const&) = delete;
    // the file is complete when the writer is gone
    ~AudioFormatWriter() { jsim::write(_o->path, _data, _sr); }
    bool writeFromFloatArrays(float const* const* d, int channels, int n)
    {
        for (int c = 0; c < static_cast<int>(_ch); ++c) {
            for (int i = 0; i < n; ++i) {
                _data[static_cast<std::size_t>(c)].push_back(c < channels ? stored(d[c][i]) : 0.0F);
            }
        }
        return true;
    }
    // 32 bits are stored as float, everything else as a clipped integer
    float stored(float v) const
    {
        if (_bits == 32) {
            return v;
        }
        auto const full = std::ldexp(1.0, _bits - 1);
        return static_cast<float>(std::clamp(std::floor(static_cast<double>(v) * full), -full, full - 1) / full);
    }
    bool flush() { return true; }
    double getSampleRate() const { return _sr; }
    int getNumChannels() const { return static_cast<int>(_ch); }
    int getBitsPerSample() const { return _bits; }
    bool writeFromAudioSampleBuffer(AudioBuffer<float> const& b, int start, int n)
    {
        std::vector<float const*> p;
        for (int c = 0; c < b.getNumChannels(); ++c) {
            p.push_back(b.getReadPointer(c, start));
        }
        return writeFromFloatArrays(p.data(), b.getNumChannels(), n);
    }
    std::unique_ptr<FileOutputStream> _o;
    double _sr;
    unsigned _ch;
    int _bits;
    std::vector<std::vector<float>> _data;
};
struct WavAudioFormat
{
    AudioFormatWriter* createWriterFor(OutputStream* o, double sr, unsigned ch, int bits, StringPairArray const&, int)
    {
        if (o == nullptr or (bits != 8 and bits != 16 and bits != 24 and bits != 32) or not(sr > 0) or ch == 0) {
            return nullptr;
        }
        return new AudioFormatWriter{std::unique_ptr<FileOutputStream>(static_cast<FileOutputStream*>(o)), sr, ch, bits};
    }
};
struct AudioFormatManager
{
    void registerBasicFormats() { _ready = true; }
    AudioFormatReader* createReaderFor(std::unique_ptr<InputStream> s)
    {
        if (s == nullptr or not _ready) {
            return nullptr;
        }
        auto const& w = jsim::file(s->path);
        if (not w.good_header) {
            return nullptr;
        }
        auto* r            = new AudioFormatReader;
        r->wav             = w;
        r->sampleRate      = w.rate;
        r->numChannels     = static_cast<unsigned>(w.channels.size());
        r->lengthInSamples = static_cast<int64>(w.channels.empty() ? 0 : w.channels[0].size());
        return r;
    }
    String getWildcardForAllFormats() const { return "*.wav"; }
    AudioFormatReader* createReaderFor(File const& f) { return createReaderFor(f.createInputStream()); }
    bool _ready{false};
};

// ------------------------------------------------------------------------------------------------------- dsp
namespace dsp {
struct ProcessSpec
{
    double sampleRate;
    uint32 maximumBlockSize;
    uint32 numChannels;
};
template<typename T>
class AudioBlock
{
    using Raw = std::remove_const_t<T>;

public:
    using SampleType = Raw;
    AudioBlock() = default;
    AudioBlock(T* const* d, std::size_t ch, std::size_t n) : AudioBlock{d, ch, 0, n} {}
    AudioBlock(T* const* d, std::size_t ch, std::size_t start, std::size_t n) : _ch{ch}, _n{n}
    {
        for (std::size_t c = 0; c < ch; ++c) {
            _p[c] = d[c] + start;
        }
    }
    AudioBlock(AudioBuffer<Raw>& b) : AudioBlock{const_cast<T* const*>(b.getArrayOfWritePointers()), static_cast<std::size_t>(b.getNumChannels()), 0, static_cast<std::size_t>(b.getNumSamples())} {}
    template<typename U>
        requires(std::is_const_v<T> and std::is_same_v<U, Raw>)
    AudioBlock(AudioBuffer<U> const& b)
        : AudioBlock{b.getArrayOfReadPointers(), static_cast<std::size_t>(b.getNumChannels()), 0, static_cast<std::size_t>(b.getNumSamples())}
    {}
    template<typename U>
        requires(std::is_const_v<T> and std::is_same_v<U, Raw>)
    AudioBlock(AudioBlock<U> const& o)
        : _ch{o.getNumChannels()}, _n{o.getNumSamples()}
    {
        for (std::size_t c = 0; c < _ch; ++c) {
            _p[c] = o.getChannelPointer(c);
        }
    }
    std::size_t getNumChannels() const { return _ch; }
    std::size_t getNumSamples() const { return _n; }
    T* getChannelPointer(std::size_t c) const
    {
        if (c >= _ch) {
            std::fprintf(stderr, "SIM-BOUNDS AudioBlock channel %zu of %zu\n", c, _ch);
            std::abort();
        }
        return _p[c];
    }
    T getSample(int c, int i) const { return getChannelPointer(static_cast<std::size_t>(c))[i]; }
    void setSample(int c, int i, Raw v) const { getChannelPointer(static_cast<std::size_t>(c))[i] = v; }
    AudioBlock getSubBlock(std::size_t start, std::size_t n) const
    {
        AudioBlock r = *this;
        r._n         = n;
        for (std::size_t c = 0; c < _ch; ++c) {
            r._p[c] += start;
        }
        return r;
    }
    AudioBlock getSubBlock(std::size_t start) const { return getSubBlock(start, _n - start); }
    AudioBlock getSingleChannelBlock(std::size_t c) const { return getSubsetChannelBlock(c, 1); }
    AudioBlock getSubsetChannelBlock(std::size_t first, std::size_t num) const
    {
        AudioBlock r;
        r._ch = num;
        r._n  = _n;
        for (std::size_t c = 0; c < num; ++c) {
            r._p[c] = _p[first + c];
        }
        return r;
    }
    AudioBlock const& clear() const { return fill(Raw(0)); }
    AudioBlock const& fill(Raw v) const
    {
        for (std::size_t c = 0; c < _ch; ++c) {
            FloatVectorOperations::fill(_p[c], v, static_cast<int>(_n));
        }
        return *this;
    }
    template<typename O>
    AudioBlock const& copyFrom(AudioBlock<O> const& o) const
    {
        for (std::size_t c = 0; c < std::min(_ch, o.getNumChannels()); ++c) {
            FloatVectorOperations::copy(_p[c], static_cast<Raw const*>(o.getChannelPointer(c)), static_cast<int>(std::min(_n, o.getNumSamples())));
        }
        return *this;
    }
    template<typename O>
    AudioBlock const& add(AudioBlock<O> const& o) const
    {
        for (std::size_t c = 0; c < std::min(_ch, o.getNumChannels()); ++c) {
            FloatVectorOperations::add(_p[c], static_cast<Raw const*>(o.getChannelPointer(c)), static_cast<int>(std::min(_n, o.getNumSamples())));
        }
        return *this;
    }
    template<typename O>
    AudioBlock const& subtract(AudioBlock<O> const& o) const
    {
        for (std::size_t c = 0; c < std::min(_ch, o.getNumChannels()); ++c) {
            FloatVectorOperations::subtract(_p[c], static_cast<Raw const*>(o.getChannelPointer(c)), static_cast<int>(std::min(_n, o.getNumSamples())));
        }
        return *this;
    }
    template<typename O>
    AudioBlock const& multiplyBy(AudioBlock<O> const& o) const
    {
        for (std::size_t c = 0; c < std::min(_ch, o.getNumChannels()); ++c) {
            FloatVectorOperations::multiply(_p[c], static_cast<Raw const*>(o.getChannelPointer(c)), static_cast<int>(std::min(_n, o.getNumSamples())));
        }
        return *this;
    }
    template<typename O>
    AudioBlock const& replaceWithProductOf(AudioBlock<O> const& o, Raw v) const
    {
        for (std::size_t c = 0; c < std::min(_ch, o.getNumChannels()); ++c) {
            FloatVectorOperations::copyWithMultiply(_p[c], static_cast<Raw const*>(o.getChannelPointer(c)), v, static_cast<int>(std::min(_n, o.getNumSamples())));
        }
        return *this;
    }
    template<typename O>
    AudioBlock const& addProductOf(AudioBlock<O> const& o, Raw v) const
    {
        for (std::size_t c = 0; c < std::min(_ch, o.getNumChannels()); ++c) {
            FloatVectorOperations::addWithMultiply(_p[c], static_cast<Raw const*>(o.getChannelPointer(c)), v, static_cast<int>(std::min(_n, o.getNumSamples())));
        }
        return *this;
    }
    AudioBlock const& copyFrom(AudioBuffer<Raw> const& b, std::size_t from = 0, std::size_t to = 0, std::size_t n = std::numeric_limits<std::size_t>::max()) const
    {
        auto const len = std::min({n, _n - to, static_cast<std::size_t>(b.getNumSamples()) - from});
        for (std::size_t c = 0; c < std::min(_ch, static_cast<std::size_t>(b.getNumChannels())); ++c) {
            FloatVectorOperations::copy(_p[c] + to, b.getReadPointer(static_cast<int>(c), static_cast<int>(from)), static_cast<int>(len));
        }
        return *this;
    }
    void copyTo(AudioBuffer<Raw>& b, std::size_t from = 0, std::size_t to = 0, std::size_t n = std::numeric_limits<std::size_t>::max()) const
    {
        auto const len = std::min({n, _n - from, static_cast<std::size_t>(b.getNumSamples()) - to});
        for (std::size_t c = 0; c < std::min(_ch, static_cast<std::size_t>(b.getNumChannels())); ++c) {
            FloatVectorOperations::copy(b.getWritePointer(static_cast<int>(c), static_cast<int>(to)), static_cast<Raw const*>(_p[c]) + from, static_cast<int>(len));
        }
    }
    AudioBlock const& operator*=(Raw v) const { return multiplyBy(v); }
    template<typename O>
    AudioBlock const& operator+=(AudioBlock<O> const& o) const
    {
        return add(o);
    }
    AudioBlock const& multiplyBy(Raw v) const
    {
        for (std::size_t c = 0; c < _ch; ++c) {
            FloatVectorOperations::multiply(_p[c], v, static_cast<int>(_n));
        }
        return *this;
    }

private:
    std::size_t _ch{0}, _n{0};
    std::array<T*, 16> _p{};
};
template<typename T>
AudioBlock(AudioBuffer<T>&) -> AudioBlock<T>;

template<typename T>
struct ProcessContextReplacing
{
    using SampleType          = T;
    using AudioBlockType      = AudioBlock<T>;
    using ConstAudioBlockType = AudioBlock<T const>;
    ProcessContextReplacing(AudioBlock<T> const& b) : _b{b} {}
    AudioBlock<T const> getInputBlock() const { return _b; }
    AudioBlock<T> const& getOutputBlock() const { return _b; }
    static constexpr bool usesSeparateInputAndOutputBlocks() { return false; }
    bool isBypassed{false};
    AudioBlock<T> _b;
};
template<typename T>
struct ProcessContextNonReplacing
{
    using SampleType          = T;
    using AudioBlockType      = AudioBlock<T>;
    using ConstAudioBlockType = AudioBlock<T const>;
    ProcessContextNonReplacing(AudioBlock<T const> const& i, AudioBlock<T> const& o) : _i{i}, _o{o} {}
    AudioBlock<T const> const& getInputBlock() const { return _i; }
    AudioBlock<T> const& getOutputBlock() const { return _o; }
    static constexpr bool usesSeparateInputAndOutputBlocks() { return true; }
    bool isBypassed{false};
    AudioBlock<T const> _i;
    AudioBlock<T> _o;
};

template<typename T>
struct WindowingFunction
{
    enum WindowingMethod
    {
        rectangular,
        triangular,
        hann,
        hamming,
        blackman
    };
    static void fillWindowingTables(T* w, std::size_t n, WindowingMethod m, bool normalise = true, T beta = 0)
    {
        ignoreUnused(beta);
        for (std::size_t i = 0; i < n; ++i) {
            auto const x = n > 1 ? 2.0 * std::numbers::pi * static_cast<double>(i) / static_cast<double>(n - 1) : 0.0;
            double v     = 1.0;
            if (m == hann) {
                v = 0.5 - 0.5 * std::cos(x);
            } else if (m == hamming) {
                v = 0.54 - 0.46 * std::cos(x);
            } else if (m == triangular) {
                v = n > 1 ? 1.0 - std::abs(2.0 * static_cast<double>(i) / static_cast<double>(n - 1) - 1.0) : 1.0;
            } else if (m == blackman) {
                v = 0.42 - 0.5 * std::cos(x) + 0.08 * std::cos(2 * x);
            }
            w[i] = static_cast<T>(v);
        }
        if (normalise) {
            auto sum = T(0);
            for (std::size_t i = 0; i < n; ++i) {
                sum += w[i];
            }
            for (std::size_t i = 0; i < n; ++i) {
                w[i] *= static_cast<T>(n) / sum;
            }
        }
    }
};

enum class DryWetMixingRule
{
    linear,
    balanced,
    sin3dB,
    sin4p5dB,
    sin6dB,
    squareRoot3dB,
    squareRoot4p5dB
};
template<typename T>
struct DryWetMixer
{
    void prepare(ProcessSpec const& s) { _dry.setSize(static_cast<int>(s.numChannels), static_cast<int>(s.maximumBlockSize)); }
    void reset() {}
    void setMixingRule(DryWetMixingRule r) { _rule = r; }
    void setWetLatency(T) {}
    void setWetMixProportion(T w) { _wet = w; }
    void pushDrySamples(AudioBlock<T const> b)
    {
        for (std::size_t c = 0; c < b.getNumChannels(); ++c) {
            _dry.copyFrom(static_cast<int>(c), 0, b.getChannelPointer(c), static_cast<int>(b.getNumSamples()));
        }
    }
    void mixWetSamples(AudioBlock<T> b)
    {
        T dry = T(1) - _wet, wet = _wet;
        if (_rule == DryWetMixingRule::balanced) {
            dry = T(2) * std::min(T(0.5), T(1) - _wet);
            wet = T(2) * std::min(T(0.5), _wet);
        }
        for (std::size_t c = 0; c < b.getNumChannels(); ++c) {
            for (std::size_t i = 0; i < b.getNumSamples(); ++i) {
                auto* p = b.getChannelPointer(c) + i;
                *p      = *p * wet + _dry.getSample(static_cast<int>(c), static_cast<int>(i)) * dry;
            }
        }
    }
    AudioBuffer<T> _dry;
    DryWetMixingRule _rule{DryWetMixingRule::linear};
    T _wet{1};
};

struct Convolution
{
    struct Latency
    {
        int latencyInSamples;
    };
    struct NonUniform
    {
        int headSizeInSamples;
    };
    enum class Stereo
    {
        no,
        yes
    };
    enum class Trim
    {
        no,
        yes
    };
    enum class Normalise
    {
        no,
        yes
    };

    // zero latency, the impulse response as it is, resampled by the stand-in resampler
    void loadImpulseResponse(File const& f, Stereo, Trim, std::size_t, Normalise)
    {
        AudioFormatManager m;
        m.registerBasicFormats();
        std::unique_ptr<AudioFormatReader> r{m.createReaderFor(f)};
        if (r == nullptr or r->numChannels == 0 or r->lengthInSamples <= 0) {
            return;
        }
        AudioBuffer<float> b(static_cast<int>(r->numChannels), static_cast<int>(r->lengthInSamples));
        if (r->read(b.getArrayOfWritePointers(), b.getNumChannels(), 0, b.getNumSamples())) {
            _ir   = b;
            _rate = r->sampleRate;
        }
    }
    void prepare(ProcessSpec const& s)
    {
        _x.assign(s.numChannels, {});
        _h.clear();
        if (_ir.getNumChannels() == 0) {
            return;
        }
        auto b = _ir;
        if (_rate != s.sampleRate) {
            auto const n = roundToInt(std::max(1.0, b.getNumSamples() / (_rate / s.sampleRate)));
            MemoryAudioSource src(_ir, false);
            ResamplingAudioSource rs(&src, false, _ir.getNumChannels());
            rs.setResamplingRatio(_rate / s.sampleRate);
            b.setSize(_ir.getNumChannels(), n);
            rs.getNextAudioBlock({&b, 0, n});
        }
        for (std::size_t c = 0; c < s.numChannels; ++c) {
            auto const* p = b.getReadPointer(std::min(static_cast<int>(c), b.getNumChannels() - 1));
            _h.emplace_back(p, p + b.getNumSamples());
        }
    }
    void reset()
    {
        for (auto& x : _x) {
            x.clear();
        }
    }
    template<typename Context>
    void process(Context const& ctx)
    {
        auto const in  = ctx.getInputBlock();
        auto const out = ctx.getOutputBlock();
        for (std::size_t c = 0; c < in.getNumChannels(); ++c) {
            auto const n = in.getNumSamples();
            if (_h.empty()) {
                FloatVectorOperations::copy(out.getChannelPointer(c), in.getChannelPointer(c), static_cast<int>(n));
                continue;
            }
            auto const from = _x[c].size();
            _x[c].insert(_x[c].end(), in.getChannelPointer(c), in.getChannelPointer(c) + n);
            auto const y = jsim::convolve(_x[c], _h[c], from);
            for (std::size_t i = 0; i < n; ++i) {
                out.getChannelPointer(c)[i] = static_cast<float>(y[i]);
            }
        }
    }
    AudioBuffer<float> _ir;
    double _rate{0};
    std::vector<std::vector<double>> _x, _h;
};
}  // namespace dsp

}  // namespace juce
#include "juce_state.h"
