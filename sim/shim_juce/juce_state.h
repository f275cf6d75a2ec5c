// JUCE stand-in, part two: values, trees, streams, parameters, the parameter state and the processor base class. Modelled
// on JUCE's own sources: trees are shared handles whose assignment redirects their listeners, parameter changes reach
// the tree only when flushed (timer, copyState), a tree that is put in place sets every parameter it does not name back
// to its default.
namespace juce {
struct Identifier
{
    Identifier() = default;
    Identifier(char const* s) : name{s} {}
    Identifier(String s) : name{std::move(s)} {}
    String const& toString() const { return name; }
    bool isValid() const { return not name.empty(); }
    bool operator==(Identifier const& o) const { return name == o.name; }
    String name;
};

struct var
{
    var() = default;
    var(int v) : num{static_cast<double>(v)}, kind{1} {}
    var(float v) : num{static_cast<double>(v)}, kind{2} {}
    var(double v) : num{v}, kind{2} {}
    var(char const* s) : str{s}, kind{3} {}
    var(String s) : str{std::move(s)}, kind{3} {}
    var(Array<var> a);
    bool isVoid() const { return kind == 0; }
    Array<var>* getArray() const { return list.get(); }
    bool isArray() const { return list != nullptr; }
    var(bool v) : num{v ? 1.0 : 0.0}, kind{1} {}
    var(int64 v) : num{static_cast<double>(v)}, kind{1} {}
    String toString() const { return kind == 3 ? str : kind == 0 or kind == 4 ? String{} : kind == 1 ? String{std::to_string(static_cast<long long>(num))} : String{num}; }
    bool isString() const { return kind == 3; }
    bool isInt() const { return kind == 1; }
    bool isDouble() const { return kind == 2; }
    int size() const;
    operator float() const { return static_cast<float>(number()); }
    operator double() const { return number(); }
    operator int() const { return static_cast<int>(number()); }
    operator bool() const { return number() != 0.0; }
    double number() const { return kind == 3 ? std::atof(str.c_str()) : num; }
    bool operator==(var const& o) const { return kind == 4 or o.kind == 4 ? kind == o.kind and same_list(o) : kind == 3 or o.kind == 3 ? toString() == o.toString() : num == o.num and (kind == 0) == (o.kind == 0); }
    bool operator==(char const* o) const { return toString() == o; }
    bool same_list(var const& o) const;
    double num{0};
    String str;
    std::shared_ptr<Array<var>> list;
    int kind{0};
};
inline var::var(Array<var> a) : list{std::make_shared<Array<var>>(std::move(a))}, kind{4} {}
inline bool var::same_list(var const& o) const { return *list == *o.list; }
inline int var::size() const { return list == nullptr ? 0 : list->size(); }

// ------------------------------------------------------------------------------------------------------- streams
struct MemoryBlock
{
    MemoryBlock() = default;
    MemoryBlock(void const* d, std::size_t n) : bytes(static_cast<char const*>(d), static_cast<char const*>(d) + n) {}
    void* getData() { return bytes.data(); }
    void const* getData() const { return bytes.data(); }
    std::size_t getSize() const { return bytes.size(); }
    bool isEmpty() const { return bytes.empty(); }
    void reset() { bytes.clear(); }
    void setSize(std::size_t n, bool zero = false) { bytes.resize(n, zero ? '\0' : '\x7f'); }
    void append(void const* d, std::size_t n) { bytes.insert(bytes.end(), static_cast<char const*>(d), static_cast<char const*>(d) + n); }
    void replaceAll(void const* d, std::size_t n)
    {
        bytes.clear();
        append(d, n);
    }
    std::vector<char> bytes;
};
struct MemoryOutputStream : OutputStream
{
    explicit MemoryOutputStream(std::size_t = 256) : _b{_own} {}
    MemoryOutputStream(MemoryBlock& b, bool appendToExisting) : _b{b}
    {
        if (not appendToExisting) {
            _b.reset();
        }
    }
    bool write(void const* d, std::size_t n)
    {
        _b.append(d, n);
        return true;
    }
    void writeByte(char c) { write(&c, 1); }
    void writeString(String const& s) { write(s.c_str(), s.size() + 1); }
    void writeDouble(double v) { write(&v, sizeof v); }
    void writeInt(int v) { write(&v, sizeof v); }
    void writeCompressedInt(int v)
    {
        auto un       = static_cast<unsigned>(v < 0 ? -v : v);
        uint8 data[5] = {};
        int num       = 0;
        while (un > 0) {
            data[++num] = static_cast<uint8>(un);
            un >>= 8;
        }
        data[0] = static_cast<uint8>(num);
        if (v < 0) {
            data[0] |= 0x80;
        }
        write(data, static_cast<std::size_t>(num) + 1);
    }
    void flush() {}
    void const* getData() const { return _b.getData(); }
    std::size_t getDataSize() const { return _b.getSize(); }
    MemoryBlock getMemoryBlock() const { return _b; }
    MemoryBlock _own;
    MemoryBlock& _b;
};
struct MemoryInputStream : InputStream
{
    MemoryInputStream(void const* d, std::size_t n, bool) : _d{static_cast<char const*>(d)}, _n{n} {}
    MemoryInputStream(MemoryBlock const& b, bool) : _d{static_cast<char const*>(b.getData())}, _n{b.getSize()} {}
    bool isExhausted() const { return _pos >= _n; }
    int read(void* d, int n)
    {
        auto const k = std::min(static_cast<std::size_t>(std::max(n, 0)), _n - _pos);
        std::memcpy(d, _d + _pos, k);
        _pos += k;
        return static_cast<int>(k);
    }
    char readByte()
    {
        char c = 0;
        read(&c, 1);
        return c;
    }
    String readString()
    {
        std::string s;
        while (not isExhausted()) {
            auto const c = readByte();
            if (c == 0) {
                break;
            }
            s.push_back(c);
        }
        return s;
    }
    double readDouble()
    {
        double v{};
        return read(&v, sizeof v) == int(sizeof v) ? v : 0.0;
    }
    int readInt()
    {
        int v{};
        return read(&v, sizeof v) == int(sizeof v) ? v : 0;
    }
    int readCompressedInt()
    {
        auto const head = static_cast<uint8>(readByte());
        if (head == 0) {
            return 0;
        }
        int const num = head & 0x7f;
        if (num > 4) {
            return 0;
        }
        uint8 b[4] = {};
        if (read(b, num) != num) {
            return 0;
        }
        auto const v = static_cast<int>(unsigned(b[0]) | unsigned(b[1]) << 8 | unsigned(b[2]) << 16 | unsigned(b[3]) << 24);
        return (head & 0x80) != 0 ? -v : v;
    }
    char const* _d;
    std::size_t _n, _pos{0};
};

// ------------------------------------------------------------------------------------------------------- helpers
struct UndoManager
{
    void clearUndoHistory() {}
};
template<typename Lock>
struct ScopedLockOf
{
    explicit ScopedLockOf(Lock const& m) : _m{m} { _m.enter(); }
    ~ScopedLockOf() { _m.exit(); }
    ScopedLockOf(ScopedLockOf const&)            = delete;
    ScopedLockOf& operator=(ScopedLockOf const&) = delete;
    Lock const& _m;
};
template<typename Lock>
struct ScopedTryLockOf
{
    explicit ScopedTryLockOf(Lock const& m) : _m{m}, _held{m.tryEnter()} {}
    ~ScopedTryLockOf()
    {
        if (_held) {
            _m.exit();
        }
    }
    ScopedTryLockOf(ScopedTryLockOf const&)            = delete;
    ScopedTryLockOf& operator=(ScopedTryLockOf const&) = delete;
    bool isLocked() const { return _held; }
    Lock const& _m;
    bool _held;
};
template<typename Mutex>
struct LockOf
{
    LockOf()                         = default;
    LockOf(LockOf const&)            = delete;
    LockOf& operator=(LockOf const&) = delete;
    using ScopedLockType    = ScopedLockOf<LockOf>;
    using ScopedTryLockType = ScopedTryLockOf<LockOf>;
    void enter() const { _mutex.lock(); }
    void exit() const { _mutex.unlock(); }
    bool tryEnter() const { return _mutex.try_lock(); }
    mutable Mutex _mutex;
};
using CriticalSection = LockOf<std::recursive_mutex>;
using SpinLock        = LockOf<std::mutex>;
using ScopedLock      = ScopedLockOf<CriticalSection>;
using ScopedTryLock   = ScopedTryLockOf<CriticalSection>;
template<typename Lock>
using GenericScopedLock = ScopedLockOf<Lock>;
struct RelativeTime
{
    explicit RelativeTime(double s = 0) : _s{s} {}
    double inSeconds() const { return _s; }
    int64 inMilliseconds() const { return static_cast<int64>(_s * 1000.0); }
    double _s;
};
struct Time  // on the simulated clock
{
    static double seconds() { return std::chrono::duration<double>(std::chrono::system_clock::now().time_since_epoch()).count(); }
    static Time getCurrentTime() { return Time{}; }
    static double getMillisecondCounterHiRes() { return seconds() * 1000.0; }
    static uint32 getMillisecondCounter() { return static_cast<uint32>(static_cast<int64>(seconds() * 1000.0)); }
    static uint32 getApproximateMillisecondCounter() { return getMillisecondCounter(); }
    static int64 currentTimeMillis() { return static_cast<int64>(seconds() * 1000.0); }
    static int64 getHighResolutionTicks() { return static_cast<int64>(seconds() * 1e6); }
    static int64 getHighResolutionTicksPerSecond() { return 1000000; }
    static double highResolutionTicksToSeconds(int64 t) { return static_cast<double>(t) * 1e-6; }
    static int64 secondsToHighResolutionTicks(double s) { return static_cast<int64>(s * 1e6); }
    int64 toMilliseconds() const { return static_cast<int64>(_t * 1000.0); }
    RelativeTime operator-(Time const& o) const { return RelativeTime{_t - o._t}; }
    double _t{seconds()};
};
struct Logger
{
    static void writeToLog(String const&) {}
    static void outputDebugString(String const&) {}
};
template<typename L>
struct ListenerList
{
    void add(L* l)
    {
        if (l != nullptr and not contains(l)) {
            _l.push_back(l);
        }
    }
    void remove(L* l) { std::erase(_l, l); }
    bool contains(L* l) const { return std::find(_l.begin(), _l.end(), l) != _l.end(); }
    bool isEmpty() const { return _l.empty(); }
    int size() const { return static_cast<int>(_l.size()); }
    template<typename F>
        requires std::is_invocable_v<F, L&>
    void call(F&& f)
    {
        for (auto* l : std::vector<L*>(_l)) {
            if (contains(l)) {
                f(*l);
            }
        }
    }
    template<typename... P, typename... A>
    void call(void (L::*f)(P...), A&&... a)
    {
        call([&](L& l) { (l.*f)(a...); });
    }
    std::vector<L*> _l;
};
struct Timer
{
    virtual ~Timer() = default;
    virtual void timerCallback() = 0;
    void startTimerHz(int) {}
    void startTimer(int) {}
    void stopTimer() {}
    int getTimerInterval() const { return 50; }
};

// ------------------------------------------------------------------------------------------------------- trees
class ValueTree
{
    struct Object
    {
        Identifier type;
        std::vector<std::pair<Identifier, var>> props;
        std::vector<std::shared_ptr<Object>> children;
        Object* parent{nullptr};
        std::vector<ValueTree*> watchers;  // handles with listeners
        ~Object()
        {
            for (auto& c : children) {
                c->parent = nullptr;
            }
        }
    };

public:
    struct Listener
    {
        virtual ~Listener() = default;
        virtual void valueTreePropertyChanged(ValueTree&, Identifier const&) {}
        virtual void valueTreeChildAdded(ValueTree&, ValueTree&) {}
        virtual void valueTreeRedirected(ValueTree&) {}
    };
    ValueTree() = default;
    explicit ValueTree(Identifier const& t) : _o{std::make_shared<Object>()} { _o->type = t; }
    ValueTree(ValueTree const& o) : _o{o._o} {}
    ~ValueTree() { unwatch(); }
    ValueTree& operator=(ValueTree const& o)
    {
        if (_o != o._o) {
            if (_listeners.isEmpty()) {
                _o = o._o;
            } else {
                unwatch();
                _o = o._o;
                watch();
                auto self = std::vector<Listener*>(_listeners._l);
                for (auto* l : self) {
                    l->valueTreeRedirected(*this);
                }
            }
        }
        return *this;
    }
    bool operator==(ValueTree const& o) const { return _o == o._o; }
    bool operator!=(ValueTree const& o) const { return _o != o._o; }
    bool isValid() const { return _o != nullptr; }
    Identifier getType() const { return _o ? _o->type : Identifier{}; }
    bool hasType(Identifier const& t) const { return _o != nullptr and _o->type == t; }
    bool isEquivalentTo(ValueTree const& o) const { return same(_o.get(), o._o.get()); }
    ValueTree createCopy() const { return ValueTree{_o ? clone(*_o) : nullptr}; }
    ValueTree getParent() const
    {
        if (_o == nullptr or _o->parent == nullptr) {
            return {};
        }
        return ValueTree{_o->parent->parent == nullptr ? find_root(_o->parent) : find_in(_o->parent)};
    }
    int getNumChildren() const { return _o ? static_cast<int>(_o->children.size()) : 0; }
    ValueTree getChild(int i) const { return isPositiveAndBelow(i, getNumChildren()) ? ValueTree{_o->children[static_cast<std::size_t>(i)]} : ValueTree{}; }
    ValueTree getChildWithName(Identifier const& t) const
    {
        for (int i = 0; i < getNumChildren(); ++i) {
            if (getChild(i).hasType(t)) {
                return getChild(i);
            }
        }
        return {};
    }
    ValueTree getChildWithProperty(Identifier const& k, var const& v) const
    {
        for (int i = 0; i < getNumChildren(); ++i) {
            if (getChild(i).getProperty(k) == v) {
                return getChild(i);
            }
        }
        return {};
    }
    struct Iterator
    {
        ValueTree operator*() const { return ValueTree{*it}; }
        Iterator& operator++()
        {
            ++it;
            return *this;
        }
        bool operator!=(Iterator const& o) const { return it != o.it; }
        typename std::vector<std::shared_ptr<Object>>::const_iterator it;
    };
    Iterator begin() const { return {_o ? _o->children.cbegin() : none().cbegin()}; }
    Iterator end() const { return {_o ? _o->children.cend() : none().cend()}; }
    bool hasProperty(Identifier const& k) const { return getPropertyPointer(k) != nullptr; }
    var const* getPropertyPointer(Identifier const& k) const
    {
        if (_o) {
            for (auto const& p : _o->props) {
                if (p.first == k) {
                    return &p.second;
                }
            }
        }
        return nullptr;
    }
    var getProperty(Identifier const& k, var def = {}) const
    {
        auto const* p = getPropertyPointer(k);
        return p == nullptr ? def : *p;
    }
    var operator[](Identifier const& k) const { return getProperty(k); }
    ValueTree& setProperty(Identifier const& k, var const& v, UndoManager*)
    {
        if (_o == nullptr) {
            return *this;
        }
        auto* p = const_cast<var*>(getPropertyPointer(k));
        if (p != nullptr and *p == v) {
            return *this;
        }
        if (p != nullptr) {
            *p = v;
        } else {
            _o->props.emplace_back(k, v);
        }
        auto self = ValueTree{_o};
        notify(_o.get(), [&](Listener& l) { l.valueTreePropertyChanged(self, k); });
        return *this;
    }
    void appendChild(ValueTree const& c, UndoManager*)
    {
        if (_o == nullptr or c._o == nullptr) {
            return;
        }
        _o->children.push_back(c._o);
        c._o->parent = _o.get();
        auto self = ValueTree{_o};
        auto kid  = ValueTree{c._o};
        notify(_o.get(), [&](Listener& l) { l.valueTreeChildAdded(self, kid); });
    }
    void addChild(ValueTree const& c, int, UndoManager* u) { appendChild(c, u); }
    void addListener(Listener* l)
    {
        if (_listeners.isEmpty() and _o) {
            watch();
        }
        _listeners.add(l);
    }
    void removeListener(Listener* l)
    {
        _listeners.remove(l);
        if (_listeners.isEmpty()) {
            unwatch();
        }
    }
    template<typename Stream>
    void writeToStream(Stream& s) const
    {
        if (_o == nullptr) {
            s.writeString({});
            s.writeCompressedInt(0);
            s.writeCompressedInt(0);
            return;
        }
        put(s, *_o);
    }
    static ValueTree readFromStream(MemoryInputStream& s) { return ValueTree{get(s, 0)}; }
    static ValueTree readFromData(void const* d, std::size_t n)
    {
        MemoryInputStream s(d, n, false);
        return readFromStream(s);
    }

private:
    explicit ValueTree(std::shared_ptr<Object> o) : _o{std::move(o)} {}
    static std::vector<std::shared_ptr<Object>> const& none()
    {
        static std::vector<std::shared_ptr<Object>> const n;
        return n;
    }
    static std::shared_ptr<Object> find_in(Object* o)
    {
        for (auto& c : o->parent->children) {
            if (c.get() == o) {
                return c;
            }
        }
        return nullptr;
    }
    static std::shared_ptr<Object> find_root(Object* o)
    {
        for (auto* w : o->watchers) {
            if (w->_o.get() == o) {
                return w->_o;
            }
        }
        return nullptr;
    }
    static bool same(Object const* a, Object const* b)
    {
        if (a == b) {
            return true;
        }
        if (a == nullptr or b == nullptr or not(a->type == b->type) or a->props.size() != b->props.size() or a->children.size() != b->children.size()) {
            return false;
        }
        for (auto const& p : a->props) {
            if (std::none_of(b->props.begin(), b->props.end(), [&](auto const& q) { return q.first == p.first and q.second == p.second; })) {
                return false;
            }
        }
        for (std::size_t i = 0; i < a->children.size(); ++i) {
            if (not same(a->children[i].get(), b->children[i].get())) {
                return false;
            }
        }
        return true;
    }
    static std::shared_ptr<Object> clone(Object const& o)
    {
        auto r   = std::make_shared<Object>();
        r->type  = o.type;
        r->props = o.props;
        for (auto const& c : o.children) {
            r->children.push_back(clone(*c));
            r->children.back()->parent = r.get();
        }
        return r;
    }
    template<typename F>
    static void notify(Object* from, F&& f)
    {
        for (auto* o = from; o != nullptr; o = o->parent) {
            for (auto* w : std::vector<ValueTree*>(o->watchers)) {
                for (auto* l : std::vector<Listener*>(w->_listeners._l)) {
                    f(*l);
                }
            }
        }
    }
    template<typename Stream>
    static void put(Stream& s, Object const& o)
    {
        s.writeString(o.type.toString());
        s.writeCompressedInt(static_cast<int>(o.props.size()));
        for (auto const& p : o.props) {
            s.writeString(p.first.toString());
            switch (p.second.kind) {
                case 0: s.writeCompressedInt(0); break;
                case 1:
                    s.writeCompressedInt(5);
                    s.writeByte(1);
                    s.writeInt(static_cast<int>(p.second.num));
                    break;
                case 2:
                    s.writeCompressedInt(9);
                    s.writeByte(4);
                    s.writeDouble(p.second.num);
                    break;
                default:
                    s.writeCompressedInt(static_cast<int>(p.second.str.size()) + 2);
                    s.writeByte(5);
                    s.writeString(p.second.str);
                    break;
            }
        }
        s.writeCompressedInt(static_cast<int>(o.children.size()));
        for (auto const& c : o.children) {
            put(s, *c);
        }
    }
    static std::shared_ptr<Object> get(MemoryInputStream& s, int depth)
    {
        auto type = s.readString();
        if (type.empty() or depth > 64) {
            return nullptr;
        }
        auto o         = std::make_shared<Object>();
        o->type        = Identifier{type};
        auto const num = s.readCompressedInt();
        if (num < 0) {
            return o;
        }
        for (int i = 0; i < num; ++i) {
            auto name = s.readString();
            if (name.empty()) {
                if (s.isExhausted()) {
                    break;
                }
                continue;
            }
            auto const size = s.readCompressedInt();
            var v;
            if (size > 0) {
                auto const marker = s.readByte();
                auto const end    = std::min(s._n, s._pos + static_cast<std::size_t>(size) - 1);
                switch (marker) {
                    case 1: v = var{s.readInt()}; break;
                    case 2: v = var{1}; break;
                    case 3: v = var{0}; break;
                    case 4: v = var{s.readDouble()}; break;
                    case 5: {
                        std::string t;
                        while (s._pos < end) {
                            auto const c = s.readByte();
                            if (c == 0) {
                                break;
                            }
                            t.push_back(c);
                        }
                        v = var{String{t}};
                        break;
                    }
                    default: break;
                }
                s._pos = end;
            }
            auto it = std::find_if(o->props.begin(), o->props.end(), [&](auto const& p) { return p.first.name == name; });
            if (it != o->props.end()) {
                it->second = v;
            } else {
                o->props.emplace_back(Identifier{name}, v);
            }
        }
        auto const kids = s.readCompressedInt();
        for (int i = 0; i < kids; ++i) {
            auto c = get(s, depth + 1);
            if (c == nullptr) {
                break;
            }
            c->parent = o.get();
            o->children.push_back(std::move(c));
        }
        return o;
    }
    void watch()
    {
        if (_o) {
            _o->watchers.push_back(this);
        }
    }
    void unwatch()
    {
        if (_o) {
            std::erase(_o->watchers, this);
        }
    }
    std::shared_ptr<Object> _o;
    ListenerList<Listener> _listeners;
};

// ------------------------------------------------------------------------------------------------------- parameters
struct ParameterID
{
    ParameterID(String i, int v = 0) : id{std::move(i)}, version{v} {}
    ParameterID(char const* i, int v = 0) : id{i}, version{v} {}
    String getParamID() const { return id; }
    String id;
    int version;
};
template<typename T>
struct NormalisableRange
{
    NormalisableRange() : NormalisableRange(T(0), T(1)) {}
    NormalisableRange(T a, T b, T i = T(0), T s = T(1)) : start{a}, end{b}, interval{i}, skew{s} {}
    void setSkewForCentre(T c) { skew = std::log(T(0.5)) / std::log((c - start) / (end - start)); }
    T convertTo0to1(T v) const
    {
        auto p = std::clamp((v - start) / (end - start), T(0), T(1));
        return skew == T(1) ? p : std::pow(p, skew);
    }
    T convertFrom0to1(T p) const
    {
        p = std::clamp(p, T(0), T(1));
        if (skew != T(1) and p > T(0)) {
            p = std::exp(std::log(p) / skew);
        }
        return start + (end - start) * p;
    }
    T snapToLegalValue(T v) const
    {
        if (interval > T(0)) {
            v = start + interval * std::floor((v - start) / interval + T(0.5));
        }
        return v <= start or end <= start ? start : (v >= end ? end : v);
    }
    T start, end, interval, skew;
};
struct AudioProcessorParameter
{
    struct Listener
    {
        virtual ~Listener()                                 = default;
        virtual void parameterValueChanged(int, float)      = 0;
        virtual void parameterGestureChanged(int, bool) {}
    };
    virtual ~AudioProcessorParameter()                = default;
    virtual float getValue() const                    = 0;
    virtual void setValue(float)                      = 0;
    virtual float getDefaultValue() const             = 0;
    void setValueNotifyingHost(float v)
    {
        setValue(v);
        sendValueChangedMessageToListeners(v);
    }
    void sendValueChangedMessageToListeners(float v)
    {
        ScopedLock l(_lock);
        _listeners.call([&](Listener& x) { x.parameterValueChanged(0, v); });
    }
    void beginChangeGesture() {}
    void endChangeGesture() {}
    void addListener(Listener* l) { _listeners.add(l); }
    void removeListener(Listener* l) { _listeners.remove(l); }
    CriticalSection _lock;
    ListenerList<Listener> _listeners;
};
struct RangedAudioParameter : AudioProcessorParameter
{
    RangedAudioParameter(ParameterID p, String n) : paramID{p.id}, pid{std::move(p)}, name{std::move(n)} {}
    virtual NormalisableRange<float> const& getNormalisableRange() const = 0;
    float convertTo0to1(float v) const { return getNormalisableRange().convertTo0to1(getNormalisableRange().snapToLegalValue(v)); }
    float convertFrom0to1(float v) const { return getNormalisableRange().snapToLegalValue(getNormalisableRange().convertFrom0to1(jlimit(0.0F, 1.0F, v))); }
    String getParameterID() const { return paramID; }
    String const paramID;
    ParameterID pid;
    String name;
};
struct AudioParameterFloat : RangedAudioParameter
{
    AudioParameterFloat(ParameterID p, String n, NormalisableRange<float> r, float v) : RangedAudioParameter{std::move(p), std::move(n)}, range{r}, value{v}, _default{v} {}
    float get() const { return value; }
    operator float() const { return value; }
    AudioParameterFloat& operator=(float v)
    {
        if (value != v) {
            setValueNotifyingHost(convertTo0to1(v));
        }
        return *this;
    }
    float getValue() const override { return convertTo0to1(value); }
    void setValue(float v) override { value = convertFrom0to1(v); }
    float getDefaultValue() const override { return convertTo0to1(_default); }
    NormalisableRange<float> const& getNormalisableRange() const override { return range; }
    NormalisableRange<float> range;
    std::atomic<float> value;
    float _default;
};
struct AudioParameterInt : AudioParameterFloat
{
    using AudioParameterFloat::AudioParameterFloat;
};
struct AudioParameterBool : AudioParameterFloat
{
    using AudioParameterFloat::AudioParameterFloat;
};
struct AudioParameterChoice : AudioParameterFloat
{
    using AudioParameterFloat::AudioParameterFloat;
};

// ------------------------------------------------------------------------------------------------------- processor
struct MidiBuffer
{};
struct ScopedNoDenormals
{};
struct AudioChannelSet
{
    static AudioChannelSet mono() { return {1}; }
    static AudioChannelSet stereo() { return {2}; }
    static AudioChannelSet disabled() { return {0}; }
    static AudioChannelSet discreteChannels(int n) { return {n}; }
    int size() const { return n; }
    bool isDisabled() const { return n == 0; }
    bool operator==(AudioChannelSet const& o) const { return n == o.n; }
    bool operator!=(AudioChannelSet const& o) const { return n != o.n; }
    int n{0};
};
struct AudioProcessorEditor;
struct AudioProcessor
{
    struct BusesProperties
    {
        BusesProperties withInput(String const&, AudioChannelSet s, bool on = true) const
        {
            auto r = *this;
            r.in   = on ? s : AudioChannelSet{};
            return r;
        }
        BusesProperties withOutput(String const&, AudioChannelSet s, bool on = true) const
        {
            auto r = *this;
            r.out  = on ? s : AudioChannelSet{};
            return r;
        }
        AudioChannelSet in, out;
    };
    struct BusesLayout
    {
        AudioChannelSet in, out;
        AudioChannelSet getMainInputChannelSet() const { return in; }
        AudioChannelSet getMainOutputChannelSet() const { return out; }
        int getMainInputChannels() const { return in.size(); }
        int getMainOutputChannels() const { return out.size(); }
    };
    AudioProcessor() = default;
    explicit AudioProcessor(BusesProperties const& p) : _layout{p.in, p.out} {}
    virtual ~AudioProcessor() = default;

    virtual auto getName() const -> String const                                 = 0;
    virtual void prepareToPlay(double, int)                                      = 0;
    virtual void releaseResources()                                              = 0;
    virtual void processBlock(AudioBuffer<float>&, MidiBuffer&)                  = 0;
    virtual void processBlock(AudioBuffer<double>&, MidiBuffer&) {}
    virtual bool isBusesLayoutSupported(BusesLayout const&) const { return true; }
    virtual AudioProcessorEditor* createEditor()                                 = 0;
    virtual bool hasEditor() const                                               = 0;
    virtual bool acceptsMidi() const                                             = 0;
    virtual bool producesMidi() const                                            = 0;
    virtual bool isMidiEffect() const { return false; }
    virtual double getTailLengthSeconds() const                                  = 0;
    virtual int getNumPrograms()                                                 = 0;
    virtual int getCurrentProgram()                                              = 0;
    virtual void setCurrentProgram(int)                                          = 0;
    virtual auto getProgramName(int) -> String const                             = 0;
    virtual void changeProgramName(int, String const&)                           = 0;
    virtual void getStateInformation(MemoryBlock&)                               = 0;
    virtual void setStateInformation(void const*, int)                           = 0;
    virtual void reset() {}

    bool setBusesLayout(BusesLayout const& l)
    {
        if (not isBusesLayoutSupported(l)) {
            return false;
        }
        _layout = l;
        return true;
    }
    BusesLayout getBusesLayout() const { return _layout; }
    int getMainBusNumInputChannels() const { return _layout.in.size(); }
    int getMainBusNumOutputChannels() const { return _layout.out.size(); }
    int getTotalNumInputChannels() const { return _layout.in.size(); }
    int getTotalNumOutputChannels() const { return _layout.out.size(); }
    void setLatencySamples(int n) { _latency = n; }
    int getLatencySamples() const { return _latency; }
    void suspendProcessing(bool) {}
    CriticalSection const& getCallbackLock() const { return _callback; }
    mutable CriticalSection _callback;
    BusesLayout _layout;
    int _latency{0};
};
}  // namespace juce
#include "juce_gui.h"
namespace juce {
struct AudioProcessorEditor : Component
{
    explicit AudioProcessorEditor(AudioProcessor* p) : processor{*p} {}
    explicit AudioProcessorEditor(AudioProcessor& p) : processor{p} {}
    void setResizable(bool, bool) {}
    AudioProcessor& processor;
};
struct GenericAudioProcessorEditor : AudioProcessorEditor
{
    explicit GenericAudioProcessorEditor(AudioProcessor& p) : AudioProcessorEditor{p} {}
};
#define JucePlugin_Name "Perceptual Convolution"

struct AudioProcessorValueTreeState
    : private ValueTree::Listener
    , public Timer
{
    struct ParameterLayout
    {
        ParameterLayout() = default;
        template<typename... P>
        ParameterLayout(std::unique_ptr<P>... p)
        {
            (list.push_back(std::move(p)), ...);
        }
        template<typename... P>
        void add(std::unique_ptr<P>... p)
        {
            (list.push_back(std::move(p)), ...);
        }
        std::vector<std::shared_ptr<RangedAudioParameter>> list;
    };
    AudioProcessorValueTreeState(AudioProcessor&, UndoManager* u, Identifier const& type, ParameterLayout l) : undoManager{u}
    {
        state.addListener(this);
        for (auto& p : l.list) {
            params[p->paramID] = p;
            adapters.emplace(p->paramID, std::make_unique<Adapter>(*p));
        }
        state = ValueTree{type};
    }
    explicit AudioProcessorValueTreeState(ParameterLayout l) : undoManager{nullptr}
    {
        for (auto& p : l.list) {
            params[p->paramID] = p;
        }
    }
    ~AudioProcessorValueTreeState() override { state.removeListener(this); }
    RangedAudioParameter* getParameter(StringRef id) const
    {
        auto it = params.find(id);
        return it == params.end() ? nullptr : it->second.get();
    }
    std::atomic<float>* getRawParameterValue(StringRef id) const
    {
        auto it = adapters.find(id);
        return it == adapters.end() ? nullptr : &it->second->plain;
    }
    NormalisableRange<float> getParameterRange(StringRef id) const
    {
        auto* p = getParameter(id);
        return p == nullptr ? NormalisableRange<float>() : p->getNormalisableRange();
    }
    ValueTree copyState()
    {
        ScopedLock l(_changing);
        flush();
        return state.createCopy();
    }
    void replaceState(ValueTree const& n)
    {
        ScopedLock l(_changing);
        state = n;
        if (undoManager != nullptr) {
            undoManager->clearUndoHistory();
        }
    }
    void timerCallback() override { flush(); }

    UndoManager* undoManager;
    ValueTree state;
    std::map<std::string, std::shared_ptr<RangedAudioParameter>> params;

private:
    struct Adapter : AudioProcessorParameter::Listener
    {
        explicit Adapter(RangedAudioParameter& p) : param{p}, plain{p.convertFrom0to1(p.getValue())} { p.addListener(this); }
        ~Adapter() override { param.removeListener(this); }
        void parameterValueChanged(int, float) override
        {
            auto const v = param.convertFrom0to1(param.getValue());
            if (approximatelyEqual(plain.load(), v)) {
                return;
            }
            plain = v;
            dirty = true;
        }
        void set(float v)
        {
            if (approximatelyEqual(v, plain.load()) or ignore) {
                return;
            }
            param.setValueNotifyingHost(param.convertTo0to1(v));
        }
        bool flush(UndoManager* u)
        {
            bool want = true;
            if (not dirty.compare_exchange_strong(want, false)) {
                return false;
            }
            if (auto const* v = tree.getPropertyPointer("value"); v != nullptr) {
                if (not approximatelyEqual(static_cast<float>(*v), plain.load())) {
                    ignore = true;
                    tree.setProperty("value", plain.load(), u);
                    ignore = false;
                }
            } else {
                tree.setProperty("value", plain.load(), nullptr);
            }
            return true;
        }
        RangedAudioParameter& param;
        ValueTree tree;
        std::atomic<float> plain;
        std::atomic<bool> dirty{true};
        bool ignore{false};
    };
    void adopt(ValueTree t)
    {
        auto it = adapters.find(t.getProperty("id").toString());
        if (it != adapters.end()) {
            auto& a = *it->second;
            a.tree  = t;
            a.set(static_cast<float>(t.getProperty("value", var{a.param.convertFrom0to1(a.param.getDefaultValue())})));
        }
    }
    bool flush()
    {
        ScopedLock l(_changing);
        bool any = false;
        for (auto& a : adapters) {
            any |= a.second->flush(undoManager);
        }
        return any;
    }
    void valueTreePropertyChanged(ValueTree& t, Identifier const&) override
    {
        if (t.hasType("PARAM") and t.getParent() == state) {
            adopt(t);
        }
    }
    void valueTreeChildAdded(ValueTree& p, ValueTree& t) override
    {
        if (p == state and t.hasType("PARAM")) {
            adopt(t);
        }
    }
    void valueTreeRedirected(ValueTree& v) override
    {
        if (v != state) {
            return;
        }
        ScopedLock l(_changing);
        for (auto& a : adapters) {
            a.second->tree = ValueTree{};
        }
        for (auto const& c : state) {
            adopt(c);
        }
        for (auto& a : adapters) {
            if (not a.second->tree.isValid()) {
                a.second->tree = ValueTree{"PARAM"};
                a.second->tree.setProperty("id", a.second->param.paramID, nullptr);
                state.appendChild(a.second->tree, nullptr);
            }
        }
        flush();
    }
    std::map<std::string, std::unique_ptr<Adapter>> adapters;
    CriticalSection _changing;
};
}  // namespace juce
