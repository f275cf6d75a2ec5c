// JUCE stand-in, part three: components, controls, images, messages, background jobs, file dialogs. A control may be
// touched on the message thread only; messages, jobs and dialogs wait until the simulator runs them.
namespace jsim {
bool on_message_thread();
void off_thread(char const* what);
bool idle();  // lets another simulated thread run; false: there is none
inline void control(char const* what)
{
    if (not on_message_thread()) {
        off_thread(what);
    }
}
}  // namespace jsim

namespace juce {
// ------------------------------------------------------------------------------------------------------- values
class Value
{
public:
    struct Listener
    {
        virtual ~Listener()                = default;
        virtual void valueChanged(Value&) = 0;
    };
    Value() : _s{std::make_shared<Source>()} {}
    explicit Value(var const& v) : Value{} { _s->v = v; }
    Value(Value const& o) : _s{o._s} {}
    Value& operator=(var const& v)
    {
        setValue(v);
        return *this;
    }
    ~Value() { std::erase(_s->watchers, this); }
    var getValue() const
    {
        jsim::control("Value");
        return _s->v;
    }
    operator var() const { return getValue(); }
    String toString() const { return getValue().toString(); }
    void setValue(var const& v)
    {
        jsim::control("Value");
        if (not(_s->v == v)) {
            _s->v = v;
            post(_s);
        }
    }
    void addListener(Listener* l)
    {
        if (_listeners.isEmpty()) {
            _s->watchers.push_back(this);
        }
        _listeners.add(l);
    }
    void removeListener(Listener* l)
    {
        _listeners.remove(l);
        if (_listeners.isEmpty()) {
            std::erase(_s->watchers, this);
        }
    }
    void referTo(Value const& o)
    {
        if (o._s == _s) {
            return;
        }
        if (not _listeners.isEmpty()) {
            std::erase(_s->watchers, this);
            o._s->watchers.push_back(this);
        }
        _s = o._s;
    }
    bool refersToSameSourceAs(Value const& o) const { return _s == o._s; }
    bool operator==(Value const& o) const { return _s == o._s or _s->v == o._s->v; }

private:
    struct Source
    {
        var v;
        std::vector<Value*> watchers;
        bool pending{false};
    };
    static void post(std::shared_ptr<Source> s);
    std::shared_ptr<Source> _s;
    ListenerList<Listener> _listeners;
};

// ------------------------------------------------------------------------------------------------------- messages
struct MessageManager
{
    static std::deque<std::function<void()>>& queue()
    {
        static std::deque<std::function<void()>> q;
        return q;
    }
    static bool callAsync(std::function<void()> f)
    {
        jsim::Whole w;
        queue().push_back(std::move(f));
        return true;
    }
    static bool existsAndIsCurrentThread() { return jsim::on_message_thread(); }
    static MessageManager* getInstance()
    {
        static MessageManager m;
        return &m;
    }
    bool isThisTheMessageThread() const { return jsim::on_message_thread(); }
};
inline void Value::post(std::shared_ptr<Source> s)
{
    if (s->pending or s->watchers.empty()) {
        return;
    }
    s->pending = true;
    MessageManager::callAsync([w = std::weak_ptr<Source>(s)] {
        if (auto p = w.lock()) {
            p->pending = false;
            for (auto* v : std::vector<Value*>(p->watchers)) {
                if (std::find(p->watchers.begin(), p->watchers.end(), v) != p->watchers.end()) {
                    Value copy{*v};
                    v->_listeners.call([&](Listener& l) { l.valueChanged(copy); });
                }
            }
        }
    });
}

// ------------------------------------------------------------------------------------------------------- drawing
struct Colour
{
    uint32 argb{0};
    Colour withAlpha(float a) const { return {(argb & 0x00ffffffU) | static_cast<uint32>(a * 255.0F) << 24}; }
    bool operator==(Colour const& o) const { return argb == o.argb; }
    bool operator!=(Colour const& o) const { return argb != o.argb; }
    uint32 getARGB() const { return argb; }
    uint8 getAlpha() const { return static_cast<uint8>(argb >> 24); }
    uint8 getRed() const { return static_cast<uint8>(argb >> 16); }
    uint8 getGreen() const { return static_cast<uint8>(argb >> 8); }
    uint8 getBlue() const { return static_cast<uint8>(argb); }
    float getFloatAlpha() const { return static_cast<float>(getAlpha()) / 255.0F; }
    Colour withMultipliedAlpha(float a) const { return withAlpha(getFloatAlpha() * a); }
    Colour darker(float = 0.4F) const { return *this; }
    Colour brighter(float = 0.4F) const { return *this; }
    static Colour fromRGBA(uint8 r, uint8 g, uint8 b, uint8 a) { return {static_cast<uint32>(a) << 24 | static_cast<uint32>(r) << 16 | static_cast<uint32>(g) << 8 | b}; }
    static Colour fromRGB(uint8 r, uint8 g, uint8 b) { return fromRGBA(r, g, b, 255); }
    static Colour fromFloatRGBA(float r, float g, float b, float a)
    {
        auto u = [](float f) { return static_cast<uint8>(std::nearbyint(std::clamp(f, 0.0F, 1.0F) * 255.0F)); };
        return fromRGBA(u(r), u(g), u(b), u(a));
    }
    static Colour greyLevel(float l) { return fromFloatRGBA(l, l, l, 1.0F); }
};
namespace Colours {
inline constexpr Colour white{0xffffffffU}, black{0xff000000U}, red{0xffff0000U}, green{0xff00ff00U}, grey{0xff808080U}, blue{0xff0000ffU}, yellow{0xffffff00U}, transparentBlack{0}, transparentWhite{0x00ffffffU}, darkgrey{0xff555555U}, lightgrey{0xffd3d3d3U}, orange{0xffffa500U};
}
template<typename T>
struct Rectangle
{
    Rectangle() = default;
    Rectangle(T x_, T y_, T w_, T h_) : x{x_}, y{y_}, w{w_}, h{h_} {}
    Rectangle(T w_, T h_) : w{w_}, h{h_} {}
    T getX() const { return x; }
    T getY() const { return y; }
    T getWidth() const { return w; }
    T getHeight() const { return h; }
    T getBottom() const { return y + h; }
    T getRight() const { return x + w; }
    Rectangle withBottomY(T b) const { return {x, b - h, w, h}; }
    Rectangle withHeight(T n) const { return {x, y, w, n}; }
    Rectangle withWidth(T n) const { return {x, y, n, h}; }
    Rectangle reduced(T dx, T dy) const { return {x + dx, y + dy, std::max(T(0), w - 2 * dx), std::max(T(0), h - 2 * dy)}; }
    Rectangle reduced(T d) const { return reduced(d, d); }
    template<typename F>
    T proportionOfWidth(F f) const
    {
        return static_cast<T>(std::nearbyint(static_cast<double>(w) * static_cast<double>(f)));
    }
    template<typename F>
    T proportionOfHeight(F f) const
    {
        return static_cast<T>(std::nearbyint(static_cast<double>(h) * static_cast<double>(f)));
    }
    Rectangle removeFromTop(T n)
    {
        n = std::min(n, h);
        Rectangle r{x, y, w, n};
        y += n;
        h -= n;
        return r;
    }
    Rectangle removeFromBottom(T n)
    {
        n = std::min(n, h);
        h -= n;
        return {x, y + h, w, n};
    }
    Rectangle removeFromLeft(T n)
    {
        n = std::min(n, w);
        Rectangle r{x, y, n, h};
        x += n;
        w -= n;
        return r;
    }
    Rectangle removeFromRight(T n)
    {
        n = std::min(n, w);
        w -= n;
        return {x + w, y, n, h};
    }
    Rectangle withX(T n) const { return {n, y, w, h}; }
    Rectangle withY(T n) const { return {x, n, w, h}; }
    Rectangle withSize(T a, T b) const { return {x, y, a, b}; }
    Rectangle withZeroOrigin() const { return {w, h}; }
    Rectangle withRightX(T r) const { return {r - w, y, w, h}; }
    Rectangle withTop(T n) const { return {x, n, w, std::max(T(0), y + h - n)}; }
    Rectangle withBottom(T n) const { return {x, y, w, std::max(T(0), n - y)}; }
    Rectangle withLeft(T n) const { return {n, y, std::max(T(0), x + w - n), h}; }
    Rectangle withRight(T n) const { return {x, y, std::max(T(0), n - x), h}; }
    Rectangle withTrimmedTop(T n) const { return withTop(y + n); }
    Rectangle withTrimmedBottom(T n) const { return {x, y, w, h - n}; }
    Rectangle withTrimmedLeft(T n) const { return withLeft(x + n); }
    Rectangle withTrimmedRight(T n) const { return {x, y, w - n, h}; }
    Rectangle translated(T dx, T dy) const { return {x + dx, y + dy, w, h}; }
    Rectangle expanded(T dx, T dy) const { return reduced(-dx, -dy); }
    Rectangle expanded(T d) const { return reduced(-d, -d); }
    static Rectangle leftTopRightBottom(T l, T t, T r, T b) { return {l, t, r - l, b - t}; }
    bool isEmpty() const { return w <= T(0) or h <= T(0); }
    bool contains(T px, T py) const { return px >= x and py >= y and px < x + w and py < y + h; }
    T getCentreX() const { return x + w / 2; }
    T getCentreY() const { return y + h / 2; }
    bool operator==(Rectangle const& o) const { return x == o.x and y == o.y and w == o.w and h == o.h; }
    Rectangle<float> toFloat() const { return {static_cast<float>(x), static_cast<float>(y), static_cast<float>(w), static_cast<float>(h)}; }
    void setX(T n) { x = n; }
    void setY(T n) { y = n; }
    void setWidth(T n) { w = n; }
    void setHeight(T n) { h = n; }
    T x{}, y{}, w{}, h{};
};
struct Image
{
    enum PixelFormat
    {
        UnknownFormat,
        RGB,
        ARGB,
        SingleChannel
    };
    Image() = default;
    Image(PixelFormat, int w, int h, bool) : width{w}, height{h}, px{std::make_shared<std::vector<Colour>>(static_cast<std::size_t>(std::max(w, 0)) * static_cast<std::size_t>(std::max(h, 0)))} {}
    bool isValid() const { return px != nullptr; }
    bool isNull() const { return px == nullptr; }
    int getWidth() const { return width; }
    int getHeight() const { return height; }
    Rectangle<int> getBounds() const { return {0, 0, width, height}; }
    void setPixelAt(int x, int y, Colour c)
    {
        if (isPositiveAndBelow(x, width) and isPositiveAndBelow(y, height)) {
            (*px)[static_cast<std::size_t>(y) * static_cast<std::size_t>(width) + static_cast<std::size_t>(x)] = c;
        }
    }
    Colour getPixelAt(int x, int y) const
    {
        if (isPositiveAndBelow(x, width) and isPositiveAndBelow(y, height)) {
            return (*px)[static_cast<std::size_t>(y) * static_cast<std::size_t>(width) + static_cast<std::size_t>(x)];
        }
        return {};
    }
    void clear(Rectangle<int> const& r, Colour c = {})
    {
        for (int y = std::max(0, r.y); y < std::min(height, r.y + r.h); ++y) {
            for (int x = std::max(0, r.x); x < std::min(width, r.x + r.w); ++x) {
                setPixelAt(x, y, c);
            }
        }
    }
    Image createCopy() const
    {
        auto r = *this;
        if (px) {
            r.px = std::make_shared<std::vector<Colour>>(*px);
        }
        return r;
    }
    PixelFormat getFormat() const { return ARGB; }
    bool hasAlphaChannel() const { return true; }
    struct BitmapData
    {
        enum ReadWriteMode
        {
            readOnly,
            writeOnly,
            readWrite
        };
        BitmapData(Image& i, ReadWriteMode) : width{i.width}, height{i.height}, img{i} {}
        BitmapData(Image& i, int x, int y, int w, int h, ReadWriteMode = readWrite) : width{w}, height{h}, img{i}, ox{x}, oy{y} {}
        Colour getPixelColour(int x, int y) const { return img.getPixelAt(ox + x, oy + y); }
        void setPixelColour(int x, int y, Colour c) { img.setPixelAt(ox + x, oy + y, c); }
        int width, height;
        Image& img;
        int ox{0}, oy{0};
    };
    int width{0}, height{0};
    std::shared_ptr<std::vector<Colour>> px;
};
struct Graphics
{
    explicit Graphics(Image const& i) : img{i} {}
    void setColour(Colour c) { colour = c; }
    void fillAll(Colour c)
    {
        if (img.px) {
            std::fill(img.px->begin(), img.px->end(), c);
        }
    }
    void fillRect(Rectangle<int> r)
    {
        for (int y = std::max(0, r.y); y < std::min(img.height, r.y + r.h); ++y) {
            for (int x = std::max(0, r.x); x < std::min(img.width, r.x + r.w); ++x) {
                img.setPixelAt(x, y, colour);
            }
        }
    }
    void fillAll() { fillAll(colour); }
    void fillRect(int x, int y, int w, int h) { fillRect(Rectangle<int>{x, y, w, h}); }
    void fillRect(Rectangle<float> r) { fillRect(Rectangle<int>{static_cast<int>(r.x), static_cast<int>(r.y), static_cast<int>(r.w), static_cast<int>(r.h)}); }
    void fillRect(float x, float y, float w, float h) { fillRect(Rectangle<float>{x, y, w, h}); }
    void setPixel(int x, int y) { img.setPixelAt(x, y, colour); }
    void drawVerticalLine(int x, float top, float bottom) { fillRect(Rectangle<float>{static_cast<float>(x), top, 1.0F, bottom - top}); }
    void drawHorizontalLine(int y, float left, float right) { fillRect(Rectangle<float>{left, static_cast<float>(y), right - left, 1.0F}); }
    void drawRect(Rectangle<int>, int = 1) {}
    void drawRect(int, int, int, int, int = 1) {}
    void drawText(String const&, Rectangle<int>, int, bool = true) {}
    void setFont(float) {}
    void setOpacity(float a) { colour = colour.withAlpha(a); }
    void drawImage(Image const&, Rectangle<float>) {}
    void drawImageAt(Image const& o, int x, int y, bool = false)
    {
        for (int b = 0; b < o.height; ++b) {
            for (int a = 0; a < o.width; ++a) {
                img.setPixelAt(x + a, y + b, o.getPixelAt(a, b));
            }
        }
    }
    Image img;
    Colour colour;
};
struct RectanglePlacement
{
    enum Flags
    {
        xLeft = 1, xRight = 2, xMid = 4, yTop = 8, yBottom = 16, yMid = 32,
        stretchToFit = 64, fillDestination = 128, onlyReduceInSize = 256, onlyIncreaseInSize = 512, doNotResize = 768,
        centred      = 36
    };
    RectanglePlacement(int f = 36) : flags{f} {}
    int flags;
};

// ------------------------------------------------------------------------------------------------------- components
struct LookAndFeel
{
    Colour findColour(int) const { return Colours::grey; }
};
struct ResizableWindow
{
    enum
    {
        backgroundColourId = 1
    };
};
class Component
{
public:
    Component() : _alive{std::make_shared<Component*>(this)} {}
    Component(Component const&)            = delete;
    Component& operator=(Component const&) = delete;
    virtual ~Component()
    {
        *_alive = nullptr;
        for (auto* c : children) {
            c->parent = nullptr;
        }
        if (parent != nullptr) {
            std::erase(parent->children, this);
        }
    }
    virtual void paint(Graphics&) {}
    virtual void resized() {}
    void addChildComponent(Component* c)
    {
        if (c->parent != nullptr) {
            std::erase(c->parent->children, c);
        }
        c->parent = this;
        children.push_back(c);
    }
    void addAndMakeVisible(Component& c) { addChildComponent(&c); }
    void addAndMakeVisible(Component* c) { addChildComponent(c); }
    void addChildComponent(Component& c) { addChildComponent(&c); }
    void removeAllChildren()
    {
        while (not children.empty()) {
            removeChildComponent(children.back());
        }
    }
    int getNumChildComponents() const { return static_cast<int>(children.size()); }
    Component* getChildComponent(int i) const { return i >= 0 and i < getNumChildComponents() ? children[static_cast<std::size_t>(i)] : nullptr; }
    Component* getParentComponent() const { return parent; }
    bool isVisible() const { return true; }
    void setName(String const& n) { component_name = n; }
    String getName() const { return component_name; }
    void setComponentID(String const& n) { component_id = n; }
    String getComponentID() const { return component_id; }
    void setOpaque(bool) {}
    void setInterceptsMouseClicks(bool, bool) {}
    void setWantsKeyboardFocus(bool) {}
    void toFront(bool) {}
    void setTopLeftPosition(int a, int b) { setBounds(a, b, bounds.w, bounds.h); }
    int getX() const { return bounds.x; }
    int getY() const { return bounds.y; }
    void repaint(Rectangle<int>) {}
    void setColour(int, Colour) {}
    Colour findColour(int) const { return Colours::grey; }
    void removeChildComponent(Component* c)
    {
        std::erase(children, c);
        c->parent = nullptr;
    }
    Rectangle<int> getLocalBounds() const { return {0, 0, bounds.w, bounds.h}; }
    Rectangle<int> getBounds() const { return bounds; }
    int getWidth() const { return bounds.w; }
    int getHeight() const { return bounds.h; }
    void setBounds(Rectangle<int> r)
    {
        auto const changed = r.w != bounds.w or r.h != bounds.h;
        bounds             = r;
        if (changed) {
            resized();
        }
    }
    void setBounds(int x, int y, int w, int h) { setBounds(Rectangle<int>{x, y, w, h}); }
    void setSize(int w, int h) { setBounds(bounds.x, bounds.y, w, h); }
    void setVisible(bool) {}
    void setEnabled(bool b) { enabled = b; }
    bool isEnabled() const { return enabled; }
    void repaint() {}
    LookAndFeel& getLookAndFeel() const
    {
        static LookAndFeel l;
        return l;
    }
    void setLookAndFeel(LookAndFeel*) {}

    template<typename T>
    class SafePointer
    {
    public:
        SafePointer() = default;
        SafePointer(T* c) : _p{c == nullptr ? nullptr : static_cast<Component*>(c)->_alive} {}
        T* getComponent() const { return _p == nullptr or *_p == nullptr ? nullptr : static_cast<T*>(*_p); }
        operator T*() const { return getComponent(); }
        T* operator->() const { return getComponent(); }
        void deleteAndZero() { delete getComponent(); }
        bool operator==(std::nullptr_t) const { return getComponent() == nullptr; }
        bool operator!=(std::nullptr_t) const { return getComponent() != nullptr; }

    private:
        std::shared_ptr<Component*> _p;
    };

    String component_name, component_id;
    Component* parent{nullptr};
    std::vector<Component*> children;
    Rectangle<int> bounds;
    bool enabled{true};

private:
    std::shared_ptr<Component*> _alive;
};
struct TextButton : Component
{
    TextButton() = default;
    explicit TextButton(String t) : text{std::move(t)} {}
    void setButtonText(String const& t) { text = t; }
    String const& getButtonText() const { return text; }
    std::function<void()> onClick;
    String text;
};
enum NotificationType
{
    dontSendNotification,
    sendNotification,
    sendNotificationSync,
    sendNotificationAsync
};
struct Label : Component
{
    explicit Label(String n = {}, String t = {}) : name{std::move(n)}, text{std::move(t)} {}
    void setText(String const& t, NotificationType)
    {
        jsim::control("Label");
        text = t;
    }
    String getText(bool = false) const { return text; }
    void setJustificationType(int) {}
    void attachToComponent(Component*, bool) {}
    void setEditable(bool) {}
    String name, text;
};
struct TextEditor : Component
{
    void setReadOnly(bool) {}
    void setMultiLine(bool, bool = true) {}
    void setText(String const& t, bool = true)
    {
        jsim::control("TextEditor");
        auto const old = text;
        text           = t;
        caret          = text.size();
        if (text.size() > old.size() and text.compare(0, old.size(), old) == 0) {
            added += text.substr(old.size());
        } else {
            added += text;
        }
    }
    String getText() const { return text; }
    bool isEmpty() const { return text.empty(); }
    void setCaretVisible(bool) {}
    void setScrollbarsShown(bool) {}
    void setCaretPosition(int n) { caret = static_cast<std::size_t>(std::clamp(n, 0, static_cast<int>(text.size()))); }
    int getTotalNumChars() const { return static_cast<int>(text.size()); }
    void clear()
    {
        jsim::control("TextEditor");
        text  = String{};
        caret = 0;
    }
    bool moveCaretToEnd(bool)
    {
        jsim::control("TextEditor");
        caret = text.size();
        return true;
    }
    bool moveCaretToEnd() { return moveCaretToEnd(false); }
    void insertTextAtCaret(String const& t)
    {
        jsim::control("TextEditor");
        caret = std::min(caret, text.size());
        text  = String{text.substr(0, caret) + t + text.substr(caret)};
        caret += t.size();
        added += t;
    }
    String text;
    std::size_t caret{0};
    std::string added;  // everything that was ever put in
};
struct ImageComponent : Component
{
    void setImage(Image const& i)
    {
        jsim::control("ImageComponent");
        image = i;
    }
    Image getImage() const { return image; }
    void setImagePlacement(RectanglePlacement) {}
    Image image;
};
struct PropertyComponent : Component
{
    explicit PropertyComponent(String n) : name{std::move(n)} {}
    String name;
};
struct SliderPropertyComponent : PropertyComponent
{
    SliderPropertyComponent(Value const& v, String n, double lo, double hi, double step, double = 1.0, bool = false) : PropertyComponent{std::move(n)}, value{v}, min{lo}, max{hi}, interval{step} {}
    Value value;
    double min, max, interval;
};
struct ChoicePropertyComponent : PropertyComponent
{
    ChoicePropertyComponent(Value const& v, String n, StringArray c, Array<var> vals) : PropertyComponent{std::move(n)}, value{v}, choices{std::move(c)}, values{std::move(vals)} {}
    Value value;
    StringArray choices;
    Array<var> values;
};
struct MultiChoicePropertyComponent : PropertyComponent
{
    MultiChoicePropertyComponent(Value const& v, String n, StringArray c, Array<var> vals, int = -1) : PropertyComponent{std::move(n)}, value{v}, choices{std::move(c)}, values{std::move(vals)} {}
    Value value;
    StringArray choices;
    Array<var> values;
};
struct PropertyPanel : Component
{
    ~PropertyPanel() override { clear(); }
    void clear()
    {
        for (auto* p : props) {
            delete p;
        }
        props.clear();
    }
    bool isEmpty() const { return props.empty(); }
    void addProperties(Array<PropertyComponent*> const& l, int = 0)
    {
        for (auto* p : l) {
            props.push_back(p);
            addAndMakeVisible(p);
        }
    }
    void addSection(String const&, Array<PropertyComponent*> const& l, bool = true, int = -1) { addProperties(l); }
    std::vector<PropertyComponent*> props;
};
struct TabbedButtonBar
{
    enum Orientation
    {
        TabsAtTop,
        TabsAtBottom,
        TabsAtLeft,
        TabsAtRight
    };
};
struct TabbedComponent : Component
{
    explicit TabbedComponent(TabbedButtonBar::Orientation) {}
    ~TabbedComponent() override
    {
        for (auto& t : tabs) {
            if (t.second) {
                delete t.first.getComponent();
            }
        }
    }
    void addTab(String const&, Colour, Component* c, bool own, int = -1)
    {
        tabs.emplace_back(SafePointer<Component>(c), own);
        addAndMakeVisible(c);
    }
    void resized() override
    {
        for (auto& t : tabs) {
            if (auto* c = t.first.getComponent()) {
                c->setBounds(getLocalBounds().withHeight(std::max(0, getHeight() - 30)));
            }
        }
    }
    std::vector<std::pair<SafePointer<Component>, bool>> tabs;
};
struct TooltipWindow : Component
{
    void setMillisecondsBeforeTipAppears(int = 700) {}
};
template<typename T>
struct SharedResourcePointer
{
    SharedResourcePointer()
    {
        _p = last().lock();
        if (not _p) {
            _p     = std::make_shared<T>();
            last() = _p;
        }
    }
    static std::weak_ptr<T>& last()
    {
        static std::weak_ptr<T> w;
        return w;
    }
    T* operator->() const { return _p.get(); }
    T& operator*() const { return *_p; }
    T& get() const { return *_p; }
    std::shared_ptr<T> _p;
};

// ------------------------------------------------------------------------------------------------------- dialogs
struct FileBrowserComponent
{
    enum FileChooserFlags
    {
        openMode       = 1,
        saveMode       = 2,
        canSelectFiles = 4
    };
};
class FileChooser
{
public:
    FileChooser(String t, File const&, String const&) : title{std::move(t)} {}
    ~FileChooser() { std::erase(open(), this); }
    void launchAsync(int, std::function<void(FileChooser const&)> f)
    {
        jsim::control("FileChooser");
        _f = std::move(f);
        open().push_back(this);
    }
    Array<File> getResults() const { return results; }
    File getResult() const { return results.isEmpty() ? File{} : results[0]; }
    static std::vector<FileChooser*>& open()
    {
        static std::vector<FileChooser*> v;
        return v;
    }
    void finish(Array<File> r)
    {
        std::erase(open(), this);
        results = std::move(r);
        auto f  = std::move(_f);
        f(*this);
    }
    String title;
    Array<File> results;

private:
    std::function<void(FileChooser const&)> _f;
};

// ------------------------------------------------------------------------------------------------------- jobs
struct ThreadPoolOptions
{
    ThreadPoolOptions withNumberOfThreads(int n) const
    {
        auto r    = *this;
        r.threads = n;
        return r;
    }
    ThreadPoolOptions withThreadName(String const&) const { return *this; }
    int threads{4};  // (JUCE: one per CPU)
};
class ThreadPool
{
public:
    ThreadPool() : ThreadPool{ThreadPoolOptions{}} {}
    explicit ThreadPool(ThreadPoolOptions const& o) : options{o} { all().push_back(this); }
    explicit ThreadPool(int n) : ThreadPool{ThreadPoolOptions{}.withNumberOfThreads(n)} {}
    ~ThreadPool()
    {
        removeAllJobs(true, 5000);
        std::erase(all(), this);
    }
    void addJob(std::function<void()> f)
    {
        jsim::Whole w;
        jobs.push_back(std::move(f));
    }
    bool removeAllJobs(bool, int)
    {
        std::deque<std::function<void()>> dropped;
        {
            jsim::Whole w;
            dropped.swap(jobs);
        }
        dropped.clear();
        while (running > 0 and jsim::idle()) {
        }
        return running == 0;
    }
    int getNumJobs() const { return static_cast<int>(jobs.size()) + running; }
    static std::vector<ThreadPool*>& all()
    {
        static std::vector<ThreadPool*> v;
        return v;
    }
    ThreadPoolOptions options;
    std::deque<std::function<void()>> jobs;
    int running{0};
};
}  // namespace juce
