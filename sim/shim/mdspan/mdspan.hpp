// Offline stand-in for kokkos/mdspan (the library neo depends on is not installed in this sandbox).
// Implements the subset of the reference implementation that neo uses.  Two additions for simulation:
//  * every element access goes through SIM_MDSPAN_TOUCH() (a yield point of the simulator, see sim.hpp)
//  * index and slice bounds are always checked (an out-of-extents access is undefined behaviour upstream)
#pragma once

#include <array>
#include <cassert>
#include <concepts>
#include <cstddef>
#include <cstdio>
#include <cstdlib>
#include <limits>
#include <span>
#include <tuple>
#include <type_traits>
#include <utility>

#if !defined(SIM_MDSPAN_TOUCH)
    #define SIM_MDSPAN_TOUCH() ((void)0)
#endif

namespace Kokkos {

namespace simdetail {

[[noreturn]] inline void fail(char const* what, std::size_t idx, std::size_t ext)
{
    std::fprintf(stderr, "SIM-BOUNDS: %s index=%zu extent=%zu\n", what, idx, ext);
    std::fflush(stderr);
    std::abort();
}

template<typename T>
constexpr auto sz(T const& v) -> std::size_t
{
    if constexpr (std::is_integral_v<T>) {
        return static_cast<std::size_t>(v);
    } else {
        return static_cast<std::size_t>(v);
    }
}

}  // namespace simdetail

inline constexpr auto dynamic_extent = std::dynamic_extent;

struct full_extent_t
{
    explicit full_extent_t() = default;
};
inline constexpr auto full_extent = full_extent_t{};

template<typename OffsetType, typename ExtentType, typename StrideType>
struct strided_slice
{
    using offset_type = OffsetType;
    using extent_type = ExtentType;
    using stride_type = StrideType;
    [[no_unique_address]] OffsetType offset{};
    [[no_unique_address]] ExtentType extent{};
    [[no_unique_address]] StrideType stride{};
};
template<typename O, typename E, typename S>
strided_slice(O, E, S) -> strided_slice<O, E, S>;

// ------------------------------------------------------------------ extents
template<typename IndexType, std::size_t... Extents>
struct extents
{
    using index_type = IndexType;
    using size_type  = std::make_unsigned_t<IndexType>;
    using rank_type  = std::size_t;

    static constexpr auto rank() noexcept -> rank_type { return sizeof...(Extents); }

    static constexpr auto rank_dynamic() noexcept -> rank_type
    {
        return (std::size_t(0) + ... + std::size_t(Extents == std::dynamic_extent));
    }

    static constexpr auto static_extent(rank_type r) noexcept -> std::size_t
    {
        constexpr std::array<std::size_t, sizeof...(Extents) + 1> e{Extents..., 0};
        return e[r];
    }

    constexpr extents() noexcept { init_static(); }

    template<typename... I>
        requires(
            (std::is_convertible_v<I, IndexType> and ...) and (sizeof...(I) > 0)
            and (sizeof...(I) == sizeof...(Extents) or sizeof...(I) == rank_dynamic())
        )
    constexpr explicit extents(I... is) noexcept
    {
        init_static();
        std::array<IndexType, sizeof...(I)> v{static_cast<IndexType>(is)...};
        assign(v);
    }

    template<typename O, std::size_t N>
        requires(std::is_convertible_v<O, IndexType> and (N == sizeof...(Extents) or N == rank_dynamic()))
    constexpr explicit(N != rank_dynamic()) extents(std::array<O, N> const& a) noexcept
    {
        init_static();
        std::array<IndexType, N> v{};
        for (std::size_t i = 0; i < N; ++i) {
            v[i] = static_cast<IndexType>(a[i]);
        }
        assign(v);
    }

    template<typename O, std::size_t... OE>
        requires(sizeof...(OE) == sizeof...(Extents) and not std::same_as<extents<O, OE...>, extents>)
    constexpr explicit(
        (((Extents != std::dynamic_extent) and (OE == std::dynamic_extent)) or ...)
        or (std::numeric_limits<IndexType>::max() < std::numeric_limits<O>::max())
    ) extents(extents<O, OE...> const& other) noexcept
    {
        init_static();
        for (std::size_t i = 0; i < rank(); ++i) {
            _e[i] = static_cast<IndexType>(other.extent(i));
        }
    }

    constexpr auto extent(rank_type r) const noexcept -> index_type { return _e[r]; }

    template<typename O, std::size_t... OE>
    friend constexpr auto operator==(extents const& l, extents<O, OE...> const& r) noexcept -> bool
    {
        if constexpr (sizeof...(OE) != sizeof...(Extents)) {
            return false;
        } else {
            for (std::size_t i = 0; i < rank(); ++i) {
                if (static_cast<std::size_t>(l.extent(i)) != static_cast<std::size_t>(r.extent(i))) {
                    return false;
                }
            }
            return true;
        }
    }

private:
    constexpr void init_static() noexcept
    {
        for (std::size_t i = 0; i < rank(); ++i) {
            _e[i] = static_extent(i) == std::dynamic_extent ? IndexType(0) : static_cast<IndexType>(static_extent(i));
        }
    }

    template<std::size_t N>
    constexpr void assign(std::array<IndexType, N> const& v) noexcept
    {
        if constexpr (N == sizeof...(Extents)) {
            for (std::size_t i = 0; i < N; ++i) {
                _e[i] = v[i];
            }
        } else {
            std::size_t d = 0;
            for (std::size_t i = 0; i < rank(); ++i) {
                if (static_extent(i) == std::dynamic_extent) {
                    _e[i] = v[d++];
                }
            }
        }
    }

    std::array<IndexType, sizeof...(Extents)> _e{};
};

namespace simdetail {
template<typename Index, typename Seq>
struct make_dextents;
template<typename Index, std::size_t... Is>
struct make_dextents<Index, std::index_sequence<Is...>>
{
    using type = extents<Index, ((void)Is, std::dynamic_extent)...>;
};
template<typename>
using dyn_for = std::size_t;
}  // namespace simdetail

template<typename IndexType, std::size_t Rank>
using dextents = typename simdetail::make_dextents<IndexType, std::make_index_sequence<Rank>>::type;

template<typename... I>
    requires(std::is_convertible_v<I, std::size_t> and ...)
explicit extents(I...) -> extents<std::size_t, (std::size_t(sizeof(simdetail::dyn_for<I>) * 0) + std::dynamic_extent)...>;

// ------------------------------------------------------------------ layouts
struct layout_left
{
    template<typename Extents>
    struct mapping;
};
struct layout_right
{
    template<typename Extents>
    struct mapping;
};
struct layout_stride
{
    template<typename Extents>
    struct mapping;
};

namespace simdetail {

template<typename Extents, typename... I>
constexpr void check_index(Extents const& e, I... is)
{
    std::size_t r = 0;
    (
        [&] {
            auto const v = static_cast<std::size_t>(is);
            if (v >= static_cast<std::size_t>(e.extent(r))) {
                fail("element", v, static_cast<std::size_t>(e.extent(r)));
            }
            ++r;
        }(),
        ...
    );
}

template<typename Layout, typename Extents>
struct mapping_base
{
    using extents_type = Extents;
    using index_type   = typename Extents::index_type;
    using size_type    = typename Extents::size_type;
    using rank_type    = typename Extents::rank_type;
    using layout_type  = Layout;

    constexpr mapping_base() noexcept = default;
    constexpr mapping_base(Extents const& e) noexcept : _ext{e} {}

    constexpr auto extents() const noexcept -> Extents const& { return _ext; }

    static constexpr auto is_always_unique() noexcept -> bool { return true; }
    static constexpr auto is_always_exhaustive() noexcept -> bool { return not std::same_as<Layout, layout_stride>; }
    static constexpr auto is_always_strided() noexcept -> bool { return true; }
    static constexpr auto is_unique() noexcept -> bool { return true; }
    static constexpr auto is_strided() noexcept -> bool { return true; }

    Extents _ext{};
};
}  // namespace simdetail

template<typename Extents>
struct layout_right::mapping : simdetail::mapping_base<layout_right, Extents>
{
    using base = simdetail::mapping_base<layout_right, Extents>;
    using typename base::index_type;
    using typename base::rank_type;
    using base::base;
    constexpr mapping() noexcept = default;
    constexpr mapping(Extents const& e) noexcept : base{e} {}
    template<typename O>
        requires(std::is_constructible_v<Extents, O>)
    constexpr mapping(layout_right::mapping<O> const& o) noexcept : base{Extents{o.extents()}}
    {}
    template<typename O>
        requires(Extents::rank() <= 1 and std::is_constructible_v<Extents, O>)
    constexpr mapping(layout_left::mapping<O> const& o) noexcept : base{Extents{o.extents()}}
    {}

    constexpr auto stride(rank_type r) const noexcept -> index_type
    {
        index_type s{1};
        for (auto i = r + 1; i < Extents::rank(); ++i) {
            s *= this->_ext.extent(i);
        }
        return s;
    }

    template<typename... I>
    constexpr auto operator()(I... is) const noexcept -> index_type
    {
        index_type off{0};
        std::size_t r = 0;
        ((off = static_cast<index_type>(off * this->_ext.extent(r) + static_cast<index_type>(is)), ++r), ...);
        return off;
    }

    constexpr auto required_span_size() const noexcept -> index_type
    {
        index_type s{1};
        for (std::size_t i = 0; i < Extents::rank(); ++i) {
            s *= this->_ext.extent(i);
        }
        return s;
    }
    static constexpr auto is_exhaustive() noexcept -> bool { return true; }
    friend constexpr auto operator==(mapping const& l, mapping const& r) noexcept -> bool
    {
        return l._ext == r._ext;
    }
};

template<typename Extents>
struct layout_left::mapping : simdetail::mapping_base<layout_left, Extents>
{
    using base = simdetail::mapping_base<layout_left, Extents>;
    using typename base::index_type;
    using typename base::rank_type;
    constexpr mapping() noexcept = default;
    constexpr mapping(Extents const& e) noexcept : base{e} {}
    template<typename O>
        requires(std::is_constructible_v<Extents, O>)
    constexpr mapping(layout_left::mapping<O> const& o) noexcept : base{Extents{o.extents()}}
    {}
    template<typename O>
        requires(Extents::rank() <= 1 and std::is_constructible_v<Extents, O>)
    constexpr mapping(layout_right::mapping<O> const& o) noexcept : base{Extents{o.extents()}}
    {}

    constexpr auto stride(rank_type r) const noexcept -> index_type
    {
        index_type s{1};
        for (rank_type i = 0; i < r; ++i) {
            s *= this->_ext.extent(i);
        }
        return s;
    }

    template<typename... I>
    constexpr auto operator()(I... is) const noexcept -> index_type
    {
        index_type off{0};
        index_type mul{1};
        std::size_t r = 0;
        ((off += static_cast<index_type>(is) * mul, mul *= this->_ext.extent(r), ++r), ...);
        return off;
    }

    constexpr auto required_span_size() const noexcept -> index_type
    {
        index_type s{1};
        for (std::size_t i = 0; i < Extents::rank(); ++i) {
            s *= this->_ext.extent(i);
        }
        return s;
    }
    static constexpr auto is_exhaustive() noexcept -> bool { return true; }
    friend constexpr auto operator==(mapping const& l, mapping const& r) noexcept -> bool
    {
        return l._ext == r._ext;
    }
};

template<typename Extents>
struct layout_stride::mapping : simdetail::mapping_base<layout_stride, Extents>
{
    using base = simdetail::mapping_base<layout_stride, Extents>;
    using typename base::index_type;
    using typename base::rank_type;
    constexpr mapping() noexcept = default;

    template<typename S>
    constexpr mapping(Extents const& e, std::array<S, Extents::rank()> const& s) noexcept : base{e}
    {
        for (std::size_t i = 0; i < Extents::rank(); ++i) {
            _s[i] = static_cast<index_type>(s[i]);
        }
    }

    template<typename S>
    constexpr mapping(Extents const& e, std::span<S, Extents::rank()> s) noexcept : base{e}
    {
        for (std::size_t i = 0; i < Extents::rank(); ++i) {
            _s[i] = static_cast<index_type>(s[i]);
        }
    }

    template<typename M>
        requires(
            not std::same_as<M, mapping> and requires(M const& m) {
                m.stride(0);
                m.extents();
            }
        )
    constexpr mapping(M const& m) noexcept : base{Extents{m.extents()}}
    {
        for (std::size_t i = 0; i < Extents::rank(); ++i) {
            _s[i] = static_cast<index_type>(m.stride(i));
        }
    }

    constexpr auto stride(rank_type r) const noexcept -> index_type { return _s[r]; }
    constexpr auto strides() const noexcept -> std::array<index_type, Extents::rank()> { return _s; }

    template<typename... I>
    constexpr auto operator()(I... is) const noexcept -> index_type
    {
        index_type off{0};
        std::size_t r = 0;
        ((off += static_cast<index_type>(is) * _s[r], ++r), ...);
        return off;
    }

    constexpr auto required_span_size() const noexcept -> index_type
    {
        index_type s{1};
        for (std::size_t i = 0; i < Extents::rank(); ++i) {
            if (this->_ext.extent(i) == 0) {
                return 0;
            }
            s += (this->_ext.extent(i) - 1) * _s[i];
        }
        return s;
    }
    constexpr auto is_exhaustive() const noexcept -> bool
    {
        index_type s{1};
        for (std::size_t i = 0; i < Extents::rank(); ++i) {
            s *= this->_ext.extent(i);
        }
        return s == required_span_size();
    }
    friend constexpr auto operator==(mapping const& l, mapping const& r) noexcept -> bool
    {
        return l._ext == r._ext and l._s == r._s;
    }

private:
    std::array<index_type, Extents::rank()> _s{};
};

// ------------------------------------------------------------------ accessor
template<typename T>
struct default_accessor
{
    using offset_policy    = default_accessor;
    using element_type     = T;
    using reference        = T&;
    using data_handle_type = T*;

    constexpr default_accessor() noexcept = default;
    template<typename O>
        requires(std::is_convertible_v<O (*)[], T (*)[]>)
    constexpr default_accessor(default_accessor<O>) noexcept
    {}

    constexpr auto access(data_handle_type p, std::size_t i) const noexcept -> reference
    {
        if (not std::is_constant_evaluated()) {
            SIM_MDSPAN_TOUCH();
        }
        return p[i];
    }
    constexpr auto offset(data_handle_type p, std::size_t i) const noexcept -> data_handle_type { return p + i; }
};

// ------------------------------------------------------------------ mdspan
template<typename T, typename Extents, typename Layout = layout_right, typename Accessor = default_accessor<T>>
struct mdspan
{
    using extents_type     = Extents;
    using layout_type      = Layout;
    using accessor_type    = Accessor;
    using mapping_type     = typename Layout::template mapping<Extents>;
    using element_type     = T;
    using value_type       = std::remove_cv_t<T>;
    using index_type       = typename Extents::index_type;
    using size_type        = typename Extents::size_type;
    using rank_type        = typename Extents::rank_type;
    using data_handle_type = typename Accessor::data_handle_type;
    using reference        = typename Accessor::reference;

    static constexpr auto rank() noexcept -> rank_type { return Extents::rank(); }
    static constexpr auto rank_dynamic() noexcept -> rank_type { return Extents::rank_dynamic(); }
    static constexpr auto static_extent(std::size_t r) noexcept -> std::size_t { return Extents::static_extent(r); }
    constexpr auto extent(rank_type r) const noexcept -> index_type { return _map.extents().extent(r); }

    constexpr mdspan()
        requires(rank_dynamic() > 0 and std::is_default_constructible_v<Accessor>)
    = default;
    constexpr mdspan(mdspan const&) = default;
    constexpr mdspan(mdspan&&)      = default;
    constexpr auto operator=(mdspan const&) -> mdspan& = default;
    constexpr auto operator=(mdspan&&) -> mdspan&      = default;

    template<typename... I>
        requires(
            (std::is_convertible_v<I, index_type> and ...)
            and (sizeof...(I) == rank() or sizeof...(I) == rank_dynamic())
            and std::is_default_constructible_v<Accessor>
        )
    constexpr explicit mdspan(data_handle_type p, I... e) : _ptr{std::move(p)}
                                                          , _map{Extents{static_cast<index_type>(e)...}}
    {}

    template<typename O, std::size_t N>
        requires(std::is_convertible_v<O, index_type> and (N == rank() or N == rank_dynamic()))
    constexpr mdspan(data_handle_type p, std::array<O, N> const& e) : _ptr{std::move(p)}
                                                                    , _map{Extents{e}}
    {}

    constexpr mdspan(data_handle_type p, Extents const& e)
        requires(std::is_constructible_v<mapping_type, Extents const&> and std::is_default_constructible_v<Accessor>)
        : _ptr{std::move(p)}
        , _map{e}
    {}

    constexpr mdspan(data_handle_type p, mapping_type const& m)
        requires(std::is_default_constructible_v<Accessor>)
        : _ptr{std::move(p)}
        , _map{m}
    {}

    constexpr mdspan(data_handle_type p, mapping_type const& m, Accessor const& a)
        : _ptr{std::move(p)}
        , _map{m}
        , _acc{a}
    {}

    template<typename OT, typename OE, typename OL, typename OA>
        requires(
            std::is_constructible_v<mapping_type, typename OL::template mapping<OE> const&>
            and std::is_constructible_v<Accessor, OA const&> and not std::same_as<mdspan<OT, OE, OL, OA>, mdspan>
        )
    constexpr mdspan(mdspan<OT, OE, OL, OA> const& o) : _ptr(o.data_handle())
                                                      , _map(o.mapping())
                                                      , _acc(o.accessor())
    {}

    template<typename... I>
        requires((std::is_convertible_v<I, index_type> and ...) and sizeof...(I) == rank())
    constexpr auto operator()(I... is) const -> reference
    {
        simdetail::check_index(_map.extents(), static_cast<index_type>(is)...);
        return _acc.access(_ptr, static_cast<std::size_t>(_map(static_cast<index_type>(is)...)));
    }

    template<typename I>
        requires(std::is_convertible_v<I, index_type> and rank() == 1)
    constexpr auto operator[](I i) const -> reference
    {
        simdetail::check_index(_map.extents(), static_cast<index_type>(i));
        return _acc.access(_ptr, static_cast<std::size_t>(_map(static_cast<index_type>(i))));
    }

    template<typename I, std::size_t N>
        requires(std::is_convertible_v<I const&, index_type> and rank() == N)
    constexpr auto operator[](std::array<I, N> const& i) const -> reference
    {
        return std::apply([this](auto... is) -> reference { return (*this)(is...); }, i);
    }
    template<typename I, std::size_t N>
        requires(std::is_convertible_v<I const&, index_type> and rank() == N)
    constexpr auto operator[](std::span<I, N> i) const -> reference
    {
        return [this, i]<std::size_t... Is>(std::index_sequence<Is...>) -> reference { return (*this)(i[Is]...); }(std::make_index_sequence<N>{});
    }
    friend constexpr void swap(mdspan& x, mdspan& y) noexcept
    {
        auto const tmp = x;
        x              = y;
        y              = tmp;
    }

    constexpr auto size() const noexcept -> size_type
    {
        size_type s{1};
        for (std::size_t i = 0; i < rank(); ++i) {
            s *= static_cast<size_type>(extent(i));
        }
        return s;
    }
    [[nodiscard]] constexpr auto empty() const noexcept -> bool { return size() == 0; }

    constexpr auto extents() const noexcept -> extents_type const& { return _map.extents(); }
    constexpr auto data_handle() const noexcept -> data_handle_type const&
    {
        if (not std::is_constant_evaluated()) {
            SIM_MDSPAN_TOUCH();
        }
        return _ptr;
    }
    constexpr auto mapping() const noexcept -> mapping_type const& { return _map; }
    constexpr auto accessor() const noexcept -> accessor_type const& { return _acc; }
    constexpr auto stride(rank_type r) const noexcept -> index_type { return _map.stride(r); }

    static constexpr auto is_always_unique() noexcept -> bool { return mapping_type::is_always_unique(); }
    static constexpr auto is_always_exhaustive() noexcept -> bool { return mapping_type::is_always_exhaustive(); }
    static constexpr auto is_always_strided() noexcept -> bool { return mapping_type::is_always_strided(); }
    constexpr auto is_unique() const noexcept -> bool { return _map.is_unique(); }
    constexpr auto is_exhaustive() const noexcept -> bool { return _map.is_exhaustive(); }
    constexpr auto is_strided() const noexcept -> bool { return _map.is_strided(); }

private:
    data_handle_type _ptr{};
    mapping_type _map{};
    [[no_unique_address]] accessor_type _acc{};
};

template<typename P, typename O, std::size_t N>
mdspan(P, std::array<O, N> const&) -> mdspan<std::remove_pointer_t<P>, dextents<std::size_t, N>>;

template<typename P, typename... I>
    requires((std::is_convertible_v<I, std::size_t> and ...) and (sizeof...(I) > 0) and std::is_pointer_v<P>)
explicit mdspan(P, I...) -> mdspan<std::remove_pointer_t<P>, dextents<std::size_t, sizeof...(I)>>;

template<typename P, typename IndexType, std::size_t... E>
    requires(std::is_pointer_v<P>)
mdspan(P, extents<IndexType, E...> const&) -> mdspan<std::remove_pointer_t<P>, extents<IndexType, E...>>;

template<typename P, typename M>
    requires(std::is_pointer_v<P> and requires { typename M::layout_type; })
mdspan(P, M const&) -> mdspan<std::remove_pointer_t<P>, typename M::extents_type, typename M::layout_type>;

template<typename M, typename A>
mdspan(typename A::data_handle_type const&, M const&, A const&)
    -> mdspan<typename A::element_type, typename M::extents_type, typename M::layout_type, A>;

// ------------------------------------------------------------------ submdspan
namespace simdetail {

template<typename T>
inline constexpr bool is_strided_slice = false;
template<typename A, typename B, typename C>
inline constexpr bool is_strided_slice<strided_slice<A, B, C>> = true;

template<typename S>
inline constexpr bool is_full = std::same_as<std::remove_cvref_t<S>, full_extent_t>;
template<typename S>
inline constexpr bool is_index = std::is_convertible_v<S, std::size_t> and not is_full<S>;
template<typename S>
inline constexpr bool is_strided_arg = is_strided_slice<std::remove_cvref_t<S>>;
template<typename S>
inline constexpr bool is_range = not is_index<S> and not is_full<S> and not is_strided_arg<S>;

struct slice_info
{
    std::size_t first;
    std::size_t count;
    std::size_t step;
};

template<typename S>
constexpr auto resolve(S const& s, std::size_t ext) -> slice_info
{
    if constexpr (is_full<S>) {
        return {0, ext, 1};
    } else if constexpr (is_index<S>) {
        auto const v = static_cast<std::size_t>(s);
        if (v >= ext) {
            fail("slice", v, ext);
        }
        return {v, 1, 1};
    } else if constexpr (is_strided_arg<S>) {
        auto const off = static_cast<std::size_t>(s.offset);
        auto const e   = static_cast<std::size_t>(s.extent);
        auto const st  = static_cast<std::size_t>(s.stride);
        if (off > ext or e > ext - off) {
            fail("strided slice", off + e, ext);
        }
        return {off, e == 0 ? 0 : 1 + (e - 1) / st, st};
    } else {
        auto const lo = static_cast<std::size_t>(std::get<0>(s));
        auto const hi = static_cast<std::size_t>(std::get<1>(s));
        if (lo > hi or hi > ext) {
            fail("range slice", hi, ext);
        }
        return {lo, hi - lo, 1};
    }
}

// layout_right is preserved when: any number of leading indices, then at most one range or full, then only full.
template<typename... S>
constexpr auto right_preserved() -> bool
{
    constexpr std::size_t n = sizeof...(S);
    constexpr std::array<int, n + 1> k{(is_index<S> ? 0 : is_range<S> ? 1 : is_full<S> ? 2 : 3)..., 0};
    std::size_t i = 0;
    while (i < n and k[i] == 0) {
        ++i;
    }
    if (i < n and (k[i] == 1 or k[i] == 2)) {
        ++i;
    }
    while (i < n and k[i] == 2) {
        ++i;
    }
    return i == n;
}

template<typename... S>
constexpr auto left_preserved() -> bool
{
    constexpr std::size_t n = sizeof...(S);
    constexpr std::array<int, n + 1> k{(is_index<S> ? 0 : is_range<S> ? 1 : is_full<S> ? 2 : 3)..., 0};
    std::size_t i = n;
    while (i > 0 and k[i - 1] == 0) {
        --i;
    }
    if (i > 0 and (k[i - 1] == 1 or k[i - 1] == 2)) {
        --i;
    }
    while (i > 0 and k[i - 1] == 2) {
        --i;
    }
    return i == 0;
}

template<typename Extents, typename... S>
struct sub_extents
{
    template<std::size_t R, typename Acc, typename... Rest>
    struct build;
    template<std::size_t R, std::size_t... Acc>
    struct build<R, std::index_sequence<Acc...>>
    {
        using type = extents<typename Extents::index_type, Acc...>;
    };
    template<std::size_t R, std::size_t... Acc, typename First, typename... Rest>
    struct build<R, std::index_sequence<Acc...>, First, Rest...>
    {
        using type = typename std::conditional_t<
            is_index<First>,
            build<R + 1, std::index_sequence<Acc...>, Rest...>,
            std::conditional_t<
                is_full<First>,
                build<R + 1, std::index_sequence<Acc..., Extents::static_extent(R)>, Rest...>,
                build<R + 1, std::index_sequence<Acc..., std::dynamic_extent>, Rest...>>>::type;
    };
    using type = typename build<0, std::index_sequence<>, S...>::type;
};

}  // namespace simdetail

template<typename T, typename Extents, typename Layout, typename Accessor, typename... Slices>
constexpr auto submdspan(mdspan<T, Extents, Layout, Accessor> const& src, Slices... slices)
{
    static_assert(sizeof...(Slices) == Extents::rank());

    using sub_ext = typename simdetail::sub_extents<Extents, Slices...>::type;
    using index_t = typename Extents::index_type;

    constexpr auto keep_right = std::same_as<Layout, layout_right> and simdetail::right_preserved<Slices...>();
    constexpr auto keep_left  = std::same_as<Layout, layout_left> and simdetail::left_preserved<Slices...>();
    using sub_layout          = std::conditional_t<
                 sub_ext::rank() == 0,
                 Layout,
                 std::conditional_t<keep_right, layout_right, std::conditional_t<keep_left, layout_left, layout_stride>>>;
    using sub_acc = typename Accessor::offset_policy;

    std::size_t offset = 0;
    std::array<index_t, sub_ext::rank()> ext{};
    std::array<index_t, sub_ext::rank()> str{};
    std::size_t r     = 0;
    std::size_t out   = 0;
    bool any_zero     = false;
    auto const handle = [&](auto const& s) {
        auto const info   = simdetail::resolve(s, static_cast<std::size_t>(src.extent(r)));
        auto const stride = static_cast<std::size_t>(src.stride(r));
        offset += info.first * stride;
        if constexpr (not simdetail::is_index<std::remove_cvref_t<decltype(s)>>) {
            ext[out] = static_cast<index_t>(info.count);
            str[out] = static_cast<index_t>(stride * info.step);
            any_zero = any_zero or info.count == 0;
            ++out;
        }
        ++r;
    };
    (handle(slices), ...);
    (void)any_zero;

    auto const sub_ext_v = sub_ext{ext};
    auto const handle_p  = src.accessor().offset(src.data_handle(), offset);
    if constexpr (std::same_as<sub_layout, layout_stride>) {
        using map_t = typename layout_stride::template mapping<sub_ext>;
        return mdspan<T, sub_ext, layout_stride, sub_acc>{handle_p, map_t{sub_ext_v, str}, sub_acc(src.accessor())};
    } else {
        using map_t = typename sub_layout::template mapping<sub_ext>;
        return mdspan<T, sub_ext, sub_layout, sub_acc>{handle_p, map_t{sub_ext_v}, sub_acc(src.accessor())};
    }
}

}  // namespace Kokkos
