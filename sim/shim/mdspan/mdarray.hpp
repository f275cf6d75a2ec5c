// Offline stand-in for kokkos/mdspan's mdarray (see mdspan.hpp next to this file).
#pragma once

#include <mdspan/mdspan.hpp>

#include <vector>

namespace Kokkos::Experimental {

template<typename T, typename Extents, typename Layout = layout_right, typename Container = std::vector<T>>
struct mdarray
{
    using extents_type        = Extents;
    using layout_type         = Layout;
    using container_type      = Container;
    using mapping_type        = typename Layout::template mapping<Extents>;
    using element_type        = T;
    using value_type          = std::remove_cv_t<T>;
    using index_type          = typename Extents::index_type;
    using size_type           = typename Extents::size_type;
    using rank_type           = typename Extents::rank_type;
    using pointer             = T*;
    using const_pointer       = T const*;
    using reference           = T&;
    using const_reference     = T const&;
    using mdspan_type         = mdspan<T, Extents, Layout>;
    using const_mdspan_type   = mdspan<T const, Extents, Layout>;

    static constexpr auto rank() noexcept -> rank_type { return Extents::rank(); }
    static constexpr auto rank_dynamic() noexcept -> rank_type { return Extents::rank_dynamic(); }
    static constexpr auto static_extent(std::size_t r) noexcept -> std::size_t { return Extents::static_extent(r); }
    constexpr auto extent(rank_type r) const noexcept -> index_type { return _map.extents().extent(r); }

    constexpr mdarray()
        requires(rank_dynamic() != 0)
    = default;
    constexpr mdarray()
        requires(rank_dynamic() == 0)
        : mdarray(Extents{})
    {}
    constexpr mdarray(mdarray const&) = default;
    constexpr mdarray(mdarray&&)      = default;
    constexpr auto operator=(mdarray const&) -> mdarray& = default;
    constexpr auto operator=(mdarray&&) -> mdarray&      = default;

    template<typename... I>
        requires(
            (std::is_convertible_v<I, index_type> and ...) and (sizeof...(I) > 0)
            and (sizeof...(I) == rank() or sizeof...(I) == rank_dynamic())
        )
    constexpr explicit mdarray(I... is) : mdarray(Extents{static_cast<index_type>(is)...})
    {}

    constexpr explicit mdarray(Extents const& e) : _map{e}, _ctr(static_cast<std::size_t>(_map.required_span_size())) {}

    constexpr explicit mdarray(mapping_type const& m)
        : _map{m}
        , _ctr(static_cast<std::size_t>(_map.required_span_size()))
    {}

    constexpr mdarray(Extents const& e, value_type const& v)
        : _map{e}
        , _ctr(static_cast<std::size_t>(_map.required_span_size()), v)
    {}

    constexpr mdarray(mapping_type const& m, value_type const& v)
        : _map{m}
        , _ctr(static_cast<std::size_t>(_map.required_span_size()), v)
    {}
    [[nodiscard]] constexpr auto empty() const noexcept -> bool { return size() == 0; }
    constexpr auto extract_container() && -> container_type&& { return std::move(_ctr); }

    constexpr mdarray(Extents const& e, container_type const& c) : _map{e}, _ctr(c) {}
    constexpr mdarray(Extents const& e, container_type&& c) : _map{e}, _ctr(std::move(c)) {}

    template<typename... I>
        requires((std::is_convertible_v<I, index_type> and ...) and sizeof...(I) == rank())
    constexpr auto operator()(I... is) -> reference
    {
        return to_mdspan()(is...);
    }

    template<typename... I>
        requires((std::is_convertible_v<I, index_type> and ...) and sizeof...(I) == rank())
    constexpr auto operator()(I... is) const -> const_reference
    {
        return to_mdspan()(is...);
    }

    template<typename I>
        requires(std::is_convertible_v<I, index_type> and rank() == 1)
    constexpr auto operator[](I i) -> reference
    {
        return to_mdspan()[i];
    }

    template<typename I>
        requires(std::is_convertible_v<I, index_type> and rank() == 1)
    constexpr auto operator[](I i) const -> const_reference
    {
        return to_mdspan()[i];
    }

    template<typename I, std::size_t N>
    constexpr auto operator[](std::array<I, N> const& i) -> reference
    {
        return to_mdspan()[i];
    }
    template<typename I, std::size_t N>
    constexpr auto operator[](std::array<I, N> const& i) const -> const_reference
    {
        return to_mdspan()[i];
    }

    constexpr auto data() noexcept -> pointer { return _ctr.data(); }
    constexpr auto data() const noexcept -> const_pointer { return _ctr.data(); }
    constexpr auto container() noexcept -> container_type& { return _ctr; }
    constexpr auto container() const noexcept -> container_type const& { return _ctr; }
    constexpr auto container_size() const noexcept { return _ctr.size(); }

    constexpr auto size() const noexcept -> size_type
    {
        size_type s{1};
        for (std::size_t i = 0; i < rank(); ++i) {
            s *= static_cast<size_type>(extent(i));
        }
        return s;
    }

    constexpr auto extents() const noexcept -> Extents const& { return _map.extents(); }
    constexpr auto mapping() const noexcept -> mapping_type const& { return _map; }
    constexpr auto stride(rank_type r) const noexcept -> index_type { return _map.stride(r); }
    constexpr auto is_unique() const noexcept -> bool { return true; }
    constexpr auto is_exhaustive() const noexcept -> bool { return _map.is_exhaustive(); }
    constexpr auto is_strided() const noexcept -> bool { return true; }
    static constexpr auto is_always_unique() noexcept -> bool { return true; }
    static constexpr auto is_always_exhaustive() noexcept -> bool { return mapping_type::is_always_exhaustive(); }
    static constexpr auto is_always_strided() noexcept -> bool { return true; }

    constexpr auto to_mdspan() -> mdspan_type
    {
        check_container();
        return mdspan_type{_ctr.data(), _map};
    }
    constexpr auto to_mdspan() const -> const_mdspan_type
    {
        check_container();
        return const_mdspan_type{_ctr.data(), _map};
    }

    constexpr operator mdspan_type() { return to_mdspan(); }
    constexpr operator const_mdspan_type() const { return to_mdspan(); }

private:
    // A moved-from mdarray keeps its mapping but owns no elements (upstream behaves the same): indexing through
    // a view of it is undefined behaviour, which the address sanitizer then reports at the access itself.
    constexpr void check_container() const {}

    mapping_type _map{};
    container_type _ctr{};
};

}  // namespace Kokkos::Experimental
