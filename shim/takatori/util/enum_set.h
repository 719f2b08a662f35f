#pragma once
#include <cstddef>
#include <cstdint>
#include <initializer_list>
#include <iterator>
#include <ostream>
#include <type_traits>
namespace takatori::util {
template<class E, E first, E last>
class enum_set {
    using base = std::underlying_type_t<E>;
    static constexpr base lo = static_cast<base>(first);
    static constexpr base hi = static_cast<base>(last);
    static_assert(hi >= lo);
    static constexpr std::size_t width = static_cast<std::size_t>(hi - lo) + 1;
    static constexpr std::size_t words = (width + 63) / 64;
public:
    using value_type = E;
    static constexpr E min_value = first;
    static constexpr E max_value = last;
    class iterator {
    public:
        using value_type = E; using reference = E; using pointer = void; using difference_type = std::ptrdiff_t;
        using iterator_category = std::input_iterator_tag;
        constexpr iterator(enum_set const* s, std::size_t i) : s_ { s }, i_ { i } { skip(); }
        constexpr E operator*() const { return static_cast<E>(static_cast<base>(lo + static_cast<base>(i_))); }
        constexpr iterator& operator++() { ++i_; skip(); return *this; }
        constexpr iterator operator++(int) { auto r = *this; ++*this; return r; }
        friend constexpr bool operator==(iterator const& a, iterator const& b) { return a.i_ == b.i_; }
        friend constexpr bool operator!=(iterator const& a, iterator const& b) { return a.i_ != b.i_; }
    private:
        enum_set const* s_; std::size_t i_;
        constexpr void skip() { while (i_ < width && !s_->bit(i_)) { ++i_; } }
    };
    using const_iterator = iterator;
    constexpr enum_set() noexcept = default;
    constexpr enum_set(std::initializer_list<E> v) { for (auto e : v) { insert(e); } }
    template<class... V, class = std::enable_if_t<(std::is_same_v<V, E> && ...)>>
    explicit constexpr enum_set(E v, V... r) { insert(v); (insert(r), ...); }
    static constexpr std::size_t capacity() noexcept { return width; }
    constexpr bool contains(E v) const noexcept { return in(v) && bit(idx(v)); }
    constexpr bool empty() const noexcept { return size() == 0; }
    constexpr std::size_t size() const noexcept { std::size_t n = 0; for (std::size_t i = 0; i < width; ++i) { n += bit(i) ? 1 : 0; } return n; }
    constexpr enum_set& insert(E v) noexcept { w_[idx(v) / 64] |= 1ULL << (idx(v) % 64); return *this; }
    constexpr enum_set& erase(E v) noexcept { w_[idx(v) / 64] &= ~(1ULL << (idx(v) % 64)); return *this; }
    constexpr enum_set& clear() noexcept { for (auto& x : w_) { x = 0; } return *this; }
    constexpr bool operator[](E v) const noexcept { return contains(v); }
    constexpr iterator begin() const { return { this, 0 }; }
    constexpr iterator end() const { return { this, width }; }
    constexpr enum_set& operator+=(E v) { return insert(v); }
    constexpr enum_set& operator-=(E v) { return erase(v); }
    constexpr enum_set& operator+=(enum_set const& o) { for (std::size_t i = 0; i < words; ++i) { w_[i] |= o.w_[i]; } return *this; }
    constexpr enum_set& operator|=(enum_set const& o) { return *this += o; }
    constexpr enum_set& operator&=(enum_set const& o) { for (std::size_t i = 0; i < words; ++i) { w_[i] &= o.w_[i]; } return *this; }
    constexpr enum_set& operator-=(enum_set const& o) { for (std::size_t i = 0; i < words; ++i) { w_[i] &= ~o.w_[i]; } return *this; }
    friend constexpr enum_set operator+(enum_set a, E b) { return a += b; }
    friend constexpr enum_set operator-(enum_set a, E b) { return a -= b; }
    friend constexpr enum_set operator+(enum_set a, enum_set const& b) { return a += b; }
    friend constexpr enum_set operator|(enum_set a, enum_set const& b) { return a += b; }
    friend constexpr enum_set operator&(enum_set a, enum_set const& b) { return a &= b; }
    friend constexpr enum_set operator-(enum_set a, enum_set const& b) { return a -= b; }
    friend constexpr bool operator==(enum_set const& a, enum_set const& b) { for (std::size_t i = 0; i < words; ++i) { if (a.w_[i] != b.w_[i]) { return false; } } return true; }
    friend constexpr bool operator!=(enum_set const& a, enum_set const& b) { return !(a == b); }
    friend std::ostream& operator<<(std::ostream& out, enum_set const& s) {
        out << "{"; bool f = true;
        for (auto e : s) { if (!f) { out << ", "; } f = false; out << e; }
        return out << "}";
    }
private:
    std::uint64_t w_[words] {};
    static constexpr std::size_t idx(E v) { return static_cast<std::size_t>(static_cast<base>(v) - lo); }
    static constexpr bool in(E v) { return static_cast<base>(v) >= lo && static_cast<base>(v) <= hi; }
    constexpr bool bit(std::size_t i) const { return ((w_[i / 64] >> (i % 64)) & 1U) != 0; }
};
} // namespace takatori::util
