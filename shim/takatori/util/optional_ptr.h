#pragma once
#include <cstdlib>
#include <memory>
#include <optional>
#include <ostream>
#include <stdexcept>
#include <type_traits>
namespace takatori::util {
template<class T>
class optional_ptr {
public:
    using element_type = T;
    constexpr optional_ptr() noexcept = default;
    constexpr optional_ptr(std::nullptr_t) noexcept {}
    constexpr optional_ptr(std::nullopt_t) noexcept {}
    explicit constexpr optional_ptr(T* p) noexcept : p_ { p } {}
    constexpr optional_ptr(T& r) noexcept : p_ { std::addressof(r) } {}
    optional_ptr(std::remove_const_t<T>&&) = delete;
    template<class U, class = std::enable_if_t<std::is_convertible_v<U*, T*>>>
    constexpr optional_ptr(optional_ptr<U> const& o) noexcept : p_ { o.get_pointer() } {}
    constexpr optional_ptr& operator=(T& r) noexcept { p_ = std::addressof(r); return *this; }
    constexpr optional_ptr& operator=(std::nullptr_t) noexcept { p_ = nullptr; return *this; }
    constexpr T* get_pointer() const noexcept { return p_; }
    constexpr T* get() const noexcept { return p_; }
    T& value() const { if (!p_) throw std::domain_error("empty optional_ptr"); return *p_; }
    T& operator*() const noexcept { if (!p_) std::abort(); return *p_; }
    T* operator->() const noexcept { if (!p_) std::abort(); return p_; }
    constexpr bool has_value() const noexcept { return p_ != nullptr; }
    constexpr explicit operator bool() const noexcept { return p_ != nullptr; }
    void reset() noexcept { p_ = nullptr; }
    void reset(T* p) noexcept { p_ = p; }
    void reset(T& p) noexcept { p_ = std::addressof(p); }
private:
    T* p_ { nullptr };
};
template<class T> optional_ptr(T*) -> optional_ptr<T>;
template<class T> optional_ptr(T&) -> optional_ptr<T>;
template<class T, class U>
constexpr bool operator==(optional_ptr<T> const& a, optional_ptr<U> const& b) noexcept { return a.get_pointer() == b.get_pointer(); }
template<class T, class U>
constexpr bool operator!=(optional_ptr<T> const& a, optional_ptr<U> const& b) noexcept { return !(a == b); }
namespace details {
template<class T, class U, class = void> struct comparable : std::false_type {};
template<class T, class U> struct comparable<T, U, std::void_t<decltype(std::declval<T const&>() == std::declval<U const&>())>> : std::true_type {};
template<class T> struct is_optional_ptr : std::false_type {};
template<class T> struct is_optional_ptr<optional_ptr<T>> : std::true_type {};
} // namespace details
template<class T, class U, class = std::enable_if_t<!details::is_optional_ptr<U>::value && !std::is_same_v<U, std::nullptr_t>>>
bool operator==(optional_ptr<T> const& a, U const& b) noexcept {
    if (!a) { return false; }
    if constexpr (details::comparable<T, U>::value) { return *a == b; } else { return a.get_pointer() == std::addressof(b); }
}
template<class T, class U, class = std::enable_if_t<!details::is_optional_ptr<U>::value && !std::is_same_v<U, std::nullptr_t>>>
bool operator!=(optional_ptr<T> const& a, U const& b) noexcept { return !(a == b); }
template<class T>
constexpr bool operator==(optional_ptr<T> const& a, std::nullptr_t) noexcept { return !a; }
template<class T>
constexpr bool operator!=(optional_ptr<T> const& a, std::nullptr_t) noexcept { return !!a; }
template<class T>
std::ostream& operator<<(std::ostream& out, optional_ptr<T> const& v) {
    if (v) return out << *v;
    return out << "(empty)";
}
} // namespace takatori::util
