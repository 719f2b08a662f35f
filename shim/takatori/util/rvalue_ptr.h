#pragma once
#include <memory>
#include <type_traits>
namespace takatori::util {
/// pointer to an r-value: dereferencing yields T&&.
template<class T>
class rvalue_ptr {
public:
    constexpr rvalue_ptr() noexcept = default;
    constexpr rvalue_ptr(std::nullptr_t) noexcept {}
    template<class U, class = std::enable_if_t<std::is_convertible_v<U*, T*> && !std::is_lvalue_reference_v<U>>>
    constexpr rvalue_ptr(U&& r) noexcept : ptr_ { std::addressof(r) } {}
    template<class U, class = std::enable_if_t<std::is_convertible_v<U*, T*>>>
    constexpr rvalue_ptr(rvalue_ptr<U> o) noexcept : ptr_ { o.get() } {}
    constexpr T* get() const noexcept { return ptr_; }
    constexpr T&& operator*() const noexcept { return std::move(*ptr_); }
    constexpr T&& value() const noexcept { return std::move(*ptr_); }
    constexpr T* operator->() const noexcept { return ptr_; }
    constexpr explicit operator bool() const noexcept { return ptr_ != nullptr; }
private:
    T* ptr_ { nullptr };
};
} // namespace takatori::util
