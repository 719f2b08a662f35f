#pragma once
#include <memory>
#include <type_traits>
namespace takatori::util {
template<class T>
class rvalue_reference_wrapper {
public:
    template<class U, class = std::enable_if_t<std::is_convertible_v<U*, T*> && !std::is_lvalue_reference_v<U>>>
    constexpr rvalue_reference_wrapper(U&& r) noexcept : ptr_ { std::addressof(r) } {}
    constexpr T&& get() const noexcept { return std::move(*ptr_); }
    constexpr operator T&&() const noexcept { return std::move(*ptr_); }
private:
    T* ptr_;
};
} // namespace takatori::util
