#pragma once
#include <cstdlib>
#include <memory>
#include <type_traits>
#include <typeinfo>
namespace takatori::util {
// every unchecked downcast is monitored: a mismatch aborts (see verif/shim/README).
namespace impl {
template<class T> T* checked(T* p, bool had) {
    if (had && p == nullptr) {
        std::abort();
    }
    return p;
}
}
template<class T, class U>
auto* unsafe_downcast(U* p) noexcept {
    if constexpr (std::is_const_v<U>) {
        return impl::checked(dynamic_cast<T const*>(p), p != nullptr);
    } else {
        return impl::checked(dynamic_cast<T*>(p), p != nullptr);
    }
}
template<class T, class U>
T const& unsafe_downcast(U const& r) noexcept { return *unsafe_downcast<T>(std::addressof(r)); }
template<class T, class U, class = std::enable_if_t<!std::is_const_v<U>>>
T& unsafe_downcast(U& r) noexcept { return *unsafe_downcast<T>(std::addressof(r)); }
template<class T, class U, class = std::enable_if_t<!std::is_const_v<U> && !std::is_lvalue_reference_v<U>>>
T&& unsafe_downcast(U&& r) noexcept { return std::move(*unsafe_downcast<T>(std::addressof(r))); }
template<class T, class U>
std::unique_ptr<T> unsafe_downcast(std::unique_ptr<U>&& p) noexcept {
    return std::unique_ptr<T>(unsafe_downcast<T>(p.release()));
}
template<class T, class U>
auto* downcast(U* p) noexcept {
    if constexpr (std::is_const_v<U>) {
        return dynamic_cast<T const*>(p);
    } else {
        return dynamic_cast<T*>(p);
    }
}
template<class T, class U>
T const& downcast(U const& r) { return dynamic_cast<T const&>(r); }
template<class T, class U, class = std::enable_if_t<!std::is_const_v<U>>>
T& downcast(U& r) { return dynamic_cast<T&>(r); }
template<class T, class U, class = std::enable_if_t<!std::is_const_v<U> && !std::is_lvalue_reference_v<U>>>
T&& downcast(U&& r) { return dynamic_cast<T&&>(std::move(r)); }
} // namespace takatori::util
