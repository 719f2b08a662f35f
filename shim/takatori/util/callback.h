#pragma once
#include <type_traits>
#include <utility>
#include "downcast.h"
namespace takatori::util {
namespace impl {
template<class T, class E> using like_t =
    std::conditional_t<std::is_lvalue_reference_v<E>,
        std::conditional_t<std::is_const_v<std::remove_reference_t<E>>, T const&, T&>,
        std::conditional_t<std::is_const_v<std::remove_reference_t<E>>, T const&&, T&&>>;
}
/// invokes callback with the object downcasted into T if it accepts such the object, or with the original object.
template<class T, class Callback, class E, class... Args>
auto polymorphic_callback(Callback&& callback, E&& object, Args&&... args) {
    using target = impl::like_t<T, E&&>;
    if constexpr (std::is_invocable_v<Callback, target, Args...>) {
        auto* p = unsafe_downcast<T>(std::addressof(object));
        return std::forward<Callback>(callback)(static_cast<target>(*p), std::forward<Args>(args)...);
    } else {
        return std::forward<Callback>(callback)(std::forward<E>(object), std::forward<Args>(args)...);
    }
}
} // namespace takatori::util
