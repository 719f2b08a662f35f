#pragma once
#include <memory>
#include <type_traits>
#include <utility>
#include "clone_tag.h"
#include "rvalue_ptr.h"
#include "rvalue_reference_wrapper.h"
namespace takatori::util {
template<class T>
struct is_clone_constructible : std::bool_constant<
        std::is_constructible_v<T, clone_tag_t, T const&> && std::is_constructible_v<T, clone_tag_t, T&&>> {};
template<class T>
inline constexpr bool is_clone_constructible_v = is_clone_constructible<T>::value;

namespace impl {
template<class T, class = void> struct has_clone : std::false_type {};
template<class T> struct has_clone<T, std::void_t<decltype(std::declval<T const&>().clone())>> : std::true_type {};
template<class T>
std::unique_ptr<std::remove_const_t<T>> do_clone(T const& v) {
    using U = std::remove_const_t<T>;
    if constexpr (has_clone<U>::value) {
        return std::unique_ptr<U>(static_cast<U*>(v.clone()));
    } else if constexpr (is_clone_constructible_v<U>) {
        return std::make_unique<U>(clone_tag, v);
    } else {
        return std::make_unique<U>(v);
    }
}
template<class T>
std::unique_ptr<T> do_clone_move(T&& v) {
    if constexpr (has_clone<T>::value) {
        return std::unique_ptr<T>(static_cast<T*>(std::move(v).clone()));
    } else if constexpr (is_clone_constructible_v<T>) {
        return std::make_unique<T>(clone_tag, std::move(v));
    } else {
        return std::make_unique<T>(std::move(v));
    }
}
template<class T> struct is_smart : std::false_type {};
template<class T, class D> struct is_smart<std::unique_ptr<T, D>> : std::true_type {};
template<class T> struct is_smart<std::shared_ptr<T>> : std::true_type {};
template<class T> struct is_smart<rvalue_ptr<T>> : std::true_type {};
template<class T> struct is_smart<rvalue_reference_wrapper<T>> : std::true_type {};
} // namespace impl

template<class T, class = std::enable_if_t<!impl::is_smart<std::remove_cv_t<std::remove_reference_t<T>>>::value
        && !std::is_pointer_v<std::remove_reference_t<T>>>>
auto clone_unique(T&& v) {
    using U = std::remove_cv_t<std::remove_reference_t<T>>;
    if constexpr (std::is_lvalue_reference_v<T> || std::is_const_v<std::remove_reference_t<T>>) {
        return impl::do_clone<U>(v);
    } else {
        return impl::do_clone_move<U>(std::move(v));
    }
}
template<class T>
std::unique_ptr<std::remove_const_t<T>> clone_unique(T* p) {
    if (!p) return {};
    return impl::do_clone<std::remove_const_t<T>>(*p);
}
template<class T, class D>
std::unique_ptr<std::remove_const_t<T>> clone_unique(std::unique_ptr<T, D> const& p) {
    if (!p) return {};
    return impl::do_clone<std::remove_const_t<T>>(*p);
}
template<class T, class D>
std::unique_ptr<std::remove_const_t<T>> clone_unique(std::unique_ptr<T, D>&& p) {
    if (!p) return {};
    if constexpr (std::is_const_v<T>) {
        return impl::do_clone<std::remove_const_t<T>>(*p);
    } else {
        return impl::do_clone_move<T>(std::move(*p));
    }
}
template<class T>
std::unique_ptr<std::remove_const_t<T>> clone_unique(std::shared_ptr<T> const& p) {
    if (!p) return {};
    return impl::do_clone<std::remove_const_t<T>>(*p);
}
template<class T>
std::unique_ptr<T> clone_unique(rvalue_ptr<T> p) {
    if (!p) return {};
    return impl::do_clone_move<T>(*p);
}
template<class T>
std::unique_ptr<T> clone_unique(rvalue_reference_wrapper<T> p) {
    return impl::do_clone_move<T>(p.get());
}
template<class T>
auto clone_shared(T&& v) {
    auto p = clone_unique(std::forward<T>(v));
    return std::shared_ptr<typename decltype(p)::element_type>(std::move(p));
}
} // namespace takatori::util
