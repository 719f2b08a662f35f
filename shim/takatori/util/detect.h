#pragma once
#include <type_traits>
namespace takatori::util {
namespace impl {
template<class Default, class AlwaysVoid, template<class...> class Op, class... Args>
struct detector { using type = Default; static constexpr bool value = false; };
template<class Default, template<class...> class Op, class... Args>
struct detector<Default, std::void_t<Op<Args...>>, Op, Args...> { using type = Op<Args...>; static constexpr bool value = true; };
struct nonesuch {};
}
template<template<class...> class Op, class... Args>
inline constexpr bool is_detected_v = impl::detector<impl::nonesuch, void, Op, Args...>::value;
template<template<class...> class Op, class... Args>
struct is_detected : std::bool_constant<is_detected_v<Op, Args...>> {};
template<template<class...> class Op, class... Args>
using detect_t = typename impl::detector<impl::nonesuch, void, Op, Args...>::type;
template<class Default, template<class...> class Op, class... Args>
using detect_or_t = typename impl::detector<Default, void, Op, Args...>::type;
} // namespace takatori::util
