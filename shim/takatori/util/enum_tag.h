#pragma once
#include <utility>
namespace takatori::util {
template<auto v> struct enum_tag_t { explicit constexpr enum_tag_t() noexcept = default; static constexpr auto value = v; };
template<auto v> inline constexpr enum_tag_t<v> enum_tag {};
template<class Callback, class... Args>
auto enum_dispatch_unused(Callback&&, Args&&...) = delete;
} // namespace takatori::util
