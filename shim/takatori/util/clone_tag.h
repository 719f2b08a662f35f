#pragma once
#include <memory>
#include <vector>
#include <string>
#include <optional>
#include <utility>
namespace takatori::util {
struct clone_tag_t { explicit constexpr clone_tag_t() noexcept = default; };
inline constexpr clone_tag_t clone_tag {};
} // namespace takatori::util
