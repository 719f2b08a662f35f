#pragma once
#include <cstddef>
#include <functional>
namespace takatori::util {
inline std::size_t hash_combine(std::size_t a) { return a; }
template<class T, class... R>
std::size_t hash_combine(std::size_t seed, T const& v, R const&... rest) {
    return hash_combine(seed ^ (std::hash<T> {}(v) + 0x9e3779b97f4a7c15ULL + (seed << 6U) + (seed >> 2U)), rest...);
}
template<class... T>
std::size_t hash(T const&... v) { return hash_combine(17, v...); }
} // namespace takatori::util
