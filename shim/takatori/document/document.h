#pragma once
#include <cstddef>
#include <ostream>
#include <string_view>
namespace takatori::document {
struct position {
    std::size_t line { 0 };
    std::size_t column { 0 };
    constexpr position() = default;
    constexpr position(std::size_t l, std::size_t c) noexcept : line { l }, column { c } {}
    constexpr bool available() const noexcept { return line != 0; }
    explicit constexpr operator bool() const noexcept { return available(); }
    friend constexpr bool operator==(position a, position b) noexcept { return a.line == b.line && a.column == b.column; }
    friend constexpr bool operator!=(position a, position b) noexcept { return !(a == b); }
    friend std::ostream& operator<<(std::ostream& out, position p) { return out << p.line << ":" << p.column; }
};
/// read-only source text. out-of-range requests are contract violations and always throw.
class document {
public:
    using position_type = position;
    document() = default;
    virtual ~document() = default;
    document(document const&) = default;
    document& operator=(document const&) = default;
    virtual std::string_view location() const noexcept = 0;
    virtual std::string_view contents(std::size_t offset, std::size_t size) const = 0;
    virtual std::size_t size() const noexcept = 0;
    virtual position_type position(std::size_t offset) const = 0;
};
} // namespace takatori::document
