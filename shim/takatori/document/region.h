#pragma once
#include "document.h"
#include <ostream>
namespace takatori::document {
/// a region of document.
class region {
public:
    constexpr region() = default;
    region(document const& doc, std::size_t begin, std::size_t end) : doc_ { &doc }, begin_ { begin }, end_ { end } {}
    document const* source() const noexcept { return doc_; }
    document const& element() const noexcept { return *doc_; }
    std::size_t begin() const noexcept { return begin_; }
    std::size_t end() const noexcept { return end_; }
    bool available() const noexcept { return doc_ != nullptr; }
    explicit operator bool() const noexcept { return available(); }
    friend bool operator==(region const& a, region const& b) noexcept { return a.doc_ == b.doc_ && a.begin_ == b.begin_ && a.end_ == b.end_; }
    friend bool operator!=(region const& a, region const& b) noexcept { return !(a == b); }
    friend std::ostream& operator<<(std::ostream& out, region const& r) { return out << "region(" << r.begin_ << "," << r.end_ << ")"; }
private:
    document const* doc_ { nullptr };
    std::size_t begin_ { 0 };
    std::size_t end_ { 0 };
};
} // namespace takatori::document
