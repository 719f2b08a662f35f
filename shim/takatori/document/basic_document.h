#pragma once
#include <algorithm>
#include <stdexcept>
#include <string>
#include "document.h"
namespace takatori::document {
class basic_document : public document {
public:
    explicit basic_document(std::string location, std::string contents) : location_ { std::move(location) }, contents_ { std::move(contents) } {}
    std::string_view location() const noexcept override { return location_; }
    std::size_t size() const noexcept override { return contents_.size(); }
    std::string_view contents(std::size_t offset, std::size_t size) const override {
        if (offset > contents_.size() || size > contents_.size() - offset) { throw std::out_of_range("document::contents"); }
        return std::string_view(contents_).substr(offset, size);
    }
    position_type position(std::size_t offset) const override {
        if (offset > contents_.size()) { throw std::out_of_range("document::position"); }
        auto b = contents_.begin(); auto e = b + static_cast<std::ptrdiff_t>(offset);
        auto line = static_cast<std::size_t>(std::count(b, e, '\n'));
        auto p = contents_.rfind('\n', offset == 0 ? std::string::npos : offset - 1);
        std::size_t col = (offset == 0 || p == std::string::npos) ? offset : offset - p - 1;
        return { line + 1, col + 1 };
    }
private:
    std::string location_;
    std::string contents_;
};
} // namespace takatori::document
