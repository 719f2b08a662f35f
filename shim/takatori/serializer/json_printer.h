#pragma once
#include <ostream>
#include <cstdio>
#include "object_acceptor.h"
namespace takatori::serializer {
/// lenient printer (as takatori's: null for properties without values)
class json_printer : public object_acceptor {
public:
    explicit json_printer(std::ostream& out) : out_ { out } {}
    void struct_begin() override { sep(); out_ << "{"; first_ = true; has_ = true; }
    void struct_end() override { out_ << "}"; first_ = false; has_ = true; }
    void property_begin(std::string_view name) override { comma(); quote(name); out_ << ": "; first_ = true; has_ = false; }
    void property_end() override { if (!has_) { out_ << "null"; } first_ = false; has_ = true; }
    void array_begin() override { sep(); out_ << "["; first_ = true; has_ = true; }
    void array_end() override { out_ << "]"; first_ = false; has_ = true; }
    void pointer(void const* value) override { sep(); out_ << '"' << value << '"'; done(); }
    void integer(std::int64_t value) override { sep(); out_ << value; done(); }
    void unsigned_integer(std::uint64_t value) override { sep(); out_ << value; done(); }
    void float_number(double value) override { sep(); out_ << value; done(); }
    void boolean(bool value) override { sep(); out_ << (value ? "true" : "false"); done(); }
    void string(std::string_view value) override { sep(); quote(value); done(); }
private:
    std::ostream& out_;
    bool first_ { true };
    bool has_ { false };
    void comma() { if (!first_) { out_ << ", "; } }
    void sep() { comma(); }
    void done() { first_ = false; has_ = true; }
    void quote(std::string_view s) {
        out_ << '"';
        for (unsigned char c : s) {
            if (c == '"' || c == '\\') { out_ << '\\' << static_cast<char>(c); }
            else if (c < 0x20) { char b[8]; std::snprintf(b, sizeof b, "\\u%04x", c); out_ << b; }
            else { out_ << static_cast<char>(c); }
        }
        out_ << '"';
    }
};
} // namespace takatori::serializer
