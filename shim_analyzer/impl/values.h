#pragma once
#include "util.h"
#include "decimal.h"
#include "datetime.h"
#include <iomanip>
namespace takatori::value {
enum class value_kind { unknown, boolean, int4, int8, float4, float8, decimal, character, octet, bit, date, time_of_day, time_point, datetime_interval, extension };
inline std::string_view to_string_view(value_kind k) {
    static constexpr std::string_view n[] { "unknown", "boolean", "int4", "int8", "float4", "float8", "decimal", "character", "octet", "bit", "date", "time_of_day", "time_point", "datetime_interval", "extension" };
    return n[static_cast<int>(k)];
}
inline std::ostream& operator<<(std::ostream& out, value_kind k) { return out << to_string_view(k); }
class data {
public:
    data() = default;
    virtual ~data() = default;
    virtual value_kind kind() const noexcept = 0;
    virtual data* clone() const& = 0;
    virtual data* clone() && = 0;
    friend bool operator==(data const& a, data const& b) { return a.kind() == b.kind() && a.equals(b); }
    friend bool operator!=(data const& a, data const& b) { return !(a == b); }
    friend std::ostream& operator<<(std::ostream& out, data const& v) { return v.print(out); }
    virtual std::ostream& print(std::ostream& out) const = 0;
protected:
    data(data const&) = default;
    data(data&&) = default;
    data& operator=(data const&) = default;
    data& operator=(data&&) = default;
    virtual bool equals(data const&) const = 0;
};
template<value_kind K, class T, class V = T const&>
class simple : public data {
public:
    static constexpr value_kind tag = K;
    using entity_type = T;
    using view_type = V;
    template<class... A, class = std::enable_if_t<std::is_constructible_v<T, A...> && (sizeof...(A) > 0)
        && !(std::is_base_of_v<simple, std::decay_t<A>> || ...)>>
    explicit simple(A&&... a) : v_(std::forward<A>(a)...) {}
    explicit simple(T v) : v_(std::move(v)) {}
    V get() const noexcept { return v_; }
    value_kind kind() const noexcept final { return K; }
    simple* clone() const& final { return new simple(*this); }
    simple* clone() && final { return new simple(std::move(*this)); }
    std::ostream& print(std::ostream& out) const override { return out << K << "(" << v_ << ")"; }
protected:
    bool equals(data const& o) const final { return v_ == static_cast<simple const&>(o).v_; }
private:
    T v_;
};
enum class unknown_kind { null };
inline std::ostream& operator<<(std::ostream& out, unknown_kind) { return out << "null"; }
class unknown : public data {
public:
    static constexpr value_kind tag = value_kind::unknown;
    unknown() = default;
    explicit unknown(unknown_kind) {}
    value_kind kind() const noexcept final { return tag; }
    unknown* clone() const& final { return new unknown(); }
    unknown* clone() && final { return new unknown(); }
    std::ostream& print(std::ostream& out) const override { return out << "unknown(null)"; }
protected:
    bool equals(data const&) const final { return true; }
};
using boolean = simple<value_kind::boolean, bool, bool>;
using int4 = simple<value_kind::int4, std::int32_t, std::int32_t>;
using int8 = simple<value_kind::int8, std::int64_t, std::int64_t>;
using float4 = simple<value_kind::float4, float, float>;
using float8 = simple<value_kind::float8, double, double>;
using character = simple<value_kind::character, std::string, std::string_view>;
using octet = simple<value_kind::octet, std::string, std::string_view>;
using date = simple<value_kind::date, datetime::date, datetime::date>;
using time_of_day = simple<value_kind::time_of_day, datetime::time_of_day, datetime::time_of_day>;
using time_point = simple<value_kind::time_point, datetime::time_point, datetime::time_point>;
using decimal = simple<value_kind::decimal, ::takatori::decimal::triple, ::takatori::decimal::triple>;
class octet_result {
public:
    octet_result() = default;
    explicit octet_result(std::string e) : e_ { std::move(e) } {}
    explicit operator bool() const { return !e_; }
    std::string const& error() const { return *e_; }
private:
    std::optional<std::string> e_;
};
/// appends the octets which the hexadecimal digits (with optional white spaces between them) represent
inline octet_result parse_octet(std::string_view in, std::string& out) {
    int hi = -1;
    for (char c : in) {
        int d = -1;
        if (c >= '0' && c <= '9') { d = c - '0'; }
        else if (c >= 'a' && c <= 'f') { d = c - 'a' + 10; }
        else if (c >= 'A' && c <= 'F') { d = c - 'A' + 10; }
        else if (c == ' ') { continue; }
        else { return octet_result { "invalid character" }; }
        if (hi < 0) { hi = d; } else { out.push_back(static_cast<char>(hi * 16 + d)); hi = -1; }
    }
    if (hi >= 0) { return octet_result { "odd digits" }; }
    return {};
}
} // namespace takatori::value
