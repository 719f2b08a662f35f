#pragma once
#include "util.h"
#include <cstdint>
namespace takatori::type {
enum class type_kind {
    boolean, int1, int2, int4, int8, float4, float8, decimal, character, octet, bit, date, time_of_day, time_point,
    datetime_interval, blob, clob, table, unknown, pending, declared, extension,
};
inline std::string_view to_string_view(type_kind k) {
    static constexpr std::string_view n[] {
        "boolean", "int1", "int2", "int4", "int8", "float4", "float8", "decimal", "character", "octet", "bit", "date",
        "time_of_day", "time_point", "datetime_interval", "blob", "clob", "table", "unknown", "pending", "declared", "extension",
    };
    return n[static_cast<int>(k)];
}
inline std::ostream& operator<<(std::ostream& out, type_kind k) { return out << to_string_view(k); }

class data {
public:
    data() = default;
    virtual ~data() = default;
    virtual type_kind kind() const noexcept = 0;
    virtual data* clone() const& = 0;
    virtual data* clone() && = 0;
    friend bool operator==(data const& a, data const& b) { return a.kind() == b.kind() && a.equals(b); }
    friend bool operator!=(data const& a, data const& b) { return !(a == b); }
    friend std::ostream& operator<<(std::ostream& out, data const& v) { return v.print(out); }
    virtual std::ostream& print(std::ostream& out) const = 0;
protected:
    data(data const&) = default;
    data(data&&) = default;
    data& operator=(data const&) = default;
    data& operator=(data&&) = default;
    virtual bool equals(data const&) const = 0;
};

template<class Self, type_kind K>
class basic : public data {
public:
    static constexpr type_kind tag = K;
    type_kind kind() const noexcept final { return K; }
    data* clone() const& final { return new Self(static_cast<Self const&>(*this)); }
    data* clone() && final { return new Self(std::move(static_cast<Self&>(*this))); }
protected:
    bool equals(data const& o) const final { return static_cast<Self const&>(*this).eq(static_cast<Self const&>(o)); }
};

template<type_kind K>
class simple_type : public basic<simple_type<K>, K> {
public:
    simple_type() = default;
    simple_type(util::clone_tag_t, simple_type const&) {}
    bool eq(simple_type const&) const { return true; }
    std::ostream& print(std::ostream& out) const override { return out << K << "()"; }
};
using boolean = simple_type<type_kind::boolean>;
using int1 = simple_type<type_kind::int1>;
using int2 = simple_type<type_kind::int2>;
using int4 = simple_type<type_kind::int4>;
using int8 = simple_type<type_kind::int8>;
using float4 = simple_type<type_kind::float4>;
using float8 = simple_type<type_kind::float8>;
using date = simple_type<type_kind::date>;
using datetime_interval = simple_type<type_kind::datetime_interval>;
using unknown = simple_type<type_kind::unknown>;
using pending = simple_type<type_kind::pending>;

class decimal : public basic<decimal, type_kind::decimal> {
public:
    using size_type = std::size_t;
    explicit decimal(std::optional<size_type> precision = {}, std::optional<size_type> scale = 0)
        : precision_ { precision }, scale_ { scale } {}
    std::optional<size_type> const& precision() const { return precision_; }
    std::optional<size_type> const& scale() const { return scale_; }
    bool eq(decimal const& o) const { return precision_ == o.precision_ && scale_ == o.scale_; }
    std::ostream& print(std::ostream& out) const override {
        return out << "decimal(" << util::optional_print_support { precision_ } << ", " << util::optional_print_support { scale_ } << ")";
    }
private:
    std::optional<size_type> precision_;
    std::optional<size_type> scale_;
};

struct varying_t {
    bool v;
    explicit constexpr varying_t(bool b) : v { b } {}
    constexpr varying_t operator~() const { return varying_t { !v }; }
};
inline constexpr varying_t varying { true };
inline constexpr varying_t non_varying { false };
struct with_time_zone_t {
    bool v;
    explicit constexpr with_time_zone_t(bool b) : v { b } {}
    constexpr with_time_zone_t operator~() const { return with_time_zone_t { !v }; }
};
inline constexpr with_time_zone_t with_time_zone { true };

template<type_kind K>
class string_type : public basic<string_type<K>, K> {
public:
    using size_type = std::size_t;
    explicit string_type(varying_t v, std::optional<size_type> n = {}) : varying_ { v.v }, length_ { n } {}
    explicit string_type(size_type n) : varying_ { false }, length_ { n } {}
    bool varying() const { return varying_; }
    std::optional<size_type> const& length() const { return length_; }
    bool eq(string_type const& o) const { return varying_ == o.varying_ && length_ == o.length_; }
    std::ostream& print(std::ostream& out) const override {
        return out << K << "(varying=" << varying_ << ", length=" << util::optional_print_support { length_ } << ")";
    }
private:
    bool varying_;
    std::optional<size_type> length_;
};
using character = string_type<type_kind::character>;
using octet = string_type<type_kind::octet>;
using bit = string_type<type_kind::bit>;

template<type_kind K>
class zoned_type : public basic<zoned_type<K>, K> {
public:
    explicit zoned_type(with_time_zone_t z = with_time_zone_t { false }) : tz_ { z.v } {}
    bool with_time_zone() const { return tz_; }
    bool eq(zoned_type const& o) const { return tz_ == o.tz_; }
    std::ostream& print(std::ostream& out) const override { return out << K << "(with_time_zone=" << tz_ << ")"; }
private:
    bool tz_;
};
using time_of_day = zoned_type<type_kind::time_of_day>;
using time_point = zoned_type<type_kind::time_point>;

template<type_kind K>
class lob_type : public basic<lob_type<K>, K> {
public:
    explicit lob_type(std::optional<std::int64_t> n = {}) : length_ { n } {}
    std::optional<std::int64_t> const& length() const { return length_; }
    bool eq(lob_type const& o) const { return length_ == o.length_; }
    std::ostream& print(std::ostream& out) const override { return out << K << "(" << util::optional_print_support { length_ } << ")"; }
private:
    std::optional<std::int64_t> length_;
};
using blob = lob_type<type_kind::blob>;
using clob = lob_type<type_kind::clob>;

class table : public basic<table, type_kind::table> {
public:
    class column_type {
    public:
        column_type(std::string_view name, std::shared_ptr<data const> type) : name_ { name }, type_ { std::move(type) } {}
        column_type(std::string_view name, util::rvalue_ptr<data> type) : name_ { name }, type_ { util::clone_shared(type) } {}
        std::string_view name() const { return name_; }
        data const& type() const { return *type_; }
        std::shared_ptr<data const> shared_type() const { return type_; }
        friend bool operator==(column_type const& a, column_type const& b) { return a.name_ == b.name_ && *a.type_ == *b.type_; }
    private:
        std::string name_;
        std::shared_ptr<data const> type_;
    };
    using column_list_type = std::vector<column_type>;
    explicit table(std::vector<column_type> c) : c_ { std::move(c) } {}
    table(std::initializer_list<column_type> c) : c_ { c } {}
    std::vector<column_type> const& columns() const { return c_; }
    bool eq(table const& o) const { return c_ == o.c_; }
    std::ostream& print(std::ostream& out) const override {
        out << "table(";
        for (auto& c : c_) { out << c.name() << ": " << c.type() << ", "; }
        return out << ")";
    }
private:
    std::vector<column_type> c_;
};
} // namespace takatori::type
