#pragma once
#include "util.h"
#include <takatori/document/region.h>
namespace takatori::descriptor {
enum class descriptor_kind { variable, relation, storage, schema, function, aggregate_function, declared_type };
inline std::ostream& operator<<(std::ostream& out, descriptor_kind k) {
    static constexpr std::string_view n[] { "variable", "relation", "storage", "schema", "function", "aggregate_function", "declared_type" };
    return out << n[static_cast<int>(k)];
}
/// the base class of the objects which individual descriptors refer
class object {
public:
    object() = default;
    virtual ~object() = default;
    object(object const&) = delete;
    object& operator=(object const&) = delete;
    friend bool operator==(object const& a, object const& b) { return a.equals(b); }
    friend bool operator!=(object const& a, object const& b) { return !(a == b); }
    friend std::ostream& operator<<(std::ostream& out, object const& o) { return o.print(out); }
    virtual bool equals(object const&) const noexcept = 0;
    virtual std::size_t hash() const noexcept = 0;
    virtual std::ostream& print(std::ostream&) const = 0;
};
template<descriptor_kind K>
class element {
public:
    static constexpr descriptor_kind tag = K;
    using entity_type = object;
    using reference_type = std::shared_ptr<object>;
    explicit element(std::shared_ptr<object> e) : entity_ { std::move(e) } {}
    explicit operator bool() const { return static_cast<bool>(entity_); }
    object const& entity() const { return *entity_; }
    std::shared_ptr<object> const& shared_entity() const { return entity_; }
    util::optional_ptr<object const> optional_entity() const { return util::optional_ptr<object const> { entity_.get() }; }
    document::region& region() { return region_; }
    document::region const& region() const { return region_; }
    friend bool operator==(element const& a, element const& b) {
        if (a.entity_ == b.entity_) { return true; }
        return a.entity_ && b.entity_ && *a.entity_ == *b.entity_;
    }
    friend bool operator!=(element const& a, element const& b) { return !(a == b); }
    friend std::ostream& operator<<(std::ostream& out, element const& v) {
        out << K << "(";
        if (v.entity_) { out << *v.entity_; }
        return out << ")";
    }
private:
    std::shared_ptr<object> entity_;
    document::region region_ {};
};
using variable = element<descriptor_kind::variable>;
using relation = element<descriptor_kind::relation>;
using storage = element<descriptor_kind::storage>;
using schema = element<descriptor_kind::schema>;
using function = element<descriptor_kind::function>;
using aggregate_function = element<descriptor_kind::aggregate_function>;
} // namespace takatori::descriptor
template<takatori::descriptor::descriptor_kind K> struct std::hash<takatori::descriptor::element<K>> {
    std::size_t operator()(takatori::descriptor::element<K> const& v) const noexcept { return v ? v.entity().hash() : 0; }
};
