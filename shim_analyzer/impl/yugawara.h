#pragma once
// a minimal stand-in of yugawara: declarations, providers, and descriptor bindings
#include "statements.h"
#include <map>
#include <set>
#include <stdexcept>
namespace yugawara::util {
using namespace ::takatori::util;
enum class ternary { no, yes, unknown };
template<class T>
class object_repository {
public:
    template<class U = T, class = std::enable_if_t<std::is_base_of_v<T, std::remove_cv_t<std::remove_reference_t<U>>>>>
    std::shared_ptr<T const> get(U&& v) { return keep(clone_shared(std::forward<U>(v))); }
    std::shared_ptr<T const> get(std::shared_ptr<T const> p) { return keep(std::move(p)); }
    void clear() { v_.clear(); }
private:
    std::vector<std::shared_ptr<T const>> v_;
    std::shared_ptr<T const> keep(std::shared_ptr<T const> p) {
        for (auto& e : v_) { if (*e == *p) { return e; } }
        v_.push_back(p);
        return p;
    }
};
} // namespace yugawara::util
namespace yugawara {
namespace ttype = ::takatori::type;
namespace tvalue = ::takatori::value;
using ::takatori::util::optional_ptr;
using ::takatori::util::maybe_shared_ptr;
using ::takatori::util::rvalue_reference_wrapper;
namespace variable {
class nullity {
public:
    explicit constexpr nullity(bool v) : v_ { v } {}
    constexpr bool nullable() const { return v_; }
    constexpr nullity operator~() const { return nullity { !v_ }; }
    friend constexpr bool operator==(nullity a, nullity b) { return a.v_ == b.v_; }
    friend constexpr bool operator!=(nullity a, nullity b) { return a.v_ != b.v_; }
    friend std::ostream& operator<<(std::ostream& out, nullity n) { return out << (n.v_ ? "NULLABLE" : "NOT NULL"); }
private:
    bool v_;
};
inline constexpr nullity nullable { true };
class criteria {
public:
    criteria(class nullity n = variable::nullable) : n_ { n } {}
    class nullity nullity() const { return n_; }
    criteria& nullity(class nullity n) { n_ = n; return *this; }
    friend bool operator==(criteria const& a, criteria const& b) { return a.n_ == b.n_; }
private:
    class nullity n_;
};
class declaration {
public:
    declaration(std::string_view n, ttype::data&& t, class criteria c = {}) : n_ { n }, t_ { util::clone_shared(std::move(t)) }, c_ { c } {}
    declaration(std::string n, std::shared_ptr<ttype::data const> t, class criteria c = {}) : n_ { std::move(n) }, t_ { std::move(t) }, c_ { c } {}
    std::string_view name() const { return n_; }
    ttype::data const& type() const { return *t_; }
    std::shared_ptr<ttype::data const> shared_type() const { return t_; }
    class criteria const& criteria() const { return c_; }
    friend std::ostream& operator<<(std::ostream& out, declaration const& d) { return out << d.n_ << ": " << *d.t_; }
private:
    std::string n_;
    std::shared_ptr<ttype::data const> t_;
    class criteria c_;
};
class provider {
public:
    virtual ~provider() = default;
    virtual std::shared_ptr<declaration const> find(std::string_view) const { return {}; }
};
class configurable_provider : public provider {
public:
    std::shared_ptr<declaration const> find(std::string_view n) const override {
        auto i = m_.find(std::string { n });
        return i == m_.end() ? std::shared_ptr<declaration const> {} : i->second;
    }
    std::shared_ptr<declaration> add(declaration&& d, bool = false) { auto p = std::make_shared<declaration>(std::move(d)); m_[std::string { p->name() }] = p; return p; }
    std::shared_ptr<declaration> add(std::shared_ptr<declaration> p, bool = false) { m_[std::string { p->name() }] = p; return p; }
private:
    std::map<std::string, std::shared_ptr<declaration>> m_;
};
} // namespace variable
namespace function {
enum class function_feature { scalar_function, table_valued_function };
using function_feature_set = util::enum_set<function_feature, function_feature::scalar_function, function_feature::table_valued_function>;
class declaration {
public:
    using definition_id_type = std::size_t;
    static constexpr definition_id_type unresolved_definition_id = 0, minimum_system_function_id = 1, minimum_builtin_function_id = 10'000, minimum_user_function_id = 20'000;
    declaration(definition_id_type id, std::string_view n, ttype::data&& r, std::initializer_list<rvalue_reference_wrapper<ttype::data>> p,
            function_feature_set f = { function_feature::scalar_function }, std::string d = {})
        : id_ { id }, n_ { n }, r_ { util::clone_shared(std::move(r)) }, f_ { f }, d_ { std::move(d) } {
        for (auto& e : p) { p_.emplace_back(util::clone_shared(e)); }
    }
    declaration(definition_id_type id, std::string n, std::shared_ptr<ttype::data const> r, std::vector<std::shared_ptr<ttype::data const>> p,
            function_feature_set f = { function_feature::scalar_function }, std::string d = {})
        : id_ { id }, n_ { std::move(n) }, r_ { std::move(r) }, p_ { std::move(p) }, f_ { f }, d_ { std::move(d) } {}
    definition_id_type definition_id() const { return id_; }
    std::string_view name() const { return n_; }
    ttype::data const& return_type() const { return *r_; }
    std::shared_ptr<ttype::data const> shared_return_type() const { return r_; }
    std::vector<std::shared_ptr<ttype::data const>> const& shared_parameter_types() const { return p_; }
    function_feature_set const& features() const { return f_; }
    friend bool operator==(declaration const& a, declaration const& b) { return &a == &b || (a.id_ == b.id_ && a.n_ == b.n_); }
    friend std::ostream& operator<<(std::ostream& out, declaration const& d) { return out << d.n_ << "#" << d.id_; }
private:
    definition_id_type id_;
    std::string n_;
    std::shared_ptr<ttype::data const> r_;
    std::vector<std::shared_ptr<ttype::data const>> p_;
    function_feature_set f_;
    std::string d_;
};
} // namespace function
namespace aggregate {
class declaration {
public:
    using definition_id_type = std::size_t;
    static constexpr std::string_view name_suffix_distinct = "$distinct";
    static constexpr definition_id_type unresolved_definition_id = 0, minimum_system_function_id = 1, minimum_builtin_function_id = 10'000, minimum_user_function_id = 20'000;
    declaration(definition_id_type id, std::string_view n, ttype::data&& r, std::initializer_list<rvalue_reference_wrapper<ttype::data>> p, bool incremental = false, std::string d = {})
        : id_ { id }, n_ { n }, r_ { util::clone_shared(std::move(r)) }, i_ { incremental }, d_ { std::move(d) } {
        for (auto& e : p) { p_.emplace_back(util::clone_shared(e)); }
    }
    declaration(definition_id_type id, std::string n, std::shared_ptr<ttype::data const> r, std::vector<std::shared_ptr<ttype::data const>> p, bool incremental = false, std::string d = {})
        : id_ { id }, n_ { std::move(n) }, r_ { std::move(r) }, p_ { std::move(p) }, i_ { incremental }, d_ { std::move(d) } {}
    definition_id_type definition_id() const { return id_; }
    std::string_view name() const { return n_; }
    ttype::data const& return_type() const { return *r_; }
    std::shared_ptr<ttype::data const> shared_return_type() const { return r_; }
    std::vector<std::shared_ptr<ttype::data const>> const& shared_parameter_types() const { return p_; }
    bool incremental() const { return i_; }
    friend bool operator==(declaration const& a, declaration const& b) { return &a == &b || (a.id_ == b.id_ && a.n_ == b.n_); }
    friend std::ostream& operator<<(std::ostream& out, declaration const& d) { return out << d.n_ << "#" << d.id_; }
private:
    definition_id_type id_;
    std::string n_;
    std::shared_ptr<ttype::data const> r_;
    std::vector<std::shared_ptr<ttype::data const>> p_;
    bool i_;
    std::string d_;
};
} // namespace aggregate
namespace details {
/// providers of overloaded functions
template<class D>
class overload_provider {
public:
    using consumer_type = std::function<void(std::shared_ptr<D const> const&)>;
    virtual ~overload_provider() = default;
    virtual void each(std::string_view, std::size_t, consumer_type const&) const {}
};
template<class D>
class configurable_overload_provider : public overload_provider<D> {
public:
    using typename overload_provider<D>::consumer_type;
    void each(std::string_view n, std::size_t c, consumer_type const& f) const override {
        for (auto& d : v_) { if (d->name() == n && d->shared_parameter_types().size() == c) { f(d); } }
    }
    std::shared_ptr<D> add(D&& d) { v_.push_back(std::make_shared<D>(std::move(d))); return v_.back(); }
    std::shared_ptr<D> add(std::shared_ptr<D> p) { v_.push_back(p); return p; }
private:
    std::vector<std::shared_ptr<D>> v_;
};
} // namespace details
namespace function {
using provider = details::overload_provider<declaration>;
using configurable_provider = details::configurable_overload_provider<declaration>;
}
namespace aggregate {
using provider = details::overload_provider<declaration>;
using configurable_provider = details::configurable_overload_provider<declaration>;
}
namespace storage {
class sequence {
public:
    using definition_id_type = std::size_t;
    using value_type = std::int64_t;
    sequence(std::optional<definition_id_type> id, std::string n, value_type initial, value_type inc, value_type lo, value_type hi, bool cycle)
        : id_ { id }, n_ { std::move(n) }, initial_ { initial }, inc_ { inc }, lo_ { lo }, hi_ { hi }, cycle_ { cycle } {}
    std::optional<definition_id_type> definition_id() const { return id_; }
    std::string_view simple_name() const { return n_; }
    value_type initial_value() const { return initial_; }
    value_type increment_value() const { return inc_; }
    value_type min_value() const { return lo_; }
    value_type max_value() const { return hi_; }
    bool cycle() const { return cycle_; }
private:
    std::optional<definition_id_type> id_;
    std::string n_;
    value_type initial_, inc_, lo_, hi_;
    bool cycle_;
};
enum class column_value_kind { nothing, immediate, function, sequence };
inline std::ostream& operator<<(std::ostream& out, column_value_kind k) {
    static constexpr std::string_view n[] { "nothing", "immediate", "function", "sequence" };
    return out << n[static_cast<int>(k)];
}
class column_value {
    using store = std::variant<std::monostate, std::shared_ptr<tvalue::data const>, std::shared_ptr<function::declaration const>, std::shared_ptr<sequence const>>;
public:
    column_value() = default;
    column_value(std::nullptr_t) {}
    column_value(tvalue::data&& v) : s_ { std::shared_ptr<tvalue::data const> { util::clone_shared(std::move(v)) } } {}
    template<class T, class = std::enable_if_t<std::is_base_of_v<tvalue::data, T>>, class = void>
    column_value(std::shared_ptr<T const> v) : s_ { std::shared_ptr<tvalue::data const> { std::move(v) } } {}
    column_value(std::shared_ptr<function::declaration const> v) : s_ { std::move(v) } {}
    column_value(std::shared_ptr<function::declaration> v) : s_ { std::shared_ptr<function::declaration const> { std::move(v) } } {}
    column_value(std::shared_ptr<sequence const> v) : s_ { std::move(v) } {}
    column_value(std::shared_ptr<sequence> v) : s_ { std::shared_ptr<sequence const> { std::move(v) } } {}
    column_value_kind kind() const { return static_cast<column_value_kind>(s_.index()); }
    explicit operator bool() const { return s_.index() != 0; }
    template<column_value_kind K> auto element() const { return std::get<static_cast<std::size_t>(K)>(s_); }
    friend bool operator==(column_value const& a, column_value const& b) {
        if (a.kind() != b.kind()) { return false; }
        switch (a.kind()) {
            case column_value_kind::nothing: return true;
            case column_value_kind::immediate: return *std::get<1>(a.s_) == *std::get<1>(b.s_);
            case column_value_kind::function: return *std::get<2>(a.s_) == *std::get<2>(b.s_);
            case column_value_kind::sequence: return std::get<3>(a.s_) == std::get<3>(b.s_);
        }
        return false;
    }
    friend bool operator!=(column_value const& a, column_value const& b) { return !(a == b); }
    friend std::ostream& operator<<(std::ostream& out, column_value const& v) { return out << v.kind(); }
private:
    store s_ {};
};
enum class column_feature { synthesized, hidden, read_only };
using column_feature_set = util::enum_set<column_feature, column_feature::synthesized, column_feature::read_only>;
class relation;
class column {
public:
    column(std::string n, std::shared_ptr<ttype::data const> t, variable::criteria c = {}, column_value d = {}, column_feature_set f = {}, std::string desc = {})
        : n_ { std::move(n) }, t_ { std::move(t) }, c_ { c }, d_ { std::move(d) }, f_ { f }, desc_ { std::move(desc) } {}
    column(std::string_view n, ttype::data&& t, variable::criteria c = {}, column_value d = {}, column_feature_set f = {}, std::string desc = {})
        : n_ { n }, t_ { util::clone_shared(std::move(t)) }, c_ { c }, d_ { std::move(d) }, f_ { f }, desc_ { std::move(desc) } {}
    column* clone() const& { return new column(*this); }
    column* clone() && { return new column(std::move(*this)); }
    std::string_view simple_name() const { return n_; }
    column& simple_name(std::string n) { n_ = std::move(n); return *this; }
    ttype::data const& type() const { return *t_; }
    std::shared_ptr<ttype::data const> shared_type() const { return t_; }
    variable::criteria& criteria() { return c_; }
    variable::criteria const& criteria() const { return c_; }
    column_value& default_value() { return d_; }
    column_value const& default_value() const { return d_; }
    using feature_set_type = column_feature_set;
    column_feature_set& features() { return f_; }
    column_feature_set const& features() const { return f_; }
    std::string const& description() const { return desc_; }
    column& description(std::string s) { desc_ = std::move(s); return *this; }
    relation const& owner() const { return *owner_; }
    optional_ptr<relation const> optional_owner() const { return optional_ptr<relation const> { owner_ }; }
    friend bool operator==(column const& a, column const& b) { return std::addressof(a) == std::addressof(b); }
    friend bool operator!=(column const& a, column const& b) { return !(a == b); }
    friend std::ostream& operator<<(std::ostream& out, column const& c) { return out << c.n_ << ": " << *c.t_; }
private:
    friend class table;
    std::string n_;
    std::shared_ptr<ttype::data const> t_;
    variable::criteria c_;
    column_value d_;
    column_feature_set f_;
    std::string desc_;
    relation const* owner_ {};
};
enum class relation_kind { table, view };
class provider;
using column_list_view = util::reference_vector<column>;
class relation {
public:
    virtual ~relation() = default;
    virtual relation_kind kind() const noexcept = 0;
    virtual std::string_view simple_name() const noexcept = 0;
    virtual column_list_view const& columns() const noexcept = 0;
    optional_ptr<provider const> owner() const noexcept { return optional_ptr<provider const> { owner_ }; }
    friend bool operator==(relation const& a, relation const& b) { return std::addressof(a) == std::addressof(b); }
    friend bool operator!=(relation const& a, relation const& b) { return !(a == b); }
    friend std::ostream& operator<<(std::ostream& out, relation const& r) { return out << r.simple_name(); }
protected:
    relation() = default;
    relation(relation&&) = default;
private:
    friend class provider;
    friend class configurable_provider;
    mutable provider const* owner_ {};
};
class table : public relation {
public:
    static constexpr relation_kind tag = relation_kind::table;
    using definition_id_type = std::size_t;
    table(std::optional<definition_id_type> id, std::string n, util::reference_vector<column> c, std::string d = {})
        : id_ { id }, n_ { std::move(n) }, c_ { std::move(c) }, d_ { std::move(d) } { adopt(); }
    table(std::string_view n, std::initializer_list<column> c, std::string d = {}) : n_ { n }, d_ { std::move(d) } {
        for (auto& e : c) { c_.push_back(std::make_unique<column>(e)); }
        adopt();
    }
    table(std::optional<definition_id_type> id, std::string_view n, std::initializer_list<column> c, std::string d = {}) : table { n, c, std::move(d) } { id_ = id; }
    table(table&& o) : relation { std::move(o) }, id_ { o.id_ }, n_ { std::move(o.n_) }, c_ { std::move(o.c_) }, d_ { std::move(o.d_) } { adopt(); }
    table* clone() && { return new table(std::move(*this)); }
    relation_kind kind() const noexcept override { return tag; }
    std::optional<definition_id_type> definition_id() const { return id_; }
    std::string_view simple_name() const noexcept override { return n_; }
    table& simple_name(std::string n) { n_ = std::move(n); return *this; }
    util::reference_vector<column>& columns() noexcept { return c_; }
    column_list_view const& columns() const noexcept override { return c_; }
    std::string const& description() const { return d_; }
private:
    std::optional<definition_id_type> id_;
    std::string n_;
    util::reference_vector<column> c_;
    std::string d_;
    void adopt() { for (auto& c : c_) { c.owner_ = this; } }
};
enum class index_feature { primary, find, scan, unique, unique_constraint };
inline std::ostream& operator<<(std::ostream& out, index_feature f) {
    static constexpr std::string_view n[] { "primary", "find", "scan", "unique", "unique_constraint" };
    return out << n[static_cast<int>(f)];
}
using index_feature_set = util::enum_set<index_feature, index_feature::primary, index_feature::unique_constraint>;
class index {
public:
    using definition_id_type = std::size_t;
    using column_ref = std::reference_wrapper<column const>;
    class key {
    public:
        using direction_type = ::takatori::relation::sort_direction;
        key(class column const& c, direction_type d = direction_type::ascendant) : c_ { std::addressof(c) }, d_ { d } {}
        class column const& column() const { return *c_; }
        direction_type direction() const { return d_; }
        friend bool operator==(key const& a, key const& b) { return a.c_ == b.c_ && a.d_ == b.d_; }
        friend bool operator!=(key const& a, key const& b) { return !(a == b); }
        friend std::ostream& operator<<(std::ostream& out, key const& k) { return out << k.c_->simple_name() << " " << k.d_; }
    private:
        class column const* c_;
        direction_type d_;
    };
    index(std::optional<definition_id_type> id, std::shared_ptr<class table const> t, std::string n, std::vector<key> k, std::vector<column_ref> v, index_feature_set f = { index_feature::find, index_feature::scan }, std::string d = {})
        : id_ { id }, t_ { std::move(t) }, n_ { std::move(n) }, k_ { std::move(k) }, v_ { std::move(v) }, f_ { f }, d_ { std::move(d) } {}
    index(std::shared_ptr<class table const> t, std::string_view n, std::initializer_list<key> k = {}, std::initializer_list<column_ref> v = {}, index_feature_set f = { index_feature::find, index_feature::scan }, std::string d = {})
        : t_ { std::move(t) }, n_ { n }, k_ { k }, v_ { v }, f_ { f }, d_ { std::move(d) } {}
    std::optional<definition_id_type> definition_id() const { return id_; }
    class table const& table() const { return *t_; }
    std::shared_ptr<class table const> shared_table() const { return t_; }
    std::string_view simple_name() const { return n_; }
    std::vector<key>& keys() { return k_; }
    std::vector<key> const& keys() const { return k_; }
    std::vector<column_ref>& values() { return v_; }
    std::vector<column_ref> const& values() const { return v_; }
    using feature_set_type = index_feature_set;
    index_feature_set& features() { return f_; }
    index_feature_set const& features() const { return f_; }
    std::string const& description() const { return d_; }
    friend bool operator==(index const& a, index const& b) { return std::addressof(a) == std::addressof(b); }
    friend std::ostream& operator<<(std::ostream& out, index const& i) { return out << i.n_; }
private:
    std::optional<definition_id_type> id_;
    std::shared_ptr<class table const> t_;
    std::string n_;
    std::vector<key> k_;
    std::vector<column_ref> v_;
    index_feature_set f_;
    std::string d_;
};
class provider {
public:
    virtual ~provider() = default;
    virtual std::shared_ptr<relation const> find_relation(std::string_view) const { return {}; }
    virtual std::shared_ptr<table const> find_table(std::string_view n) const {
        auto r = find_relation(n);
        if (r && r->kind() == relation_kind::table) { return std::static_pointer_cast<table const>(r); }
        return {};
    }
    virtual std::shared_ptr<index const> find_index(std::string_view) const { return {}; }
    virtual std::shared_ptr<index const> find_primary_index(table const&) const { return {}; }
};
class configurable_provider : public provider {
public:
    std::shared_ptr<relation const> find_relation(std::string_view n) const override {
        auto i = r_.find(std::string { n });
        return i == r_.end() ? std::shared_ptr<relation const> {} : i->second;
    }
    std::shared_ptr<index const> find_index(std::string_view n) const override {
        for (auto& i : i_) { if (i->simple_name() == n) { return i; } }
        return {};
    }
    std::shared_ptr<index const> find_primary_index(table const& t) const override {
        for (auto& i : i_) { if (&i->table() == &t && i->features().contains(index_feature::primary)) { return i; } }
        return {};
    }
    std::shared_ptr<table> add_table(table&& t, bool = false) { return add_table(std::make_shared<table>(std::move(t))); }
    std::shared_ptr<table> add_table(std::shared_ptr<table> t, bool = false) { return put(std::move(t)); }
    template<class R> std::shared_ptr<R> add_relation(std::shared_ptr<R> t, bool = false) { return put(std::move(t)); }
    std::shared_ptr<index> add_index(index&& i, bool = false) { return add_index(std::make_shared<index>(std::move(i))); }
    std::shared_ptr<index> add_index(std::shared_ptr<index> i, bool = false) { i_.push_back(i); return i; }
    ~configurable_provider() override { for (auto& [k, r] : r_) { r->owner_ = nullptr; } }
private:
    template<class R> std::shared_ptr<R> put(std::shared_ptr<R> t) { t->owner_ = this; r_[std::string { t->simple_name() }] = t; return t; }
    std::map<std::string, std::shared_ptr<relation>> r_;
    std::vector<std::shared_ptr<index>> i_;
};
} // namespace storage
namespace schema {
class declaration {
public:
    using definition_id_type = std::size_t;
    declaration(std::string_view n, std::optional<definition_id_type> id = {},
            std::shared_ptr<storage::provider> s = {}, std::shared_ptr<variable::provider> v = {},
            std::shared_ptr<function::provider> f = {}, std::shared_ptr<aggregate::provider> a = {})
        : n_ { n }, id_ { id }
        , s_ { s ? std::move(s) : std::make_shared<storage::provider>() }, v_ { v ? std::move(v) : std::make_shared<variable::provider>() }
        , f_ { f ? std::move(f) : std::make_shared<function::provider>() }, a_ { a ? std::move(a) : std::make_shared<aggregate::provider>() } {}
    std::string_view name() const { return n_; }
    std::optional<definition_id_type> definition_id() const { return id_; }
    storage::provider const& storage_provider() const { return *s_; }
    std::shared_ptr<storage::provider> shared_storage_provider() const { return s_; }
    variable::provider const& variable_provider() const { return *v_; }
    function::provider const& function_provider() const { return *f_; }
    aggregate::provider const& set_function_provider() const { return *a_; }
    friend bool operator==(declaration const& a, declaration const& b) { return std::addressof(a) == std::addressof(b); }
    friend std::ostream& operator<<(std::ostream& out, declaration const& d) { return out << d.n_; }
private:
    std::string n_;
    std::optional<definition_id_type> id_;
    std::shared_ptr<storage::provider> s_;
    std::shared_ptr<variable::provider> v_;
    std::shared_ptr<function::provider> f_;
    std::shared_ptr<aggregate::provider> a_;
};
class provider {
public:
    virtual ~provider() = default;
    virtual std::shared_ptr<declaration const> find(std::string_view) const { return {}; }
};
class configurable_provider : public provider {
public:
    std::shared_ptr<declaration const> find(std::string_view n) const override {
        auto i = m_.find(std::string { n });
        return i == m_.end() ? std::shared_ptr<declaration const> {} : i->second;
    }
    std::shared_ptr<declaration> add(declaration&& d, bool = false) { return add(std::make_shared<declaration>(std::move(d))); }
    std::shared_ptr<declaration> add(std::shared_ptr<declaration> p, bool = false) { m_[std::string { p->name() }] = p; return p; }
private:
    std::map<std::string, std::shared_ptr<declaration>> m_;
};
class catalog {
public:
    using definition_id_type = std::size_t;
    catalog(std::string_view n, std::optional<definition_id_type> id = {}, std::shared_ptr<provider> p = {})
        : n_ { n }, id_ { id }, p_ { p ? std::move(p) : std::make_shared<provider>() } {}
    std::string_view name() const { return n_; }
    provider const& schema_provider() const { return *p_; }
    friend bool operator==(catalog const& a, catalog const& b) { return std::addressof(a) == std::addressof(b); }
    friend std::ostream& operator<<(std::ostream& out, catalog const& d) { return out << d.n_; }
private:
    std::string n_;
    std::optional<definition_id_type> id_;
    std::shared_ptr<provider> p_;
};
class search_path {
public:
    using vector_type = std::vector<maybe_shared_ptr<declaration const>>;
    search_path() = default;
    search_path(vector_type v) : v_ { std::move(v) } {}
    search_path(std::initializer_list<maybe_shared_ptr<declaration const>> v) : v_ { v } {}
    vector_type& elements() { return v_; }
    vector_type const& elements() const { return v_; }
    friend std::ostream& operator<<(std::ostream& out, search_path const& p) { return out << "search_path(" << p.v_.size() << ")"; }
private:
    vector_type v_;
};
} // namespace schema
namespace binding {
using namespace ::takatori::descriptor;
enum class variable_info_kind { exchange_column, table_column, external_variable, frame_variable, stream_variable, local_variable };
inline std::ostream& operator<<(std::ostream& out, variable_info_kind k) {
    static constexpr std::string_view n[] { "exchange_column", "table_column", "external_variable", "frame_variable", "stream_variable", "local_variable" };
    return out << n[static_cast<int>(k)];
}
class variable_info : public ::takatori::descriptor::object {
public:
    virtual variable_info_kind kind() const noexcept = 0;
};
/// variables which are identified by its own object
template<variable_info_kind K>
class plain_variable final : public variable_info {
public:
    explicit plain_variable(std::string label) : label_ { std::move(label) } {}
    variable_info_kind kind() const noexcept override { return K; }
    std::string_view label() const noexcept { return label_; }
    bool equals(object const& o) const noexcept override { return this == std::addressof(o); }
    std::size_t hash() const noexcept override { return std::hash<void const*> {}(this); }
    std::ostream& print(std::ostream& out) const override { return out << K << "#" << label_; }
private:
    std::string label_;
};
/// descriptors which wrap declarations, and are identified by them
template<class T, class Base = ::takatori::descriptor::object>
class declared : public Base {
public:
    using declaration_type = T;
    explicit declared(T const& v) : p_ { std::addressof(v) } {}
    explicit declared(std::shared_ptr<T const> v) : p_ { v.get() }, s_ { std::move(v) } {}
    T const& declaration() const { return *p_; }
    std::shared_ptr<T const> shared_declaration() const { return s_; }
    bool equals(::takatori::descriptor::object const& o) const noexcept override {
        auto x = dynamic_cast<declared const*>(std::addressof(o));
        return x != nullptr && x->p_ == p_;
    }
    std::size_t hash() const noexcept override { return std::hash<void const*> {}(p_); }
    std::ostream& print(std::ostream& out) const override { if (p_ == nullptr) { return out << "(null)"; } return out << *p_; }
private:
    T const* p_;
    std::shared_ptr<T const> s_;
};
class table_column_info final : public declared<storage::column, variable_info> {
public:
    using declared::declared;
    variable_info_kind kind() const noexcept override { return variable_info_kind::table_column; }
};
class external_variable_info final : public declared<variable::declaration, variable_info> {
public:
    using declared::declared;
    variable_info_kind kind() const noexcept override { return variable_info_kind::external_variable; }
};
inline variable_info const& unwrap(::takatori::descriptor::variable const& v) { return dynamic_cast<variable_info const&>(v.entity()); }
inline variable_info_kind kind_of(::takatori::descriptor::variable const& v) { return unwrap(v).kind(); }
template<class T, class D>
optional_ptr<T const> extract_if(D const& d) {
    if (!d) { return {}; }
    if constexpr (std::is_same_v<T, storage::column>) {
        if (auto p = dynamic_cast<declared<T, variable_info> const*>(&d.entity())) { return optional_ptr<T const> { p->declaration() }; }
    } else if constexpr (std::is_same_v<T, variable::declaration>) {
        if (auto p = dynamic_cast<declared<T, variable_info> const*>(&d.entity())) { return optional_ptr<T const> { p->declaration() }; }
    } else {
        if (auto p = dynamic_cast<declared<T> const*>(&d.entity())) { return optional_ptr<T const> { p->declaration() }; }
    }
    return {};
}
template<class T, class D>
T const& extract(D const& d) {
    if (auto p = extract_if<T>(d)) { return *p; }
    throw std::bad_cast {};
}
inline storage::table const& extract(::takatori::descriptor::storage const& d) { return extract<storage::table>(d); }
inline schema::declaration const& extract(::takatori::descriptor::schema const& d) { return extract<schema::declaration>(d); }
inline function::declaration const& extract(::takatori::descriptor::function const& d) { return extract<function::declaration>(d); }
inline aggregate::declaration const& extract(::takatori::descriptor::aggregate_function const& d) { return extract<aggregate::declaration>(d); }
template<class T, class D>
std::shared_ptr<T const> extract_shared(D const& d) {
    if (auto p = dynamic_cast<declared<T> const*>(&d.entity())) { return p->shared_declaration(); }
    return {};
}
inline std::shared_ptr<function::declaration const> extract_shared(::takatori::descriptor::function const& d) { return extract_shared<function::declaration>(d); }
inline std::shared_ptr<storage::table const> extract_shared(::takatori::descriptor::storage const& d) { return extract_shared<storage::table>(d); }
class factory {
    template<class D, class T> static D make(maybe_shared_ptr<T const> p) {
        if (!p) { throw std::invalid_argument("empty declaration"); }
        if (auto s = p.ownership()) { return D { std::make_shared<declared<T>>(std::move(s)) }; }
        return D { std::make_shared<declared<T>>(*p) };
    }
    static std::string label(::takatori::descriptor::variable const& v) {
        if (auto p = dynamic_cast<plain_variable<variable_info_kind::stream_variable> const*>(&v.entity())) { return std::string { p->label() }; }
        if (auto p = extract_if<storage::column>(v)) { return std::string { p->simple_name() }; }
        return {};
    }
public:
    using variable_type = ::takatori::descriptor::variable;
    variable_type stream_variable(std::string_view n = {}) const { return variable_type { std::make_shared<plain_variable<variable_info_kind::stream_variable>>(std::string { n }) }; }
    variable_type stream_variable(variable_type const& v) const { return stream_variable(label(v)); }
    variable_type local_variable(std::string_view n = {}) const { return variable_type { std::make_shared<plain_variable<variable_info_kind::local_variable>>(std::string { n }) }; }
    variable_type frame_variable(std::string_view n = {}) const { return variable_type { std::make_shared<plain_variable<variable_info_kind::frame_variable>>(std::string { n }) }; }
    variable_type frame_variable(variable_type const& v) const { return frame_variable(label(v)); }
    variable_type table_column(storage::column const& c) const { return variable_type { std::make_shared<table_column_info>(c) }; }
    variable_type operator()(storage::column const& c) const { return table_column(c); }
    variable_type external_variable(std::shared_ptr<variable::declaration const> d) const { return variable_type { std::make_shared<external_variable_info>(std::move(d)) }; }
    variable_type operator()(std::shared_ptr<variable::declaration const> d) const { return external_variable(std::move(d)); }
    variable_type operator()(std::shared_ptr<variable::declaration> d) const { return external_variable(std::move(d)); }
    ::takatori::descriptor::relation operator()(storage::index const& i) const { return ::takatori::descriptor::relation { std::make_shared<declared<storage::index>>(i) }; }
    ::takatori::descriptor::storage index(maybe_shared_ptr<storage::index const> p) const { return make<::takatori::descriptor::storage>(std::move(p)); }
    ::takatori::descriptor::storage operator()(std::shared_ptr<storage::index const> p) const { return index(std::move(p)); }
    ::takatori::descriptor::storage operator()(std::shared_ptr<storage::index> p) const { return index(std::move(p)); }
    ::takatori::descriptor::storage storage(maybe_shared_ptr<storage::table const> p) const { return make<::takatori::descriptor::storage>(std::move(p)); }
    ::takatori::descriptor::storage operator()(std::shared_ptr<storage::table const> p) const { return storage(std::move(p)); }
    ::takatori::descriptor::storage operator()(std::shared_ptr<storage::table> p) const { return storage(std::move(p)); }
    ::takatori::descriptor::schema schema(maybe_shared_ptr<schema::declaration const> p) const { return make<::takatori::descriptor::schema>(std::move(p)); }
    ::takatori::descriptor::schema operator()(maybe_shared_ptr<schema::declaration const> p) const { return schema(std::move(p)); }
    ::takatori::descriptor::function function(maybe_shared_ptr<function::declaration const> p) const { return make<::takatori::descriptor::function>(std::move(p)); }
    ::takatori::descriptor::function operator()(std::shared_ptr<function::declaration const> p) const { return function(std::move(p)); }
    ::takatori::descriptor::function operator()(std::shared_ptr<function::declaration> p) const { return function(std::move(p)); }
    ::takatori::descriptor::aggregate_function aggregate_function(maybe_shared_ptr<aggregate::declaration const> p) const { return make<::takatori::descriptor::aggregate_function>(std::move(p)); }
    ::takatori::descriptor::aggregate_function operator()(std::shared_ptr<aggregate::declaration const> p) const { return aggregate_function(std::move(p)); }
    ::takatori::descriptor::aggregate_function operator()(std::shared_ptr<aggregate::declaration> p) const { return aggregate_function(std::move(p)); }
};
} // namespace binding
} // namespace yugawara
