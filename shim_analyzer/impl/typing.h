#pragma once
// a minimal stand-in of the expression analyzer of yugawara
#include "extensions.h"
#include <unordered_map>
namespace yugawara {
template<class C>
class diagnostic {
public:
    using code_type = C;
    using message_type = std::string;
    using location_type = ::takatori::document::region;
    diagnostic(code_type c, message_type m, location_type l) : c_ { c }, m_ { std::move(m) }, l_ { l } {}
    code_type code() const { return c_; }
    message_type const& message() const { return m_; }
    location_type const& location() const { return l_; }
    friend std::ostream& operator<<(std::ostream& out, diagnostic const& d) { return out << "diagnostic(code=" << d.c_ << ", message='" << d.m_ << "')"; }
private:
    code_type c_;
    message_type m_;
    location_type l_;
};
namespace type {
using ::takatori::type::data;
using ::takatori::type::type_kind;
using util::ternary;
inline bool is_integer(type_kind k) { return k == type_kind::int1 || k == type_kind::int2 || k == type_kind::int4 || k == type_kind::int8; }
inline bool is_float(type_kind k) { return k == type_kind::float4 || k == type_kind::float8; }
inline bool is_number(type_kind k) { return is_integer(k) || is_float(k) || k == type_kind::decimal; }
inline bool is_temporal(type_kind k) { return k == type_kind::date || k == type_kind::time_of_day || k == type_kind::time_point; }
inline int numeric_rank(type_kind k) {
    switch (k) {
        case type_kind::int1: return 1;
        case type_kind::int2: return 2;
        case type_kind::int4: return 3;
        case type_kind::int8: return 4;
        case type_kind::decimal: return 5;
        case type_kind::float4: return 6;
        case type_kind::float8: return 7;
        default: return 0;
    }
}
/// whether the value of the former type can be passed to the parameter of the latter type.
inline ternary is_parameter_application_convertible(data const& from, data const& to) {
    auto yes = [](bool b) { return b ? ternary::yes : ternary::no; };
    if (from.kind() == type_kind::unknown) { return ternary::yes; }
    if (is_number(from.kind()) && is_number(to.kind())) {
        return yes(numeric_rank(from.kind()) <= numeric_rank(to.kind()));
    }
    if (from.kind() != to.kind()) { return ternary::no; }
    switch (from.kind()) {
        case type_kind::time_of_day:
        case type_kind::time_point:
        case type_kind::table:
            return yes(from == to);
        default:
            return ternary::yes;
    }
}
inline std::shared_ptr<data const> mk(data&& t) { return util::clone_shared(std::move(t)); }
using tp = std::shared_ptr<data const>;
inline tp unary_promotion(tp const& t) {
    switch (t->kind()) {
        case type_kind::int1: case type_kind::int2: case type_kind::int4: return mk(ttype::int4 {});
        case type_kind::int8: case type_kind::decimal: case type_kind::float4: case type_kind::float8: case type_kind::datetime_interval: case type_kind::unknown: return t;
        default: return {};
    }
}
inline tp binary_promotion(tp const& a, tp const& b) {
    if (a->kind() == type_kind::unknown) { return unary_promotion(b); }
    if (b->kind() == type_kind::unknown) { return unary_promotion(a); }
    if (!is_number(a->kind()) || !is_number(b->kind())) { return {}; }
    if (is_float(a->kind()) || is_float(b->kind())) {
        if (a->kind() == type_kind::float4 && b->kind() == type_kind::float4) { return a; }
        return mk(ttype::float8 {});
    }
    if (a->kind() == type_kind::decimal || b->kind() == type_kind::decimal) { return mk(ttype::decimal { {}, {} }); }
    if (a->kind() == type_kind::int8 || b->kind() == type_kind::int8) { return mk(ttype::int8 {}); }
    return mk(ttype::int4 {});
}
/// the type which both types are assignable to
inline tp unify(tp const& a, tp const& b) {
    if (!a || !b) { return {}; }
    if (*a == *b) { return a; }
    if (a->kind() == type_kind::unknown) { return b; }
    if (b->kind() == type_kind::unknown) { return a; }
    if (is_number(a->kind()) && is_number(b->kind())) { return binary_promotion(a, b); }
    if (a->kind() != b->kind()) { return {}; }
    auto str = [](auto const& x, auto const& y) -> tp {
        using T = std::decay_t<decltype(x)>;
        std::optional<std::size_t> n {};
        if (x.length() && y.length()) { n = std::max(*x.length(), *y.length()); }
        bool varying = x.varying() || y.varying() || x.length() != y.length();
        return mk(T { ttype::varying_t { varying }, n });
    };
    switch (a->kind()) {
        case type_kind::character: return str(static_cast<ttype::character const&>(*a), static_cast<ttype::character const&>(*b));
        case type_kind::octet: return str(static_cast<ttype::octet const&>(*a), static_cast<ttype::octet const&>(*b));
        case type_kind::time_of_day: return mk(ttype::time_of_day { ttype::with_time_zone });
        case type_kind::time_point: return mk(ttype::time_point { ttype::with_time_zone });
        case type_kind::blob: case type_kind::clob: return a;
        default: return {};
    }
}
inline tp concat(tp const& a, tp const& b) {
    if (a->kind() == type_kind::unknown) { return b; }
    if (b->kind() == type_kind::unknown) { return a; }
    if (a->kind() != b->kind()) { return {}; }
    auto str = [](auto const& x, auto const& y) -> tp {
        using T = std::decay_t<decltype(x)>;
        std::optional<std::size_t> n {};
        if (x.length() && y.length()) { n = *x.length() + *y.length(); }
        return mk(T { ttype::varying_t { x.varying() || y.varying() }, n });
    };
    if (a->kind() == type_kind::character) { return str(static_cast<ttype::character const&>(*a), static_cast<ttype::character const&>(*b)); }
    if (a->kind() == type_kind::octet) { return str(static_cast<ttype::octet const&>(*a), static_cast<ttype::octet const&>(*b)); }
    return {};
}
} // namespace type
namespace analyzer {
enum class expression_analyzer_code { unknown, unsupported_type, ambiguous_type, inconsistent_type, unresolved_variable, inconsistent_elements, inconsistent_function_type };
class variable_resolution {
public:
    variable_resolution() = default;
    variable_resolution(std::shared_ptr<ttype::data const> t) : t_ { std::move(t) } {}
    variable_resolution(ttype::data&& t) : t_ { util::clone_shared(std::move(t)) } {}
    variable_resolution(storage::column const& c) : t_ { c.shared_type() } {}
    variable_resolution(variable::declaration const& c) : t_ { c.shared_type() } {}
    bool is_resolved() const { return static_cast<bool>(t_); }
    explicit operator bool() const { return is_resolved(); }
    std::shared_ptr<ttype::data const> const& type() const { return t_; }
private:
    std::shared_ptr<ttype::data const> t_ {};
};
class variable_mapping {
public:
    variable_resolution const& find(::takatori::descriptor::variable const& v) const {
        static variable_resolution const empty {};
        auto i = m_.find(v);
        return i == m_.end() ? empty : i->second;
    }
    void bind(::takatori::descriptor::variable const& v, variable_resolution r, bool overwrite = false) {
        auto [i, ok] = m_.try_emplace(v, r);
        if (!ok) {
            if (!overwrite) { throw std::domain_error("rebind variable"); }
            i->second = std::move(r);
        }
    }
    void unbind(::takatori::descriptor::variable const& v) { m_.erase(v); }
    void clear() { m_.clear(); }
private:
    std::unordered_map<::takatori::descriptor::variable, variable_resolution> m_;
};
class expression_mapping {
public:
    std::shared_ptr<ttype::data const> find(::takatori::scalar::expression const& e) const { auto i = m_.find(&e); return i == m_.end() ? nullptr : i->second; }
    void bind(::takatori::scalar::expression const& e, std::shared_ptr<ttype::data const> t) { m_[&e] = std::move(t); }
    void unbind(::takatori::scalar::expression const& e) { m_.erase(&e); }
    void clear() { m_.clear(); }
private:
    std::unordered_map<::takatori::scalar::expression const*, std::shared_ptr<ttype::data const>> m_;
};
class expression_analyzer {
public:
    using type_repository = util::object_repository<ttype::data>;
    using diagnostic_type = diagnostic<expression_analyzer_code>;
    variable_mapping& variables() { return *v_; }
    variable_mapping const& variables() const { return *v_; }
    expression_mapping& expressions() { return *e_; }
    expression_mapping const& expressions() const { return *e_; }
    maybe_shared_ptr<variable_mapping> shared_variables() { return v_; }
    maybe_shared_ptr<expression_mapping> shared_expressions() { return e_; }
    bool has_diagnostics() const { return !d_.empty(); }
    std::vector<diagnostic_type> const& diagnostics() const { return d_; }
    void clear_diagnostics() { d_.clear(); }
    bool allow_unresolved() const { return allow_; }
    expression_analyzer& allow_unresolved(bool b) { allow_ = b; return *this; }

    std::shared_ptr<ttype::data const> resolve(::takatori::scalar::expression const& e, bool validate, type_repository& repo) {
        return scalar(e, validate, repo);
    }
    std::shared_ptr<ttype::data const> resolve(::takatori::descriptor::variable const& v, bool = false) { return var(v); }
    bool resolve(::takatori::relation::expression const& e, bool validate, bool recursive, type_repository& repo);

private:
    using tp = std::shared_ptr<ttype::data const>;
    using code = expression_analyzer_code;
    std::shared_ptr<variable_mapping> v_ { std::make_shared<variable_mapping>() };
    std::shared_ptr<expression_mapping> e_ { std::make_shared<expression_mapping>() };
    std::vector<diagnostic_type> d_;
    bool allow_ { true };

    tp fail(code c, std::string m, ::takatori::document::region r) { d_.emplace_back(c, std::move(m), r); return {}; }
    tp var(::takatori::descriptor::variable const& v) {
        if (auto& r = v_->find(v)) { return r.type(); }
        if (auto c = binding::extract_if<storage::column>(v)) { return c->shared_type(); }
        if (auto c = binding::extract_if<variable::declaration>(v)) { return c->shared_type(); }
        if (allow_) { return std::make_shared<ttype::pending>(); }
        return fail(code::unresolved_variable, "unresolved variable", v.region());
    }
    tp scalar(::takatori::scalar::expression const& e, bool validate, type_repository& repo) {
        if (auto t = e_->find(e)) { return t; }
        auto t = compute(e, validate, repo);
        if (t) { t = repo.get(t); e_->bind(e, t); }
        return t;
    }
    tp compute(::takatori::scalar::expression const& e, bool validate, type_repository& repo);
};

inline std::shared_ptr<ttype::data const> expression_analyzer::compute(::takatori::scalar::expression const& e, bool validate, type_repository& repo) {
    namespace s = ::takatori::scalar;
    using k = s::expression_kind;
    using type::mk;
    auto boolean = [] { return mk(ttype::boolean {}); };
    auto want_boolean = [&](s::expression const& x) -> bool {
        auto t = scalar(x, validate, repo);
        if (!t) { return false; }
        if (validate && t->kind() != ttype::type_kind::boolean && t->kind() != ttype::type_kind::unknown && t->kind() != ttype::type_kind::pending) {
            fail(code::inconsistent_type, "boolean is expected", x.region());
            return false;
        }
        return true;
    };
    auto bad = [&](char const* m) { return fail(code::inconsistent_type, m, e.region()); };
    switch (e.kind()) {
        case k::immediate: return static_cast<s::immediate const&>(e).shared_type();
        case k::variable_reference: {
            auto& v = static_cast<s::variable_reference const&>(e).variable();
            auto n = d_.size();
            auto t = var(v);
            if (!t && d_.size() > n) { d_.pop_back(); return fail(code::unresolved_variable, "unresolved variable", e.region()); }
            return t;
        }
        case k::unary: {
            auto& x = static_cast<s::unary const&>(e);
            auto t = scalar(x.operand(), validate, repo);
            if (!t) { return {}; }
            using op = s::unary_operator;
            switch (x.operator_kind()) {
                case op::plus: case op::sign_inversion: {
                    auto r = type::unary_promotion(t);
                    if (!r) { return bad("number is expected"); }
                    return r;
                }
                case op::length: return mk(ttype::int4 {});
                case op::conditional_not: case op::is_true: case op::is_false: case op::is_unknown:
                    if (!want_boolean(x.operand())) { return {}; }
                    return boolean();
                case op::is_null: return boolean();
            }
            return {};
        }
        case k::cast: {
            auto& x = static_cast<s::cast const&>(e);
            if (!scalar(x.operand(), validate, repo)) { return {}; }
            return x.shared_type();
        }
        case k::binary: {
            auto& x = static_cast<s::binary const&>(e);
            auto l = scalar(x.left(), validate, repo);
            auto r = scalar(x.right(), validate, repo);
            if (!l || !r) { return {}; }
            using op = s::binary_operator;
            switch (x.operator_kind()) {
                case op::concat: {
                    auto t = type::concat(l, r);
                    if (!t) { return bad("string is expected"); }
                    return t;
                }
                case op::conditional_and: case op::conditional_or:
                    if (!want_boolean(x.left()) || !want_boolean(x.right())) { return {}; }
                    return boolean();
                default: {
                    using tk = ttype::type_kind;
                    if (type::is_temporal(l->kind()) && r->kind() == tk::datetime_interval) { return l; }
                    if (type::is_temporal(r->kind()) && l->kind() == tk::datetime_interval) { return r; }
                    if (type::is_temporal(l->kind()) && l->kind() == r->kind()) { return mk(ttype::datetime_interval {}); }
                    auto t = type::binary_promotion(l, r);
                    if (!t) { return bad("number is expected"); }
                    return t;
                }
            }
        }
        case k::compare: {
            auto& x = static_cast<s::compare const&>(e);
            auto l = scalar(x.left(), validate, repo);
            auto r = scalar(x.right(), validate, repo);
            if (!l || !r) { return {}; }
            if (validate && !type::unify(l, r)) { return bad("inconsistent comparison"); }
            return boolean();
        }
        case k::match: {
            auto& x = static_cast<s::match const&>(e);
            bool ok = true;
            for (auto* p : { &x.input(), &x.pattern(), &x.escape() }) { ok = scalar(*p, validate, repo) && ok; }
            if (!ok) { return {}; }
            return boolean();
        }
        case k::conditional: {
            auto& x = static_cast<s::conditional const&>(e);
            tp r { mk(ttype::unknown {}) };
            bool ok = true;
            for (auto& a : x.alternatives()) {
                ok = want_boolean(a.condition()) && ok;
                auto t = scalar(a.body(), validate, repo);
                if (!t) { ok = false; continue; }
                r = type::unify(r, t);
            }
            if (x.default_expression()) {
                auto t = scalar(*x.default_expression(), validate, repo);
                if (!t) { ok = false; } else { r = type::unify(r, t); }
            }
            if (!ok) { return {}; }
            if (!r) { return bad("inconsistent alternatives"); }
            return r;
        }
        case k::coalesce: {
            auto& x = static_cast<s::coalesce const&>(e);
            tp r { mk(ttype::unknown {}) };
            bool ok = true;
            for (auto& a : x.alternatives()) {
                auto t = scalar(a, validate, repo);
                if (!t) { ok = false; continue; }
                r = type::unify(r, t);
            }
            if (!ok) { return {}; }
            if (!r) { return bad("inconsistent alternatives"); }
            return r;
        }
        case k::let: {
            auto& x = static_cast<s::let const&>(e);
            for (auto& v : x.variables()) {
                auto t = scalar(v.value(), validate, repo);
                if (!t) { return {}; }
                v_->bind(v.variable(), t, true);
            }
            return scalar(x.body(), validate, repo);
        }
        case k::function_call: {
            auto& x = static_cast<s::function_call const&>(e);
            for (auto& a : x.arguments()) { if (!scalar(a, validate, repo)) { return {}; } }
            return binding::extract(x.function()).shared_return_type();
        }
        case k::extension: {
            auto& x = static_cast<s::extension const&>(e);
            namespace es = extension::scalar;
            switch (x.extension_id()) {
                case es::aggregate_function_call::extension_tag: {
                    auto& y = static_cast<es::aggregate_function_call const&>(x);
                    for (auto& a : y.arguments()) { if (!scalar(a, validate, repo)) { return {}; } }
                    return binding::extract(y.function()).shared_return_type();
                }
                case es::subquery::extension_tag: return var(static_cast<es::subquery const&>(x).output_column());
                case es::exists::extension_tag: return boolean();
                case es::quantified_compare::extension_tag: {
                    auto& y = static_cast<es::quantified_compare const&>(x);
                    auto l = scalar(y.left(), validate, repo);
                    auto r = var(y.right_column());
                    if (!l || !r) { return {}; }
                    if (validate && !type::unify(l, r)) { return bad("inconsistent comparison"); }
                    return boolean();
                }
            }
            return fail(code::unsupported_type, "unsupported extension", e.region());
        }
    }
    return {};
}
inline bool expression_analyzer::resolve(::takatori::relation::expression const& e, bool validate, bool recursive, type_repository& repo) {
    namespace r = ::takatori::relation;
    using k = r::expression_kind;
    (void) recursive;
    auto bind = [&](::takatori::descriptor::variable const& v, tp const& t) {
        if (!t) { return false; }
        v_->bind(v, repo.get(t), true);
        return true;
    };
    auto condition = [&](::takatori::scalar::expression const& c) {
        auto t = scalar(c, validate, repo);
        if (!t) { return false; }
        if (validate && t->kind() != ttype::type_kind::boolean && t->kind() != ttype::type_kind::unknown) {
            fail(code::inconsistent_type, "condition must be boolean", c.region());
            return false;
        }
        return true;
    };
    switch (e.kind()) {
        case k::scan: {
            for (auto& c : static_cast<r::scan const&>(e).columns()) { if (!bind(c.destination(), var(c.source()))) { return false; } }
            return true;
        }
        case k::values: {
            auto& x = static_cast<r::values const&>(e);
            std::vector<tp> types(x.columns().size(), type::mk(ttype::unknown {}));
            for (auto& row : x.rows()) {
                if (row.elements().size() != x.columns().size()) {
                    fail(code::inconsistent_elements, "inconsistent number of elements", e.region());
                    return false;
                }
                for (std::size_t i = 0; i < types.size(); ++i) {
                    auto t = scalar(row.elements()[i], validate, repo);
                    if (!t) { return false; }
                    types[i] = type::unify(types[i], t);
                    if (!types[i]) {
                        fail(code::inconsistent_type, "inconsistent value types", row.elements()[i].region());
                        return false;
                    }
                }
            }
            for (std::size_t i = 0; i < types.size(); ++i) { bind(x.columns()[i], types[i]); }
            return true;
        }
        case k::project: {
            for (auto& c : static_cast<r::project const&>(e).columns()) { if (!bind(c.variable(), scalar(c.value(), validate, repo))) { return false; } }
            return true;
        }
        case k::filter: return !validate || condition(static_cast<r::filter const&>(e).condition());
        case k::intermediate_join: {
            auto& x = static_cast<r::intermediate::join const&>(e);
            return !validate || !x.condition() || condition(*x.condition());
        }
        case k::intermediate_aggregate: {
            for (auto& c : static_cast<r::intermediate::aggregate const&>(e).columns()) {
                for (auto& a : c.arguments()) { if (!var(a)) { return false; } }
                if (!bind(c.destination(), binding::extract(c.function()).shared_return_type())) { return false; }
            }
            return true;
        }
        case k::intermediate_union: {
            for (auto& m : static_cast<r::intermediate::union_ const&>(e).mappings()) {
                tp t { type::mk(ttype::unknown {}) };
                for (auto* s : { &m.left(), &m.right() }) {
                    if (!*s) { continue; }
                    auto u = var(**s);
                    if (!u) { return false; }
                    t = type::unify(t, u);
                    if (!t) { fail(code::inconsistent_type, "inconsistent union columns", e.region()); return false; }
                }
                bind(m.destination(), t);
            }
            return true;
        }
        case k::intermediate_intersection:
        case k::intermediate_difference: {
            auto check = [&](auto& x) {
                for (auto& m : x.group_key_pairs()) {
                    auto a = var(m.left());
                    auto b = var(m.right());
                    if (!a || !b) { return false; }
                    if (!type::unify(a, b)) { fail(code::inconsistent_type, "inconsistent columns", e.region()); return false; }
                }
                return true;
            };
            return e.kind() == k::intermediate_intersection ? check(static_cast<r::intermediate::intersection const&>(e)) : check(static_cast<r::intermediate::difference const&>(e));
        }
        case k::apply: {
            auto& x = static_cast<r::apply const&>(e);
            for (auto& a : x.arguments()) { if (!scalar(a, validate, repo)) { return false; } }
            auto& t = binding::extract(x.function()).return_type();
            if (t.kind() != ttype::type_kind::table) {
                fail(code::inconsistent_type, "table is expected", e.region());
                return false;
            }
            auto& tt = static_cast<ttype::table const&>(t);
            for (auto& c : x.columns()) { bind(c.variable(), tt.columns().at(c.position()).shared_type()); }
            return true;
        }
        case k::intermediate_extension: {
            auto& x = static_cast<extension::relation::subquery const&>(e);
            bool known = std::all_of(x.mappings().begin(), x.mappings().end(), [&](auto& m) { return static_cast<bool>(v_->find(m.source())); });
            if (!known) { // operators of an input always stand before it
                for (auto& o : x.query_graph()) { if (!resolve(o, validate, recursive, repo)) { return false; } }
            }
            for (auto& m : x.mappings()) { if (!bind(m.destination(), var(m.source()))) { return false; } }
            return true;
        }
        case k::intermediate_distinct:
        case k::intermediate_limit:
        case k::emit:
        case k::write:
            return true;
        default:
            fail(code::unknown, "unsupported relation expression", e.region());
            return false;
    }
}
} // namespace analyzer
class compiled_info {
public:
    compiled_info(std::shared_ptr<analyzer::expression_mapping const> e, std::shared_ptr<analyzer::variable_mapping const> v) : e_ { std::move(e) }, v_ { std::move(v) } {}
    ttype::data const& type_of(::takatori::descriptor::variable const& v) const { return *v_->find(v).type(); }
    ttype::data const& type_of(::takatori::scalar::expression const& e) const { return *e_->find(e); }
private:
    std::shared_ptr<analyzer::expression_mapping const> e_;
    std::shared_ptr<analyzer::variable_mapping const> v_;
};
} // namespace yugawara
