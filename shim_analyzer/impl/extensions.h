#pragma once
#include "yugawara.h"
namespace yugawara::extension {
namespace details {
using ::takatori::descriptor::variable;
using ::takatori::relation::graph;
class mapping {
public:
    mapping(variable s, variable d) : s_ { std::move(s) }, d_ { std::move(d) } {}
    variable& source() { return s_; }
    variable const& source() const { return s_; }
    variable& destination() { return d_; }
    variable const& destination() const { return d_; }
    friend bool operator==(mapping const& a, mapping const& b) { return a.s_ == b.s_ && a.d_ == b.d_; }
    friend std::ostream& operator<<(std::ostream& out, mapping const& m) { return out << m.s_ << " -> " << m.d_; }
private:
    variable s_, d_;
};
template<class G> auto find_output(G& g) {
    using P = std::conditional_t<std::is_const_v<G>, ::takatori::relation::output_port const, ::takatori::relation::output_port>;
    optional_ptr<P> r {};
    for (auto& e : g) {
        for (auto& p : e.output_ports()) {
            if (p.opposite()) { continue; }
            if (r) { return optional_ptr<P> {}; }
            r = optional_ptr<P> { p };
        }
    }
    return r;
}
inline graph copy(graph const& g) { graph r {}; merge_into(g, r); return r; }
template<class Self, std::size_t Tag>
class scalar_base : public ::takatori::scalar::extension {
public:
    static constexpr std::size_t extension_tag = Tag;
    std::size_t extension_id() const noexcept override { return Tag; }
    ::takatori::scalar::extension* clone() const& override { return copy_of(); }
    ::takatori::scalar::extension* clone() && override { return copy_of(); }
private:
    ::takatori::scalar::extension* copy_of() const { auto r = static_cast<Self const&>(*this).copied(); r->region() = this->region(); return r; }
};
} // namespace details
namespace scalar {
namespace tscalar = ::takatori::scalar;
using ::takatori::relation::graph;
class aggregate_function_call final : public details::scalar_base<aggregate_function_call, 1> {
public:
    aggregate_function_call(::takatori::descriptor::aggregate_function f, ::takatori::util::reference_vector<tscalar::expression> a) : f_ { std::move(f) }, a_ { std::move(a) } {}
    explicit aggregate_function_call(::takatori::descriptor::aggregate_function f, std::initializer_list<rvalue_reference_wrapper<tscalar::expression>> a = {}) : f_ { std::move(f) } {
        for (auto& e : a) { a_.push_back(util::clone_unique(e)); }
    }
    ::takatori::descriptor::aggregate_function& function() { return f_; }
    ::takatori::descriptor::aggregate_function const& function() const { return f_; }
    tscalar::expression_list& arguments() { return a_; }
    tscalar::expression_list const& arguments() const { return a_; }
    std::ostream& print(std::ostream& out) const override { return out << "aggregate_function_call(" << f_ << ", " << a_ << ")"; }
    aggregate_function_call* copied() const { return new aggregate_function_call { f_, a_, 0 }; }
protected:
    bool ext_equals(tscalar::extension const& o) const override { auto& x = static_cast<aggregate_function_call const&>(o); return f_ == x.f_ && a_ == x.a_; }
private:
    aggregate_function_call(::takatori::descriptor::aggregate_function f, tscalar::expression_list a, int) : f_ { std::move(f) }, a_ { std::move(a) } {}
    ::takatori::descriptor::aggregate_function f_;
    tscalar::expression_list a_;
};
#define SHIM_GRAPH_MEMBERS \
    graph& query_graph() { return g_; } \
    graph const& query_graph() const { return g_; } \
    std::vector<parameter_type>& parameters() { return p_; } \
    std::vector<parameter_type> const& parameters() const { return p_; } \
    optional_ptr<::takatori::relation::output_port> find_output_port() { return details::find_output(g_); } \
    optional_ptr<::takatori::relation::output_port const> find_output_port() const { return details::find_output(g_); }
class subquery final : public details::scalar_base<subquery, 2> {
public:
    using parameter_type = details::mapping;
    subquery(graph g, std::vector<parameter_type> p, ::takatori::descriptor::variable c) : g_ { std::move(g) }, p_ { std::move(p) }, c_ { std::move(c) } {}
    SHIM_GRAPH_MEMBERS
    ::takatori::descriptor::variable& output_column() { return c_; }
    ::takatori::descriptor::variable const& output_column() const { return c_; }
    std::ostream& print(std::ostream& out) const override { return out << "subquery(" << g_ << ", " << c_ << ")"; }
    subquery* copied() const { return new subquery { details::copy(g_), p_, c_ }; }
protected:
    bool ext_equals(tscalar::extension const& o) const override { return this == &o; }
private:
    graph g_;
    std::vector<parameter_type> p_;
    ::takatori::descriptor::variable c_;
};
class exists final : public details::scalar_base<exists, 3> {
public:
    using parameter_type = details::mapping;
    exists(graph g, std::vector<parameter_type> p) : g_ { std::move(g) }, p_ { std::move(p) } {}
    SHIM_GRAPH_MEMBERS
    std::ostream& print(std::ostream& out) const override { return out << "exists(" << g_ << ")"; }
    exists* copied() const { return new exists { details::copy(g_), p_ }; }
protected:
    bool ext_equals(tscalar::extension const& o) const override { return this == &o; }
private:
    graph g_;
    std::vector<parameter_type> p_;
};
class quantified_compare final : public details::scalar_base<quantified_compare, 4> {
public:
    using parameter_type = details::mapping;
    quantified_compare(tscalar::comparison_operator k, tscalar::quantifier q, tscalar::slot left, graph g, std::vector<parameter_type> p, ::takatori::descriptor::variable c)
        : k_ { k }, q_ { q }, left_ { std::move(left) }, g_ { std::move(g) }, p_ { std::move(p) }, c_ { std::move(c) } {}
    SHIM_GRAPH_MEMBERS
    tscalar::comparison_operator operator_kind() const { return k_; }
    tscalar::quantifier quantifier() const { return q_; }
    SHIM_SLOT(left)
    ::takatori::descriptor::variable& right_column() { return c_; }
    ::takatori::descriptor::variable const& right_column() const { return c_; }
    std::ostream& print(std::ostream& out) const override { return out << "quantified_compare(" << k_ << ", " << q_ << ", " << left_ << ", " << g_ << ")"; }
    quantified_compare* copied() const { return new quantified_compare { k_, q_, left_, details::copy(g_), p_, c_ }; }
protected:
    bool ext_equals(tscalar::extension const& o) const override { return this == &o; }
private:
    tscalar::comparison_operator k_;
    tscalar::quantifier q_;
    tscalar::slot left_;
    graph g_;
    std::vector<parameter_type> p_;
    ::takatori::descriptor::variable c_;
};
} // namespace scalar
namespace relation {
class subquery final : public ::takatori::relation::intermediate::extension {
public:
    using mapping_type = details::mapping;
    using output_port_type = ::takatori::relation::output_port;
    static constexpr std::size_t extension_tag = 1;
    subquery(::takatori::relation::graph g, std::vector<mapping_type> m, bool is_clone = false)
        : ::takatori::relation::intermediate::extension { 0, 1 }, g_ { std::move(g) }, m_ { std::move(m) }, is_clone_ { is_clone } {}
    std::size_t extension_id() const noexcept override { return extension_tag; }
    subquery* clone() const& override { return new subquery { details::copy(g_), m_, true }; }
    ::takatori::relation::graph& query_graph() { return g_; }
    ::takatori::relation::graph const& query_graph() const { return g_; }
    std::vector<mapping_type>& mappings() { return m_; }
    std::vector<mapping_type> const& mappings() const { return m_; }
    bool is_clone() const { return is_clone_; }
    output_port_type& output() { return *out_.at(0); }
    output_port_type const& output() const { return *out_.at(0); }
    optional_ptr<output_port_type> find_output_port() { return details::find_output(g_); }
    optional_ptr<output_port_type const> find_output_port() const { return details::find_output(g_); }
private:
    ::takatori::relation::graph g_;
    std::vector<mapping_type> m_;
    bool is_clone_;
};
} // namespace relation
} // namespace yugawara::extension
