#pragma once
#include "scalars.h"
#include <unordered_map>
namespace takatori::relation {
using scalar::to_string_view;
enum class expression_kind { find, scan, values, join_find, join_scan, apply, project, filter, buffer, identify, emit, write,
    intermediate_join, intermediate_aggregate, intermediate_distinct, intermediate_limit, intermediate_union, intermediate_intersection, intermediate_difference, intermediate_escape, intermediate_extension };
inline std::ostream& operator<<(std::ostream& out, expression_kind k) {
    static constexpr std::string_view n[] { "find", "scan", "values", "join_find", "join_scan", "apply", "project", "filter", "buffer", "identify", "emit", "write",
        "join", "aggregate", "distinct", "limit", "union", "intersection", "difference", "escape", "extension" };
    return out << n[static_cast<int>(k)];
}
SHIM_ENUM(join_kind, inner, left_outer, right_outer, full_outer, semi, anti, left_outer_at_most_one)
SHIM_ENUM(apply_kind, cross, outer)
SHIM_ENUM(set_quantifier, all, distinct)
SHIM_ENUM(sort_direction, ascendant, descendant)
SHIM_ENUM(write_kind, insert, insert_overwrite, insert_skip, update, delete_)
SHIM_ENUM(endpoint_kind, unbound, inclusive, exclusive, prefixed_inclusive, prefixed_exclusive)

class expression;
enum class port_direction { input, output };
template<port_direction D>
class port {
public:
    using opposite_type = port<D == port_direction::input ? port_direction::output : port_direction::input>;
    port(expression& owner, std::size_t index) : owner_ { std::addressof(owner) }, index_ { index } {}
    port(port const&) = delete;
    port& operator=(port const&) = delete;
    ~port() { disconnect_all(); }
    expression& owner() noexcept { return *owner_; }
    expression const& owner() const noexcept { return *owner_; }
    std::size_t index() const noexcept { return index_; }
    util::optional_ptr<opposite_type> opposite() noexcept { return util::optional_ptr<opposite_type> { o_ }; }
    util::optional_ptr<opposite_type const> opposite() const noexcept { return util::optional_ptr<opposite_type const> { o_ }; }
    void connect_to(opposite_type& o) {
        if (o_ == std::addressof(o)) { return; }
        if (o_ != nullptr || o.o_ != nullptr) { throw std::domain_error("port is already connected"); }
        o_ = std::addressof(o);
        o.o_ = this;
    }
    void disconnect_from(opposite_type& o) {
        if (o_ == std::addressof(o)) { disconnect_all(); }
    }
    void disconnect_all() { if (o_ != nullptr) { o_->o_ = nullptr; o_ = nullptr; } }
    void reconnect_to(opposite_type& o) { disconnect_all(); connect_to(o); }
    void operator<<(opposite_type& o) { connect_to(o); }
    void operator>>(opposite_type& o) { connect_to(o); }
private:
    template<port_direction> friend class port;
    expression* owner_;
    std::size_t index_;
    opposite_type* o_ {};
};
using input_port = port<port_direction::input>;
using output_port = port<port_direction::output>;

template<class P>
class port_list {
public:
    template<class V, class I> struct iter { I i; V& operator*() const { return **i; } iter& operator++() { ++i; return *this; } friend bool operator!=(iter a, iter b) { return a.i != b.i; } };
    explicit port_list(std::vector<std::unique_ptr<std::remove_const_t<P>>> const& v) : v_ { &v } {}
    bool empty() const { return v_->empty(); }
    std::size_t size() const { return v_->size(); }
    P& operator[](std::size_t i) const { return *v_->at(i); }
    P& front() const { return *v_->at(0); }
    auto begin() const { return iter<P, typename std::vector<std::unique_ptr<std::remove_const_t<P>>>::const_iterator> { v_->begin() }; }
    auto end() const { return iter<P, typename std::vector<std::unique_ptr<std::remove_const_t<P>>>::const_iterator> { v_->end() }; }
private:
    std::vector<std::unique_ptr<std::remove_const_t<P>>> const* v_;
};

class graph;
class expression {
public:
    using input_port_type = input_port;
    using output_port_type = output_port;
    expression(std::size_t in, std::size_t out) {
        for (std::size_t i = 0; i < in; ++i) { in_.push_back(std::make_unique<input_port>(*this, i)); }
        for (std::size_t i = 0; i < out; ++i) { out_.push_back(std::make_unique<output_port>(*this, i)); }
    }
    virtual ~expression() = default;
    expression(expression const&) = delete;
    expression& operator=(expression const&) = delete;
    virtual expression_kind kind() const noexcept = 0;
    virtual expression* clone() const& = 0;
    port_list<input_port> input_ports() noexcept { return port_list<input_port> { in_ }; }
    port_list<input_port const> input_ports() const noexcept { return port_list<input_port const> { in_ }; }
    port_list<output_port> output_ports() noexcept { return port_list<output_port> { out_ }; }
    port_list<output_port const> output_ports() const noexcept { return port_list<output_port const> { out_ }; }
    document::region& region() noexcept { return region_; }
    document::region const& region() const noexcept { return region_; }
    bool has_owner() const noexcept { return owner_ != nullptr; }
    util::optional_ptr<graph> optional_owner() noexcept { return util::optional_ptr<graph> { owner_ }; }
    friend std::ostream& operator<<(std::ostream& out, expression const& e) { return out << e.kind(); }
protected:
    std::vector<std::unique_ptr<input_port>> in_;
    std::vector<std::unique_ptr<output_port>> out_;
private:
    friend class graph;
    document::region region_ {};
    graph* owner_ {};
};
class graph {
    using store = std::vector<std::unique_ptr<expression>>;
    template<class V, class I> struct iter {
        using value_type = expression; using reference = V&; using pointer = V*; using difference_type = std::ptrdiff_t; using iterator_category = std::forward_iterator_tag;
        I i;
        V& operator*() const { return **i; }
        V* operator->() const { return i->get(); }
        iter& operator++() { ++i; return *this; }
        friend bool operator==(iter a, iter b) { return a.i == b.i; }
        friend bool operator!=(iter a, iter b) { return a.i != b.i; }
    };
public:
    using iterator = iter<expression, store::iterator>;
    using const_iterator = iter<expression const, store::const_iterator>;
    graph() = default;
    graph(graph&& o) noexcept : v_ { std::move(o.v_) } { adopt(); o.v_.clear(); }
    graph& operator=(graph&& o) noexcept { v_ = std::move(o.v_); o.v_.clear(); adopt(); return *this; }
    graph(graph const&) = delete;
    graph& operator=(graph const&) = delete;
    bool empty() const { return v_.empty(); }
    std::size_t size() const { return v_.size(); }
    iterator begin() { return { v_.begin() }; }
    iterator end() { return { v_.end() }; }
    const_iterator begin() const { return { v_.begin() }; }
    const_iterator end() const { return { v_.end() }; }
    template<class T, class = std::enable_if_t<std::is_base_of_v<expression, T>>>
    T& insert(std::unique_ptr<T> p) {
        auto& r = *p;
        r.owner_ = this;
        v_.push_back(std::move(p));
        return r;
    }
    template<class T, class = std::enable_if_t<std::is_base_of_v<expression, T>>>
    T& insert(T&& e) { return insert(std::unique_ptr<T> { e.copy() }); }
    template<class T, class... A>
    T& emplace(A&&... a) { return insert(std::make_unique<T>(std::forward<A>(a)...)); }
    bool contains(expression const& e) const { return std::any_of(v_.begin(), v_.end(), [&](auto& p) { return p.get() == &e; }); }
    bool erase(expression const& e) {
        auto i = std::find_if(v_.begin(), v_.end(), [&](auto& p) { return p.get() == &e; });
        if (i == v_.end()) { return false; }
        v_.erase(i);
        return true;
    }
    std::unique_ptr<expression> release(expression const& e) {
        auto i = std::find_if(v_.begin(), v_.end(), [&](auto& p) { return p.get() == &e; });
        if (i == v_.end()) { return {}; }
        auto r = std::move(*i);
        v_.erase(i);
        r->owner_ = nullptr;
        return r;
    }
    void clear() { v_.clear(); }
    friend void merge_into(graph const& source, graph& destination) {
        std::unordered_map<expression const*, expression*> map;
        for (auto& e : source) {
            std::unique_ptr<expression> c { e.clone() };
            c->region() = e.region();
            map.emplace(&e, c.get());
            destination.insert(std::move(c));
        }
        for (auto& e : source) {
            for (auto& p : e.output_ports()) {
                auto o = p.opposite();
                if (!o) { continue; }
                if (auto it = map.find(&o->owner()); it != map.end()) {
                    map.at(&e)->output_ports()[p.index()].connect_to(it->second->input_ports()[o->index()]);
                }
            }
        }
    }
    friend void merge_into(graph&& source, graph& destination) {
        for (auto& p : source.v_) { p->owner_ = &destination; destination.v_.push_back(std::move(p)); }
        source.v_.clear();
    }
    friend std::ostream& operator<<(std::ostream& out, graph const& g) {
        out << "graph(";
        for (auto& e : g) { out << e << ", "; }
        return out << ")";
    }
private:
    store v_;
    void adopt() { for (auto& p : v_) { p->owner_ = this; } }
};
void merge_into(graph const& source, graph& destination);
void merge_into(graph&& source, graph& destination);
using graph_type = graph;

template<class Self, expression_kind K, std::size_t I, std::size_t O>
class basic : public expression {
public:
    static constexpr expression_kind tag = K;
    basic() : expression(I, O) {}
    expression_kind kind() const noexcept final { return K; }
    expression* clone() const& final { return static_cast<Self const&>(*this).copy(); }
    template<std::size_t N = I, class = std::enable_if_t<N == 1>> input_port& input() { return *in_[0]; }
    template<std::size_t N = I, class = std::enable_if_t<N == 1>> input_port const& input() const { return *in_[0]; }
    template<std::size_t N = I, class = std::enable_if_t<N == 2>> input_port& left() { return *in_[0]; }
    template<std::size_t N = I, class = std::enable_if_t<N == 2>> input_port const& left() const { return *in_[0]; }
    template<std::size_t N = I, class = std::enable_if_t<N == 2>> input_port& right() { return *in_[1]; }
    template<std::size_t N = I, class = std::enable_if_t<N == 2>> input_port const& right() const { return *in_[1]; }
    template<std::size_t N = O, class = std::enable_if_t<N == 1>> output_port& output() { return *out_[0]; }
    template<std::size_t N = O, class = std::enable_if_t<N == 1>> output_port const& output() const { return *out_[0]; }
};

/// a mapping of variables
class mapping {
public:
    mapping(descriptor::variable s, descriptor::variable d) : s_ { std::move(s) }, d_ { std::move(d) } {}
    descriptor::variable& source() { return s_; }
    descriptor::variable const& source() const { return s_; }
    descriptor::variable& destination() { return d_; }
    descriptor::variable const& destination() const { return d_; }
    friend bool operator==(mapping const& a, mapping const& b) { return a.s_ == b.s_ && a.d_ == b.d_; }
    friend bool operator!=(mapping const& a, mapping const& b) { return !(a == b); }
    friend std::ostream& operator<<(std::ostream& out, mapping const& m) { return out << m.s_ << " -> " << m.d_; }
private:
    descriptor::variable s_, d_;
};
class sort_key {
public:
    sort_key(descriptor::variable v, sort_direction d = sort_direction::ascendant) : v_ { std::move(v) }, d_ { d } {}
    descriptor::variable& variable() { return v_; }
    descriptor::variable const& variable() const { return v_; }
    sort_direction direction() const { return d_; }
    friend bool operator==(sort_key const& a, sort_key const& b) { return a.v_ == b.v_ && a.d_ == b.d_; }
    friend bool operator!=(sort_key const& a, sort_key const& b) { return !(a == b); }
    friend std::ostream& operator<<(std::ostream& out, sort_key const& m) { return out << m.v_ << " " << m.d_; }
private:
    descriptor::variable v_;
    sort_direction d_;
};
/// scan/join key range
class endpoint_key {
public:
    endpoint_key(descriptor::variable v, scalar::slot s) : v_ { std::move(v) }, value_ { std::move(s) } {}
    friend bool operator==(endpoint_key const& a, endpoint_key const& b) { return a.v_ == b.v_ && a.value_ == b.value_; }
    friend std::ostream& operator<<(std::ostream& out, endpoint_key const& k) { return out << k.v_ << "=" << k.value_; }
    descriptor::variable const& variable() const { return v_; }
    SHIM_SLOT(value)
private:
    descriptor::variable v_;
    scalar::slot value_;
};
class endpoint {
public:
    using kind_type = endpoint_kind;
    endpoint() = default;
    endpoint_kind kind() const { return k_; }
    std::vector<endpoint_key>& keys() { return v_; }
    std::vector<endpoint_key> const& keys() const { return v_; }
    explicit operator bool() const { return k_ != endpoint_kind::unbound; }
    friend bool operator==(endpoint const& a, endpoint const& b) { return a.k_ == b.k_ && a.v_ == b.v_; }
    friend bool operator!=(endpoint const& a, endpoint const& b) { return !(a == b); }
    friend std::ostream& operator<<(std::ostream& out, endpoint const& e) { return out << e.k_ << util::vector_print_support { e.v_ }; }
private:
    endpoint_kind k_ { endpoint_kind::unbound };
    std::vector<endpoint_key> v_;
};

class scan : public basic<scan, expression_kind::scan, 0, 1> {
public:
    using column = mapping;
    using endpoint = relation::endpoint;
    scan(descriptor::relation s, std::vector<column> c, endpoint lo, endpoint hi, std::optional<std::size_t> limit = {})
        : s_ { std::move(s) }, c_ { std::move(c) }, lo_ { std::move(lo) }, hi_ { std::move(hi) }, limit_ { limit } {}
    descriptor::relation& source() { return s_; }
    descriptor::relation const& source() const { return s_; }
    std::vector<column>& columns() { return c_; }
    std::vector<column> const& columns() const { return c_; }
    endpoint const& lower() const { return lo_; }
    endpoint const& upper() const { return hi_; }
    std::optional<std::size_t> const& limit() const { return limit_; }
    scan* copy() const { return new scan(s_, c_, lo_, hi_, limit_); }
private:
    descriptor::relation s_;
    std::vector<column> c_;
    endpoint lo_, hi_;
    std::optional<std::size_t> limit_;
};
class values : public basic<values, expression_kind::values, 0, 1> {
public:
    using column = descriptor::variable;
    class row {
    public:
        explicit row(std::vector<std::unique_ptr<scalar::expression>> v) : e_ { std::move(v) } {}
        explicit row(util::reference_vector<scalar::expression> v) : e_ { std::move(v) } {}
        row(std::initializer_list<util::rvalue_reference_wrapper<scalar::expression>> a) { for (auto& e : a) { e_.push_back(util::clone_unique(e)); } }
        scalar::expression_list& elements() { return e_; }
        scalar::expression_list const& elements() const { return e_; }
        friend bool operator==(row const& a, row const& b) { return a.e_ == b.e_; }
        friend bool operator!=(row const& a, row const& b) { return !(a == b); }
        friend std::ostream& operator<<(std::ostream& out, row const& r) { return out << r.e_; }
    private:
        scalar::expression_list e_;
    };
    values(std::vector<column> c, std::vector<row> r) : c_ { std::move(c) }, r_ { std::move(r) } {}
    std::vector<column>& columns() { return c_; }
    std::vector<column> const& columns() const { return c_; }
    std::vector<row>& rows() { return r_; }
    std::vector<row> const& rows() const { return r_; }
    values* copy() const { return new values(c_, r_); }
private:
    std::vector<column> c_;
    std::vector<row> r_;
};
class project : public basic<project, expression_kind::project, 1, 1> {
public:
    class column {
    public:
        column(descriptor::variable v, std::unique_ptr<scalar::expression> e) : v_ { std::move(v) }, value_ { std::move(e) } {}
        column(std::unique_ptr<scalar::expression> e, descriptor::variable v) : v_ { std::move(v) }, value_ { std::move(e) } {}
        column(descriptor::variable v, scalar::expression&& e) : v_ { std::move(v) }, value_ { std::move(e) } {}
        descriptor::variable& variable() { return v_; }
        descriptor::variable const& variable() const { return v_; }
        SHIM_SLOT(value)
        friend bool operator==(column const& a, column const& b) { return a.v_ == b.v_ && a.value_ == b.value_; }
        friend std::ostream& operator<<(std::ostream& out, column const& c) { return out << c.v_ << " = " << c.value_; }
    private:
        descriptor::variable v_;
        scalar::slot value_;
    };
    explicit project(std::vector<column> c) : c_ { std::move(c) } {}
    std::vector<column>& columns() { return c_; }
    std::vector<column> const& columns() const { return c_; }
    project* copy() const { return new project(c_); }
private:
    std::vector<column> c_;
};
class filter : public basic<filter, expression_kind::filter, 1, 1> {
public:
    explicit filter(scalar::slot e) : condition_ { std::move(e) } {}
    SHIM_SLOT(condition)
    filter* copy() const { return new filter(condition_); }
private:
    scalar::slot condition_;
};
class emit : public basic<emit, expression_kind::emit, 1, 0> {
public:
    class column {
    public:
        column(descriptor::variable s, std::optional<std::string> n = {}) : s_ { std::move(s) }, n_ { std::move(n) } {}
        descriptor::variable& source() { return s_; }
        descriptor::variable const& source() const { return s_; }
        std::optional<std::string> const& name() const { return n_; }
        friend bool operator==(column const& a, column const& b) { return a.s_ == b.s_ && a.n_ == b.n_; }
        friend bool operator!=(column const& a, column const& b) { return !(a == b); }
        friend std::ostream& operator<<(std::ostream& out, column const& c) { return out << c.s_ << " AS " << util::optional_print_support { c.n_ }; }
    private:
        descriptor::variable s_;
        std::optional<std::string> n_;
    };
    explicit emit(std::vector<column> c) : c_ { std::move(c) } {}
    std::vector<column>& columns() { return c_; }
    std::vector<column> const& columns() const { return c_; }
    emit* copy() const { return new emit(c_); }
private:
    std::vector<column> c_;
};
class write : public basic<write, expression_kind::write, 1, 0> {
public:
    using key = mapping;
    using column = mapping;
    using operator_kind_type = write_kind;
    write(write_kind k, descriptor::storage d, std::vector<key> keys, std::vector<column> c)
        : k_ { k }, d_ { std::move(d) }, keys_ { std::move(keys) }, c_ { std::move(c) } {}
    write_kind operator_kind() const { return k_; }
    descriptor::storage& destination() { return d_; }
    descriptor::storage const& destination() const { return d_; }
    std::vector<key>& keys() { return keys_; }
    std::vector<key> const& keys() const { return keys_; }
    std::vector<column>& columns() { return c_; }
    std::vector<column> const& columns() const { return c_; }
    write* copy() const { return new write(k_, d_, keys_, c_); }
private:
    write_kind k_;
    descriptor::storage d_;
    std::vector<key> keys_;
    std::vector<column> c_;
};
class apply : public basic<apply, expression_kind::apply, 1, 1> {
public:
    class column_type {
    public:
        column_type(std::size_t p, descriptor::variable v) : p_ { p }, v_ { std::move(v) } {}
        std::size_t position() const { return p_; }
        descriptor::variable& variable() { return v_; }
        descriptor::variable const& variable() const { return v_; }
        friend std::ostream& operator<<(std::ostream& out, column_type const& c) { return out << c.p_ << ": " << c.v_; }
    private:
        std::size_t p_;
        descriptor::variable v_;
    };
    using column = column_type;
    apply(apply_kind k, descriptor::function f, util::reference_vector<scalar::expression> a, std::vector<column_type> c)
        : k_ { k }, f_ { std::move(f) }, a_ { std::move(a) }, c_ { std::move(c) } {}
    apply(apply_kind k, descriptor::function f, scalar::expression_list a, std::vector<column_type> c, int)
        : k_ { k }, f_ { std::move(f) }, a_ { std::move(a) }, c_ { std::move(c) } {}
    apply_kind operator_kind() const { return k_; }
    descriptor::function& function() { return f_; }
    descriptor::function const& function() const { return f_; }
    scalar::expression_list& arguments() { return a_; }
    scalar::expression_list const& arguments() const { return a_; }
    std::vector<column_type>& columns() { return c_; }
    std::vector<column_type> const& columns() const { return c_; }
    apply* copy() const { return new apply(k_, f_, a_, c_, 0); }
private:
    apply_kind k_;
    descriptor::function f_;
    scalar::expression_list a_;
    std::vector<column_type> c_;
};
namespace intermediate {
class join : public basic<join, expression_kind::intermediate_join, 2, 1> {
public:
    using operator_kind_type = join_kind;
    using endpoint = relation::endpoint;
    explicit join(join_kind k, std::unique_ptr<scalar::expression> c = {}) : k_ { k }, condition_ { std::move(c) } {}
    join_kind operator_kind() const { return k_; }
    endpoint const& lower() const { return e_; }
    endpoint const& upper() const { return e_; }
    util::optional_ptr<scalar::expression> condition() { return condition_.opt(); }
    util::optional_ptr<scalar::expression const> condition() const { return condition_.opt(); }
    util::ownership_reference<scalar::expression> ownership_condition() { return condition_.own(); }
    std::unique_ptr<scalar::expression> release_condition() { return condition_.release(); }
    join& condition(std::unique_ptr<scalar::expression> e) { condition_ = scalar::slot { std::move(e) }; return *this; }
    join* copy() const { return new join(k_, util::clone_unique(const_cast<scalar::slot&>(condition_).raw())); }
private:
    join_kind k_;
    endpoint e_;
    scalar::slot condition_;
};
class aggregate : public basic<aggregate, expression_kind::intermediate_aggregate, 1, 1> {
public:
    class column {
    public:
        column(descriptor::aggregate_function f, std::vector<descriptor::variable> a, descriptor::variable d)
            : f_ { std::move(f) }, a_ { std::move(a) }, d_ { std::move(d) } {}
        descriptor::aggregate_function& function() { return f_; }
        descriptor::aggregate_function const& function() const { return f_; }
        std::vector<descriptor::variable>& arguments() { return a_; }
        std::vector<descriptor::variable> const& arguments() const { return a_; }
        descriptor::variable& destination() { return d_; }
        descriptor::variable const& destination() const { return d_; }
    private:
        descriptor::aggregate_function f_;
        std::vector<descriptor::variable> a_;
        descriptor::variable d_;
    };
    aggregate(std::vector<descriptor::variable> k, std::vector<column> c) : k_ { std::move(k) }, c_ { std::move(c) } {}
    std::vector<descriptor::variable>& group_keys() { return k_; }
    std::vector<descriptor::variable> const& group_keys() const { return k_; }
    std::vector<column>& columns() { return c_; }
    std::vector<column> const& columns() const { return c_; }
    aggregate* copy() const { return new aggregate(k_, c_); }
private:
    std::vector<descriptor::variable> k_;
    std::vector<column> c_;
};
class distinct : public basic<distinct, expression_kind::intermediate_distinct, 1, 1> {
public:
    explicit distinct(std::vector<descriptor::variable> k) : k_ { std::move(k) } {}
    std::vector<descriptor::variable>& group_keys() { return k_; }
    std::vector<descriptor::variable> const& group_keys() const { return k_; }
    distinct* copy() const { return new distinct(k_); }
private:
    std::vector<descriptor::variable> k_;
};
class limit : public basic<limit, expression_kind::intermediate_limit, 1, 1> {
public:
    using sort_key = relation::sort_key;
    limit(std::optional<std::size_t> n, std::vector<descriptor::variable> k, std::vector<sort_key> s) : n_ { n }, k_ { std::move(k) }, s_ { std::move(s) } {}
    std::optional<std::size_t> const& count() const { return n_; }
    limit& count(std::optional<std::size_t> n) { n_ = n; return *this; }
    std::vector<descriptor::variable>& group_keys() { return k_; }
    std::vector<descriptor::variable> const& group_keys() const { return k_; }
    std::vector<sort_key>& sort_keys() { return s_; }
    std::vector<sort_key> const& sort_keys() const { return s_; }
    limit* copy() const { return new limit(n_, k_, s_); }
private:
    std::optional<std::size_t> n_;
    std::vector<descriptor::variable> k_;
    std::vector<sort_key> s_;
};
class union_ : public basic<union_, expression_kind::intermediate_union, 2, 1> {
public:
    class mapping {
    public:
        mapping(std::optional<descriptor::variable> l, std::optional<descriptor::variable> r, descriptor::variable d)
            : l_ { std::move(l) }, r_ { std::move(r) }, d_ { std::move(d) } {}
        std::optional<descriptor::variable> const& left() const { return l_; }
        std::optional<descriptor::variable> const& right() const { return r_; }
        descriptor::variable const& destination() const { return d_; }
        friend bool operator==(mapping const& a, mapping const& b) { return a.l_ == b.l_ && a.r_ == b.r_ && a.d_ == b.d_; }
        friend std::ostream& operator<<(std::ostream& out, mapping const& m) { return out << "mapping(" << m.d_ << ")"; }
    private:
        std::optional<descriptor::variable> l_, r_;
        descriptor::variable d_;
    };
    union_(set_quantifier q, std::vector<mapping> m) : q_ { q }, m_ { std::move(m) } {}
    set_quantifier quantifier() const { return q_; }
    std::vector<mapping>& mappings() { return m_; }
    std::vector<mapping> const& mappings() const { return m_; }
    union_* copy() const { return new union_(q_, m_); }
private:
    set_quantifier q_;
    std::vector<mapping> m_;
};
class set_mapping {
public:
    set_mapping(descriptor::variable l, descriptor::variable r) : l_ { std::move(l) }, r_ { std::move(r) } {}
    descriptor::variable const& left() const { return l_; }
    descriptor::variable const& right() const { return r_; }
    friend bool operator==(set_mapping const& a, set_mapping const& b) { return a.l_ == b.l_ && a.r_ == b.r_; }
    friend std::ostream& operator<<(std::ostream& out, set_mapping const& m) { return out << "(" << m.l_ << ", " << m.r_ << ")"; }
private:
    descriptor::variable l_, r_;
};
template<class Self, expression_kind K>
class setop : public basic<Self, K, 2, 1> {
public:
    using mapping = set_mapping;
    using group_key_pair = set_mapping;
    setop(set_quantifier q, std::vector<mapping> m) : q_ { q }, m_ { std::move(m) } {}
    set_quantifier quantifier() const { return q_; }
    std::vector<mapping>& mappings() { return m_; }
    std::vector<mapping> const& mappings() const { return m_; }
    std::vector<mapping> const& group_key_pairs() const { return m_; }
    Self* copy() const { return new Self(q_, m_); }
private:
    set_quantifier q_;
    std::vector<mapping> m_;
};
class intersection : public setop<intersection, expression_kind::intermediate_intersection> { public: using setop::setop; };
class difference : public setop<difference, expression_kind::intermediate_difference> { public: using setop::setop; };
class extension : public expression {
public:
    static constexpr expression_kind tag = expression_kind::intermediate_extension;
    using extension_id_type = std::size_t;
    using expression::expression;
    expression_kind kind() const noexcept final { return tag; }
    virtual extension_id_type extension_id() const noexcept = 0;
};
} // namespace intermediate
} // namespace takatori::relation
