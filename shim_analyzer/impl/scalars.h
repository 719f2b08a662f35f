#pragma once
#include <cstdint>
#include <map>
#include <new>
#include <utility>
#include <vector>
#if defined(__SANITIZE_ADDRESS__)
#define SHIM_ASAN 1
#elif defined(__has_feature)
#if __has_feature(address_sanitizer)
#define SHIM_ASAN 1
#endif
#endif
#ifdef SHIM_ASAN
#include <sanitizer/asan_interface.h>
#define SHIM_POISON(p, n) ASAN_POISON_MEMORY_REGION(p, n)
#define SHIM_UNPOISON(p, n) ASAN_UNPOISON_MEMORY_REGION(p, n)
#else
#define SHIM_POISON(p, n) (void) 0
#define SHIM_UNPOISON(p, n) (void) 0
#endif
#include "util.h"
#include "types.h"
#include "values.h"
#include "descriptors.h"
namespace takatori::scalar {
enum class expression_kind { immediate, variable_reference, unary, cast, binary, compare, match, conditional, coalesce, let, function_call, extension };
inline std::string_view to_string_view(expression_kind k) {
    static constexpr std::string_view n[] { "immediate", "variable_reference", "unary", "cast", "binary", "compare", "match", "conditional", "coalesce", "let", "function_call", "extension" };
    return n[static_cast<int>(k)];
}
inline std::ostream& operator<<(std::ostream& out, expression_kind k) { return out << to_string_view(k); }
#define SHIM_ENUM(name, ...) \
    enum class name { __VA_ARGS__ }; \
    inline std::string to_string_view(name v) { \
        std::string all = #__VA_ARGS__; int n = static_cast<int>(v); std::size_t p = 0; \
        while (n-- > 0) { p = all.find(',', p) + 1; } \
        auto q = all.find(',', p); auto s = all.substr(p, q == std::string::npos ? q : q - p); \
        while (!s.empty() && s[0] == ' ') { s.erase(0, 1); } \
        while (!s.empty() && s.back() == '_') { s.pop_back(); } return s; } \
    inline std::ostream& operator<<(std::ostream& out, name v) { return out << to_string_view(v); }
SHIM_ENUM(unary_operator, plus, sign_inversion, conditional_not, length, is_null, is_true, is_false, is_unknown)
SHIM_ENUM(binary_operator, concat, add, subtract, multiply, divide, remainder, conditional_and, conditional_or)
SHIM_ENUM(comparison_operator, equal, not_equal, less, less_equal, greater, greater_equal)
SHIM_ENUM(match_operator, like, similar)
SHIM_ENUM(cast_loss_policy, ignore, floor, ceil, unknown, warn, error, implicit)
SHIM_ENUM(quantifier, all, any)

/// Storage of expressions. What the analyzer remembers about expressions is keyed by their address, so that a result may
/// depend on which addresses are used again: the harness can ask for addresses to be used again as early as possible.
struct address_reuse {
    enum class mode { off, last, random };
    static mode& current() { static thread_local mode m { mode::off }; return m; }
    static std::size_t& reused() { static thread_local std::size_t n { 0 }; return n; }
    static void* get(std::size_t size) {
        auto& f = free_list()[size];
        if (current() == mode::off || f.empty()) { return ::operator new(size); }
        if (current() == mode::random) {
            static thread_local std::uint32_t r { 12345 };
            r = r * 1664525U + 1013904223U;
            std::swap(f[(r >> 8U) % f.size()], f.back());
        }
        auto* p = f.back();
        f.pop_back();
        ++reused();
        SHIM_UNPOISON(p, size);
        return p;
    }
    static void put(void* p, std::size_t size) {
        if (current() == mode::off) { ::operator delete(p); return; }
        free_list()[size].push_back(p);
        SHIM_POISON(p, size);
    }
    /// changes the mode and returns all storage
    static void set(mode m) {
        for (auto& [size, f] : free_list()) {
            for (auto* p : f) {
                SHIM_UNPOISON(p, size);
                ::operator delete(p);
            }
        }
        free_list().clear();
        current() = m;
    }
private:
    static std::map<std::size_t, std::vector<void*>>& free_list() { static thread_local std::map<std::size_t, std::vector<void*>> m; return m; }
};

class expression {
public:
    static void* operator new(std::size_t size) { return address_reuse::get(size); }
    static void* operator new(std::size_t, void* p) noexcept { return p; }
    static void operator delete(void* p, std::size_t size) { address_reuse::put(p, size); }
    static void operator delete(void*, void*) noexcept {}
    expression() = default;
    virtual ~expression() = default;
    virtual expression_kind kind() const noexcept = 0;
    virtual expression* clone() const& = 0;
    virtual expression* clone() && = 0;
    document::region& region() noexcept { return region_; }
    document::region const& region() const noexcept { return region_; }
    friend bool operator==(expression const& a, expression const& b) { return a.kind() == b.kind() && a.equals(b); }
    friend bool operator!=(expression const& a, expression const& b) { return !(a == b); }
    friend std::ostream& operator<<(std::ostream& out, expression const& v) { return v.print(out); }
    virtual std::ostream& print(std::ostream& out) const = 0;
protected:
    expression(expression const&) = default;
    expression(expression&&) = default;
    expression& operator=(expression const&) = default;
    expression& operator=(expression&&) = default;
    virtual bool equals(expression const&) const = 0;
private:
    document::region region_ {};
};
/// an owned operand
class slot {
public:
    slot() = default;
    template<class U, class = std::enable_if_t<std::is_convertible_v<U*, expression*>>>
    slot(std::unique_ptr<U> p) : p_ { std::move(p) } {}
    slot(std::nullptr_t) {}
    slot(expression&& e) : p_ { util::clone_unique(std::move(e)) } {}
    slot(slot const& o) : p_ { util::clone_unique(o.p_) } {}
    slot(slot&&) noexcept = default;
    slot& operator=(slot&&) noexcept = default;
    slot& operator=(slot const& o) { p_ = util::clone_unique(o.p_); return *this; }
    expression& get() { return *p_; }
    expression const& get() const { return *p_; }
    util::optional_ptr<expression> opt() { return util::optional_ptr<expression> { p_.get() }; }
    util::optional_ptr<expression const> opt() const { return util::optional_ptr<expression const> { p_.get() }; }
    std::unique_ptr<expression>& raw() { return p_; }
    bool has() const { return static_cast<bool>(p_); }
    util::ownership_reference<expression> own() { return util::ownership_reference<expression> { p_ }; }
    std::unique_ptr<expression> release() { return std::move(p_); }
    friend bool operator==(slot const& a, slot const& b) {
        if (!a.p_ || !b.p_) { return !a.p_ && !b.p_; }
        return *a.p_ == *b.p_;
    }
    friend std::ostream& operator<<(std::ostream& out, slot const& s) { if (s.p_) { return out << *s.p_; } return out << "()"; }
private:
    std::unique_ptr<expression> p_;
};
#define SHIM_SLOT(name) \
    ::takatori::scalar::expression& name() { return name##_.get(); } \
    ::takatori::scalar::expression const& name() const { return name##_.get(); } \
    ::takatori::util::optional_ptr<::takatori::scalar::expression> optional_##name() { return name##_.opt(); } \
    ::takatori::util::optional_ptr<::takatori::scalar::expression const> optional_##name() const { return name##_.opt(); } \
    ::takatori::util::ownership_reference<::takatori::scalar::expression> ownership_##name() { return name##_.own(); } \
    std::unique_ptr<::takatori::scalar::expression> release_##name() { return name##_.release(); }

/// list of expressions
class expression_list : public std::vector<slot> {
    using base = std::vector<slot>;
    template<class V, class I> struct iter {
        using value_type = expression; using reference = V&; using pointer = V*; using difference_type = std::ptrdiff_t;
        using iterator_category = std::random_access_iterator_tag;
        I i {};
        V& operator*() const { return i->get(); }
        V* operator->() const { return &i->get(); }
        iter& operator++() { ++i; return *this; }
        friend iter operator+(iter a, difference_type n) { a.i += n; return a; }
        friend difference_type operator-(iter a, iter b) { return a.i - b.i; }
        friend bool operator==(iter a, iter b) { return a.i == b.i; }
        friend bool operator!=(iter a, iter b) { return a.i != b.i; }
    };
public:
    using iterator = iter<expression, base::iterator>;
    using const_iterator = iter<expression const, base::const_iterator>;
    expression_list() = default;
    expression_list(std::vector<std::unique_ptr<expression>> v) { for (auto& e : v) { base::emplace_back(std::move(e)); } }
    expression_list(util::reference_vector<expression> v) { for (auto& e : v.take()) { base::emplace_back(std::move(e)); } }
    expression_list(std::initializer_list<util::rvalue_ptr<expression>> v) { for (auto& e : v) { base::emplace_back(util::clone_unique(e)); } }
    expression& operator[](std::size_t i) { return base::at(i).get(); }
    expression const& operator[](std::size_t i) const { return base::at(i).get(); }
    expression& front() { return base::at(0).get(); }
    expression const& front() const { return base::at(0).get(); }
    expression& back() { return base::at(size() - 1).get(); }
    iterator begin() { return { base::begin() }; }
    iterator end() { return { base::end() }; }
    const_iterator begin() const { return { base::begin() }; }
    const_iterator end() const { return { base::end() }; }
    void push_back(std::unique_ptr<expression> p) { base::emplace_back(std::move(p)); }
    util::ownership_reference<expression> ownership(iterator it) { return it.i->own(); }
    util::ownership_reference<expression> ownership(std::size_t i) { return base::at(i).own(); }
    std::vector<std::unique_ptr<expression>> release_elements() {
        std::vector<std::unique_ptr<expression>> r;
        for (std::size_t i = 0; i < size(); ++i) { r.push_back(base::at(i).release()); }
        base::clear();
        return r;
    }
    friend bool operator==(expression_list const& a, expression_list const& b) { return static_cast<base const&>(a) == static_cast<base const&>(b); }
    friend std::ostream& operator<<(std::ostream& out, expression_list const& v) {
        out << "["; bool f = true;
        for (auto& e : v) { if (!f) { out << ", "; } f = false; out << e; }
        return out << "]";
    }
};

template<class Self, expression_kind K>
class basic : public expression {
public:
    static constexpr expression_kind tag = K;
    expression_kind kind() const noexcept final { return K; }
    expression* clone() const& final { return new Self(static_cast<Self const&>(*this)); }
    expression* clone() && final { return new Self(std::move(static_cast<Self&>(*this))); }
protected:
    bool equals(expression const& o) const final { return static_cast<Self const&>(*this).eq(static_cast<Self const&>(o)); }
};
class immediate : public basic<immediate, expression_kind::immediate> {
public:
    immediate(std::shared_ptr<value::data const> v, std::shared_ptr<type::data const> t) : v_ { std::move(v) }, t_ { std::move(t) } {}
    immediate(value::data&& v, type::data&& t) : v_ { util::clone_shared(std::move(v)) }, t_ { util::clone_shared(std::move(t)) } {}
    value::data const& value() const { return *v_; }
    type::data const& type() const { return *t_; }
    std::shared_ptr<value::data const> shared_value() const { return v_; }
    std::shared_ptr<type::data const> shared_type() const { return t_; }
    bool eq(immediate const& o) const { return *v_ == *o.v_ && *t_ == *o.t_; }
    std::ostream& print(std::ostream& out) const override { return out << "immediate(" << *v_ << ", " << *t_ << ")"; }
private:
    std::shared_ptr<value::data const> v_;
    std::shared_ptr<type::data const> t_;
};
class variable_reference : public basic<variable_reference, expression_kind::variable_reference> {
public:
    explicit variable_reference(descriptor::variable v) : v_ { std::move(v) } {}
    descriptor::variable& variable() { return v_; }
    descriptor::variable const& variable() const { return v_; }
    bool eq(variable_reference const& o) const { return v_ == o.v_; }
    std::ostream& print(std::ostream& out) const override { return out << "variable_reference(" << v_ << ")"; }
private:
    descriptor::variable v_;
};
class unary : public basic<unary, expression_kind::unary> {
public:
    using operator_kind_type = unary_operator;
    unary(unary_operator k, slot operand) : k_ { k }, operand_ { std::move(operand) } {}
    unary_operator operator_kind() const { return k_; }
    SHIM_SLOT(operand)
    bool eq(unary const& o) const { return k_ == o.k_ && operand_ == o.operand_; }
    std::ostream& print(std::ostream& out) const override { return out << "unary(" << k_ << ", " << operand_ << ")"; }
private:
    unary_operator k_;
    slot operand_;
};
class cast : public basic<cast, expression_kind::cast> {
public:
    using loss_policy_type = cast_loss_policy;
    cast(std::shared_ptr<type::data const> t, cast_loss_policy p, slot operand) : t_ { std::move(t) }, p_ { p }, operand_ { std::move(operand) } {}
    cast(type::data&& t, cast_loss_policy p, slot operand) : t_ { util::clone_shared(std::move(t)) }, p_ { p }, operand_ { std::move(operand) } {}
    type::data const& type() const { return *t_; }
    std::shared_ptr<type::data const> shared_type() const { return t_; }
    cast_loss_policy loss_policy() const { return p_; }
    SHIM_SLOT(operand)
    bool eq(cast const& o) const { return *t_ == *o.t_ && p_ == o.p_ && operand_ == o.operand_; }
    std::ostream& print(std::ostream& out) const override { return out << "cast(" << *t_ << ", " << p_ << ", " << operand_ << ")"; }
private:
    std::shared_ptr<type::data const> t_;
    cast_loss_policy p_;
    slot operand_;
};
#define SHIM_BINARY(name, optype) \
class name : public basic<name, expression_kind::name> { \
public: \
    using operator_kind_type = optype; \
    name(optype k, slot left, slot right) : k_ { k }, left_ { std::move(left) }, right_ { std::move(right) } {} \
    optype operator_kind() const { return k_; } \
    SHIM_SLOT(left) \
    SHIM_SLOT(right) \
    bool eq(name const& o) const { return k_ == o.k_ && left_ == o.left_ && right_ == o.right_; } \
    std::ostream& print(std::ostream& out) const override { return out << #name "(" << k_ << ", " << left_ << ", " << right_ << ")"; } \
private: \
    optype k_; \
    slot left_; \
    slot right_; \
};
SHIM_BINARY(binary, binary_operator)
SHIM_BINARY(compare, comparison_operator)
class match : public basic<match, expression_kind::match> {
public:
    match(match_operator k, slot i, slot p, slot e) : k_ { k }, input_ { std::move(i) }, pattern_ { std::move(p) }, escape_ { std::move(e) } {}
    match_operator operator_kind() const { return k_; }
    SHIM_SLOT(input)
    SHIM_SLOT(pattern)
    SHIM_SLOT(escape)
    bool eq(match const& o) const { return k_ == o.k_ && input_ == o.input_ && pattern_ == o.pattern_ && escape_ == o.escape_; }
    std::ostream& print(std::ostream& out) const override { return out << "match(" << k_ << ", " << input_ << ", " << pattern_ << ", " << escape_ << ")"; }
private:
    match_operator k_;
    slot input_, pattern_, escape_;
};
class conditional : public basic<conditional, expression_kind::conditional> {
public:
    class alternative {
    public:
        alternative(slot c, slot b) : condition_ { std::move(c) }, body_ { std::move(b) } {}
        SHIM_SLOT(condition)
        SHIM_SLOT(body)
        friend bool operator==(alternative const& a, alternative const& b) { return a.condition_ == b.condition_ && a.body_ == b.body_; }
        friend std::ostream& operator<<(std::ostream& out, alternative const& a) { return out << "(" << a.condition_ << " -> " << a.body_ << ")"; }
    private:
        slot condition_, body_;
    };
    explicit conditional(std::vector<alternative> a, std::unique_ptr<expression> d = {}) : a_ { std::move(a) }, default_expression_ { std::move(d) } {}
    conditional(std::initializer_list<util::rvalue_reference_wrapper<alternative>> a, util::rvalue_ptr<expression> d = {}) : default_expression_ { util::clone_unique(d) } {
        for (auto& e : a) { a_.emplace_back(e.get()); }
    }
    std::vector<alternative>& alternatives() { return a_; }
    std::vector<alternative> const& alternatives() const { return a_; }
    util::optional_ptr<expression> default_expression() { return default_expression_.opt(); }
    util::optional_ptr<expression const> default_expression() const { return default_expression_.opt(); }
    util::ownership_reference<expression> ownership_default_expression() { return default_expression_.own(); }
    bool eq(conditional const& o) const { return a_ == o.a_ && default_expression_ == o.default_expression_; }
    std::ostream& print(std::ostream& out) const override {
        return out << "conditional(" << util::vector_print_support { a_ } << ", default=" << default_expression_ << ")";
    }
private:
    std::vector<alternative> a_;
    slot default_expression_;
};
class coalesce : public basic<coalesce, expression_kind::coalesce> {
public:
    explicit coalesce(util::reference_vector<expression> a) : a_ { std::move(a) } {}
    coalesce(std::initializer_list<util::rvalue_reference_wrapper<expression>> a) { for (auto& e : a) { a_.push_back(util::clone_unique(e)); } }
    expression_list& alternatives() { return a_; }
    expression_list const& alternatives() const { return a_; }
    bool eq(coalesce const& o) const { return a_ == o.a_; }
    std::ostream& print(std::ostream& out) const override { return out << "coalesce(" << a_ << ")"; }
private:
    expression_list a_;
};
class let_variable {
public:
    let_variable(descriptor::variable v, slot e) : v_ { std::move(v) }, value_ { std::move(e) } {}
    descriptor::variable& variable() { return v_; }
    descriptor::variable const& variable() const { return v_; }
    SHIM_SLOT(value)
    friend bool operator==(let_variable const& a, let_variable const& b) { return a.v_ == b.v_ && a.value_ == b.value_; }
    friend std::ostream& operator<<(std::ostream& out, let_variable const& a) { return out << "(" << a.v_ << ": " << a.value_ << ")"; }
private:
    descriptor::variable v_;
    slot value_;
};
class let : public basic<let, expression_kind::let> {
public:
    using variable = let_variable;
    let(std::vector<variable> v, slot body) : v_ { std::move(v) }, body_ { std::move(body) } {}
    let(variable&& v, expression&& body) : body_ { std::move(body) } { v_.push_back(std::move(v)); }
    let(std::initializer_list<util::rvalue_reference_wrapper<variable>> v, expression&& body) : body_ { std::move(body) } {
        for (auto& e : v) { v_.emplace_back(e.get()); }
    }
    std::vector<variable>& variables() { return v_; }
    std::vector<variable> const& variables() const { return v_; }
    SHIM_SLOT(body)
    bool eq(let const& o) const { return v_ == o.v_ && body_ == o.body_; }
    std::ostream& print(std::ostream& out) const override { return out << "let(" << util::vector_print_support { v_ } << ", " << body_ << ")"; }
private:
    std::vector<variable> v_;
    slot body_;
};
class function_call : public basic<function_call, expression_kind::function_call> {
public:
    function_call(descriptor::function f, util::reference_vector<expression> a) : f_ { std::move(f) }, a_ { std::move(a) } {}
    function_call(descriptor::function f, std::initializer_list<util::rvalue_reference_wrapper<expression>> a) : f_ { std::move(f) } {
        for (auto& e : a) { a_.push_back(util::clone_unique(e)); }
    }
    descriptor::function& function() { return f_; }
    descriptor::function const& function() const { return f_; }
    expression_list& arguments() { return a_; }
    expression_list const& arguments() const { return a_; }
    bool eq(function_call const& o) const { return f_ == o.f_ && a_ == o.a_; }
    std::ostream& print(std::ostream& out) const override { return out << "function_call(" << f_ << ", " << a_ << ")"; }
private:
    descriptor::function f_;
    expression_list a_;
};
class extension : public expression {
public:
    static constexpr expression_kind tag = expression_kind::extension;
    using extension_id_type = std::size_t;
    expression_kind kind() const noexcept final { return tag; }
    virtual extension_id_type extension_id() const noexcept = 0;
protected:
    virtual bool ext_equals(extension const&) const = 0;
    bool equals(expression const& o) const final {
        auto& x = static_cast<extension const&>(o);
        return extension_id() == x.extension_id() && ext_equals(x);
    }
};
template<class C, class E, class... A>
decltype(auto) dispatch(C&& c, E& e, A&&... a) {
    using k = expression_kind;
    constexpr bool is_const = std::is_const_v<E>;
#define SHIM_CASE(name) case k::name: { using T = std::conditional_t<is_const, name const, name>; \
    if constexpr (std::is_invocable_v<C&, T&, A...>) { return c(static_cast<T&>(e), std::forward<A>(a)...); } \
    else { return c(e, std::forward<A>(a)...); } }
    switch (e.kind()) {
        SHIM_CASE(immediate)
        SHIM_CASE(variable_reference)
        SHIM_CASE(unary)
        SHIM_CASE(cast)
        SHIM_CASE(binary)
        SHIM_CASE(compare)
        SHIM_CASE(match)
        SHIM_CASE(conditional)
        SHIM_CASE(coalesce)
        SHIM_CASE(let)
        SHIM_CASE(function_call)
        SHIM_CASE(extension)
    }
#undef SHIM_CASE
    std::abort();
}
/// visits expressions in pre-order: descends unless the callback returns false
template<class C, class E>
void walk(C&& c, E& e) {
    auto call = [&](auto& x) -> bool {
        using T = std::remove_reference_t<decltype(x)>;
        if constexpr (std::is_same_v<std::invoke_result_t<C&, T&>, void>) { c(x); return true; } else { return c(x); }
    };
    if (!dispatch(call, e)) { return; }
    auto sub = [&](auto& x) {
        using T = std::remove_const_t<std::remove_reference_t<decltype(x)>>;
        if constexpr (std::is_same_v<T, unary> || std::is_same_v<T, cast>) { walk(c, x.operand()); }
        else if constexpr (std::is_same_v<T, binary> || std::is_same_v<T, compare>) { walk(c, x.left()); walk(c, x.right()); }
        else if constexpr (std::is_same_v<T, match>) { walk(c, x.input()); walk(c, x.pattern()); walk(c, x.escape()); }
        else if constexpr (std::is_same_v<T, conditional>) {
            for (auto& a : x.alternatives()) { walk(c, a.condition()); walk(c, a.body()); }
            if (x.default_expression()) { walk(c, *x.default_expression()); }
        }
        else if constexpr (std::is_same_v<T, coalesce>) { for (auto& a : x.alternatives()) { walk(c, a); } }
        else if constexpr (std::is_same_v<T, let>) { for (auto& a : x.variables()) { walk(c, a.value()); } walk(c, x.body()); }
        else if constexpr (std::is_same_v<T, function_call>) { for (auto& a : x.arguments()) { walk(c, a); } }
        else { (void) x; }
    };
    dispatch(sub, e);
}
} // namespace takatori::scalar
