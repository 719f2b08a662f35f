#pragma once
// Independent AST dumper: walks a tree only through its public const accessors.
// Produces three parallel streams: structure (no regions), regions, and description-comment regions.
#include <cstdio>
#include <cstdlib>
#include <map>
#include <optional>
#include <string>
#include <string_view>
#include <typeindex>
#include <typeinfo>
#include "ast_includes.h"

namespace vdump {
namespace ast = ::mizugaki::ast;

// ---- enum names taken from the compiler (not from the project's to_string_view tables)
template<auto V> constexpr std::string_view raw_name() { return __PRETTY_FUNCTION__; }
template<auto V> constexpr std::string_view enum_name_c() {
    std::string_view s = raw_name<V>();      // "... [V = ns::kind::name]" or "... [V = (ns::kind)17]"
    auto b = s.rfind(']');
    s = s.substr(0, b);
    if (s.back() >= '0' && s.back() <= '9' && s.rfind(')') != s.npos && s.rfind(')') > s.rfind("V = ")) return {};
    auto c = s.rfind(':');
    return s.substr(c + 1);
}
template<class E, std::size_t... I> constexpr auto enum_tab(std::index_sequence<I...>) {
    return std::array<std::string_view, sizeof...(I)> { enum_name_c<static_cast<E>(I)>()... };
}
template<class E> std::string enum_name(E e) {
    static constexpr auto tab = enum_tab<E>(std::make_index_sequence<40>());
    auto v = static_cast<std::size_t>(e);
    if (v < tab.size() && !tab[v].empty()) return std::string(tab[v]);
    return "<bad-enum:" + std::to_string(v) + ">";
}

struct D {
    std::string s;   // structure
    std::string r;   // regions "b-e" space separated
    std::string d;   // descriptions
    std::size_t nodes = 0;
    std::size_t elems = 0;
    bool full = false; // qualified class names, and extents of descriptions in the structure
    void reg(ast::node_region const& x) {
        if (!x) { r += "~ "; return; }
        r += std::to_string(x.begin); r += '-'; r += std::to_string(x.end); r += ' ';
    }
};

template<class T> struct is_regioned : std::false_type {};
template<class T> struct is_regioned<ast::common::regioned<T>> : std::true_type {};

void put_node(D& o, ast::node const& n);
void put(D& o, ast::node_region const& x);   // description
void put(D& o, std::string const& x);

template<class T, class = void> struct is_elem : std::false_type {};
template<class T> struct is_elem<T, std::enable_if_t<std::is_base_of_v<ast::element, T>>> : std::true_type {};

void put_elem_common(D& o, char const* name, ast::node_region const& r);

#define E(q, c, ...) void put(D& o, ast::q const& x);
#define N(q, c, ...)
#include "dump_table.inc"
#undef E
#undef N

template<class T> std::enable_if_t<std::is_base_of_v<ast::node, T>> put(D& o, T const& x) { put_node(o, x); }
template<class T> std::enable_if_t<std::is_enum_v<T>> put(D& o, T const& x) { o.s += enum_name(x); }
inline void put(D& o, bool x) { o.s += x ? "true" : "false"; }
inline void put(D& o, std::size_t x) { o.s += std::to_string(x); }

template<class T> void put(D& o, ast::common::regioned<T> const& x);
template<class T> void put(D& o, std::unique_ptr<T> const& x);
template<class T> void put(D& o, std::optional<T> const& x);
template<class T> void put(D& o, std::vector<T> const& x);

template<class T> void put(D& o, ast::common::regioned<T> const& x) { o.reg(x.region()); put(o, x.value()); }
template<class T> void put(D& o, std::unique_ptr<T> const& x) { if (!x) o.s += '~'; else put(o, *x); }
template<class T> void put(D& o, std::optional<T> const& x) { if (!x) o.s += '~'; else put(o, *x); }
template<class T> void put(D& o, std::vector<T> const& x) {
    o.s += '[';
    bool first = true;
    for (auto&& e : x) { if (!first) o.s += ','; first = false; put(o, e); }
    o.s += ']';
}

std::string hexs(std::string_view s);
} // namespace vdump
