// Name tables of every enumeration, the element-kind map, parser options, result objects, and visitor
// dispatch.  The enumerator names come from the compiler, not from the project's tables.
#define ENUM_INCLUDES
#include "enum_list.inc"
#undef ENUM_INCLUDES
#include "server.h"
#include <sstream>
#include <typeinfo>
#include <mizugaki/ast/name/dispatch.h>
#include <mizugaki/ast/literal/dispatch.h>
#include <mizugaki/ast/query/dispatch.h>
#include <mizugaki/ast/scalar/dispatch.h>
#include <mizugaki/ast/statement/dispatch.h>
#include <mizugaki/ast/table/dispatch.h>
#include <mizugaki/ast/type/dispatch.h>
#include <mizugaki/parser/sql_parser_options.h>
#include <mizugaki/parser/sql_parser_result.h>

namespace vsrv {
using namespace mizugaki;
namespace ast = ::mizugaki::ast;

template<class E> static void one_enum(std::string& out, char const* name) {
    static constexpr auto tab = vdump::enum_tab<E>(std::make_index_sequence<120>());
    for (std::size_t i = 0; i < tab.size(); ++i) {
        if (tab[i].empty()) continue;
        auto v = static_cast<E>(i);
        std::ostringstream os;
        os << v;
        out += '\0';
        out += name; out += '\t';
        out += std::to_string(i); out += '\t';
        out += tab[i]; out += '\t';
        out += esc(to_string_view(v)); out += '\t';
        out += esc(os.str());
    }
}

std::string cmd_enums(Request const&) {
    std::string out { "OK" };
#define ENUM(x) one_enum<::x>(out, #x);
#include "enum_list.inc"
#undef ENUM
    return out;
}

// ---- element kinds, options, results
std::string cmd_objects(Request const& q) {
    using namespace parser;
    std::string out { "OK" };
    std::size_t checks = 0;
    auto bad = [&](std::string const& s) { out += '\0'; out += s; };
    auto ck = [&](bool c, std::string const& s) { ++checks; if (!c) bad(s); };
    std::uint64_t rs = num(q.opts, "seed", 1) * 2654435761U + 88172645463325252ULL;
    auto rnd = [&] { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs; };
    static constexpr auto tab = vdump::enum_tab<sql_parser_element_kind>(std::make_index_sequence<120>());
    std::vector<sql_parser_element_kind> kinds;
    std::vector<std::string> names;
    for (std::size_t i = 0; i < tab.size(); ++i) if (!tab[i].empty()) { kinds.push_back(static_cast<sql_parser_element_kind>(i)); names.emplace_back(tab[i]); }
    for (std::size_t i = 0; i < kinds.size(); ++i) {
        auto r = find_sql_parser_element_kind(names[i]);
        ck(r.has_value() && *r == kinds[i], "find_element_kind:" + names[i]);
        auto n = names[i];
        for (int k = 0; k < 8; ++k) {       // near misses are not found
            auto m = n;
            switch (k) {
                case 0: m += 'x'; break;
                case 1: m.pop_back(); break;
                case 2: m[rnd() % m.size()] ^= 0x20; break;
                case 3: m = " " + m; break;
                case 4: m += '\0'; break;
                case 5: m.clear(); break;
                case 6: m[rnd() % m.size()] = '#'; break;
                case 7: std::swap(m.front(), m.back()); break;
            }
            bool known = false;
            for (auto& x : names) known = known || x == m;
            if (known) continue;
            ck(!find_sql_parser_element_kind(m).has_value(), "find_element_kind_unknown:" + esc(m));
        }
    }
    // the map keeps one independent value for each kind
    {
        sql_parser_element_map<std::size_t> m {};
        auto const& c = m;
        std::vector<std::size_t> model(kinds.size(), 0);
        for (int step = 0; step < 200; ++step) {
            auto i = rnd() % kinds.size();
            auto v = rnd() % 100000;
            m[kinds[i]] = v;
            model[i] = v;
            for (std::size_t j = 0; j < kinds.size(); ++j) ck(c[kinds[j]] == model[j] && m[kinds[j]] == model[j], "element_map:" + names[j]);
        }
        ck(m.get<sql_parser_element_kind::statement>() == m[sql_parser_element_kind::statement], "element_map_get:statement");
        ck(c.get<sql_parser_element_kind::privilege_user>() == c[sql_parser_element_kind::privilege_user], "element_map_get:privilege_user");
        ck(c.get<sql_parser_element_kind::with_element>() == c[sql_parser_element_kind::with_element], "element_map_get:with_element");
        std::ostringstream os;
        os << m;
        auto text = os.str();
        std::string want;
        for (std::size_t j = 0; j < kinds.size(); ++j) {
            auto item = names[j] + ":" + std::to_string(model[j]);
            want += (j ? ", " : "{") + item;
        }
        want += "}";
        ck(text == want, "element_map_output:" + text);
    }
    // options: documented defaults, every field is stored on its own
    {
        sql_parser_options o {};
        ck(o.max_expected_candidates() == sql_parser_options::default_max_expected_candidates, "options_default:max_expected_candidates");
        ck(o.tree_node_limit() == 0 && o.tree_depth_limit() == 0, "options_default:tree limits");
        ck(o.enable_description_comments(), "options_default:enable_description_comments");
        for (auto k : kinds) ck(o.element_limits()[k] == 0, "options_default:element_limits");
        std::size_t a = 5, b = 0, c = 0; bool d = true; int e = o.debug(); std::vector<std::size_t> l(kinds.size(), 0);
        for (int step = 0; step < 200; ++step) {
            switch (rnd() % 6) {
                case 0: o.max_expected_candidates() = a = rnd() % 1000; break;
                case 1: o.tree_node_limit() = b = rnd() % 1000; break;
                case 2: o.tree_depth_limit() = c = rnd() % 1000; break;
                case 3: o.enable_description_comments() = d = (rnd() & 1) != 0; break;
                case 4: o.debug() = e = static_cast<int>(rnd() % 9); break;
                case 5: { auto i = rnd() % kinds.size(); o.element_limits()[kinds[i]] = l[i] = rnd() % 1000; break; }
            }
            auto const& k = o;
            ck(k.max_expected_candidates() == a && k.tree_node_limit() == b && k.tree_depth_limit() == c
                && k.enable_description_comments() == d && k.debug() == e, "options_store");
            for (std::size_t j = 0; j < kinds.size(); ++j) ck(k.element_limits()[kinds[j]] == l[j], "options_store:element_limits");
        }
        sql_parser p { std::move(o) };
        auto const& cp = p;
        ck(cp.options().max_expected_candidates() == a && cp.options().tree_node_limit() == b && cp.options().tree_depth_limit() == c
            && cp.options().enable_description_comments() == d, "parser_options_kept");
        for (std::size_t j = 0; j < kinds.size(); ++j) ck(cp.options().element_limits()[kinds[j]] == l[j], "parser_options_kept:element_limits");
    }
    // a parser always works by the options it has, whatever it had or read before
    {
        static char const* const texts[] = {
            "SELECT 1, 2, 3 FROM t WHERE a = 1 ORDER BY b, c", "/** d */ CREATE TABLE t (/** x */ a INT, b INT)", "SELECT FROM", "SELECT (1 + (2 + (3 + 4)))",
            "TABLE a; TABLE b; TABLE c", "INSERT INTO t VALUES (1, 2), (3, 4)", "GRANT ALL PRIVILEGES ON TABLE t TO a, b", ";;", "", "$", "CREATE TABLE" };
        auto brief = [](sql_parser_result& r) {
            std::ostringstream os;
            if (r.has_value()) {
                os << *r.value() << r.tree_node_count() << '/' << r.max_tree_depth();
            } else {
                os << r.diagnostic().code() << r.diagnostic().region() << r.diagnostic().message();
            }
            return os.str();
        };
        sql_parser p {};
        std::size_t a = sql_parser_options::default_max_expected_candidates, b = 0, c = 0; bool d = true; std::vector<std::size_t> l(kinds.size(), 0);
        for (int step = 0; step < 30; ++step) {
            switch (rnd() % 6) {
                case 0: p.options().max_expected_candidates() = a = rnd() % 8; break;
                case 1: p.options().tree_node_limit() = b = rnd() % 20; break;
                case 2: p.options().tree_depth_limit() = c = rnd() % 10; break;
                case 3: p.options().enable_description_comments() = d = (rnd() & 1) != 0; break;
                default: { auto i = rnd() % kinds.size(); p.options().element_limits()[kinds[i]] = l[i] = rnd() % 4; break; }
            }
            sql_parser_options o {};
            o.max_expected_candidates() = a;
            o.tree_node_limit() = b;
            o.tree_depth_limit() = c;
            o.enable_description_comments() = d;
            for (std::size_t j = 0; j < kinds.size(); ++j) o.element_limits()[kinds[j]] = l[j];
            sql_parser f { std::move(o) };
            auto t = texts[rnd() % std::size(texts)];
            auto const& cp = p;
            auto x = cp("L", t);
            auto y = f("L", t);
            auto xs = brief(x), ys = brief(y);
            ck(xs == ys, std::string("parser_options_used:") + t + ": " + xs.substr(0, 300) + " / " + ys.substr(0, 300));
        }
    }
    // extents: unions, parts, equality, hash and output
    {
        using region = ast::node_region;
        auto pos = [&]() -> std::size_t { return rnd() % 9 == 0 ? region::npos : rnd() % 7 == 0 ? (std::size_t { 1 } << (20 + rnd() % 40)) : rnd() % 12; };
        for (int step = 0; step < 400; ++step) {
            region x { pos(), pos() }, y { pos(), pos() };
            if (rnd() % 8 == 0) x = {};
            if (rnd() % 8 == 0) y = {};
            if (x && x.begin > x.end) std::swap(x.begin, x.end);
            if (y && y.begin > y.end) std::swap(y.begin, y.end);
            auto n = region::npos;
            bool vx = x.begin != n && x.end != n, vy = y.begin != n && y.end != n;
            ck(static_cast<bool>(x) == vx, "region_valid");
            ck(x.first() == x.begin && x.last() == x.end && (!vx || x.size() == x.end - x.begin), "region_positions");
            ck((x == y) == (x.begin == y.begin && x.end == y.end) && (x != y) == !(x == y) && x == x, "region_equality");
            auto u = x | y;
            region w = !vx ? y : !vy ? x : region { x.begin < y.begin ? x.begin : y.begin, x.end > y.end ? x.end : y.end };
            ck(u.begin == w.begin && u.end == w.end, "region_union:" + std::to_string(x.begin) + "-" + std::to_string(x.end) + "|" + std::to_string(y.begin) + "-" + std::to_string(y.end));
            if (x == y) ck(std::hash<region> {}(x) == std::hash<region> {}(y), "region_hash");
            region z = x;
            ck(std::hash<region> {}(x) == std::hash<region> {}(z), "region_hash");
            std::ostringstream os;
            os << x;
            ck(os.str() == (vx ? "region(begin=" + std::to_string(x.begin) + ", end=" + std::to_string(x.end) + ")" : std::string("region()")), "region_output:" + os.str());
            if (vx) {
                auto o = rnd() % (x.size() + 1), k = rnd() % (x.size() + 1);
                auto part = z(o, k);
                auto rest = z(o);
                ck(part.begin == x.begin + o && part.end == (k > x.size() - o ? x.end : x.begin + o + k), "region_part");
                ck(rest.begin == x.begin + o && rest.end == x.end, "region_rest");
                ck(z == x, "region_part_source");
            }
            // values with extents compare by their values only
            ast::common::regioned<std::size_t> p { rnd() % 3, x }, r { rnd() % 3, y };
            auto same = p.value() == r.value();
            ck((p == r) == same && (p != r) == !same && (p == r.value()) == same && (p.value() == r) == same && (p != r.value()) == !same && (p.value() != r) == !same, "regioned_equality");
            ck(p.region() == x && *p == p.value() && (!same || std::hash<decltype(p)> {}(p) == std::hash<decltype(r)> {}(r)), "regioned_parts");
            auto m = ast::common::regioned<std::size_t> { p.value() } << y;
            ck(m.region() == y && m.value() == p.value(), "regioned_extent");
        }
    }
    // empty results and diagnostics
    {
        sql_parser_result r {};
        ck(!r.has_value() && !r && !r.has_diagnostic(), "result_default");
        ck(r.tree_node_count() == 0 && r.max_tree_depth() == 0, "result_default:metrics");
        sql_parser_diagnostic g {};
        ck(!static_cast<bool>(g), "diagnostic_default");
    }
    out.insert(2, std::string("\0", 1) + std::to_string(checks));
    return out;
}

// ---- dispatch: every node must reach the callback of its own class, whatever the constness
namespace {
struct Seen { void const* object; std::type_info const* stat; int arg; bool constness; };
struct Callback {
    // exact static class of the argument
    template<class T> Seen operator()(T& x, int a) const {
        return { static_cast<void const*>(std::addressof(x)), &typeid(std::remove_const_t<T>), a, std::is_const_v<T> };
    }
};
struct Walk { std::size_t n = 0; std::map<std::string, std::size_t> classes; std::vector<std::string> bad; };

template<class T> void check(Walk& w, T& x, char const* cls) {
    void const* addr = dynamic_cast<void const*>(std::addressof(x));
    int a = static_cast<int>(w.n % 1000) + 7;
    auto s = dispatch(Callback {}, x, a + 0);
    ++w.n;
    w.classes[cls]++;
    if (*s.stat != typeid(x)) w.bad.push_back(std::string("dispatch reaches the wrong class: ") + s.stat->name() + " for " + cls);
    if (s.object != addr) w.bad.push_back(std::string("dispatch passes another object: ") + cls);
    if (s.arg != a) w.bad.push_back(std::string("dispatch loses an argument: ") + cls);
    if (s.constness) w.bad.push_back(std::string("dispatch adds const: ") + cls);
    auto const& cx = x;
    auto t = dispatch(Callback {}, cx, a + 0);
    if (*t.stat != typeid(x) || t.object != addr || t.arg != a || !t.constness) w.bad.push_back(std::string("const dispatch is wrong: ") + cls);
}
} // namespace

// finds the family of a node, by its exact class, and checks it
#define E(...)
#define N(q, c, ...) if (typeid(n) == typeid(ast::q)) { family(w, dynamic_cast<ast::q&>(n), #q); return; }
template<class T> static void family(Walk& w, T& x, char const* cls) {
    if constexpr (std::is_base_of_v<ast::name::name, T>) check<ast::name::name>(w, x, cls);
    else if constexpr (std::is_base_of_v<ast::literal::literal, T>) check<ast::literal::literal>(w, x, cls);
    else if constexpr (std::is_base_of_v<ast::query::expression, T>) check<ast::query::expression>(w, x, cls);
    else if constexpr (std::is_base_of_v<ast::scalar::expression, T>) check<ast::scalar::expression>(w, x, cls);
    else if constexpr (std::is_base_of_v<ast::statement::statement, T>) check<ast::statement::statement>(w, x, cls);
    else if constexpr (std::is_base_of_v<ast::table::expression, T>) check<ast::table::expression>(w, x, cls);
    else if constexpr (std::is_base_of_v<ast::type::type, T>) check<ast::type::type>(w, x, cls);
}
static void check_node(Walk& w, ast::node& n) {
#include "dump_table.inc"
}
#undef E
#undef N

void each_node(ast::statement::statement& s, void (*f)(void*, ast::node&), void* ctx);   // laws.cpp

std::string cmd_dispatch(Request const& q) {
    parser::sql_parser p { parser_options(q.opts) };
    auto r = p("L", q.body);
    if (!r.has_value()) return "NOPARSE";
    Walk w;
    for (auto& s : r.value()->statements()) {
        each_node(*s, [](void* c, ast::node& n) { check_node(*static_cast<Walk*>(c), n); }, &w);
    }
    std::string out { w.bad.empty() ? "OK" : "BAD" };
    out += '\0';
    out += std::to_string(w.n);
    out += '\0';
    for (auto& [k, v] : w.classes) { out += k; out += ' '; }
    for (auto& b : w.bad) { out += '\0'; out += b; }
    return out;
}
} // namespace vsrv
