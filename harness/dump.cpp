#include "dump.h"
#include <functional>
namespace vdump {
void put(D& o, std::string const& x) {
    o.s += '"';
    static char const* H = "0123456789abcdef";
    for (unsigned char c : x) {
        if (c < 0x20 || c >= 0x7f || c == '"' || c == '\\') { o.s += "\\x"; o.s += H[c >> 4]; o.s += H[c & 15]; }
        else o.s += static_cast<char>(c);
    }
    o.s += '"';
}
void put(D& o, ast::node_region const& x) {
    if (o.full) o.s += x ? "@" + std::to_string(x.begin) + "-" + std::to_string(x.end) : "~";
    if (!x) { o.d += "~ "; return; }
    o.d += std::to_string(x.begin) + "-" + std::to_string(x.end) + " ";
}
void put_elem_common(D& o, char const* name, ast::node_region const& r) {
    ++o.elems; o.s += name; o.reg(r);
}

static std::string plain(std::string_view q) { return std::string(q.substr(0, q.find('<'))); }

template<class... T> void fields(D& o, T const&... x) {
    o.s += '{';
    bool first = true;
    auto one = [&](auto const& f) {
        if (!first) o.s += ';';
        first = false;
        put(o, f);
    };
    (one(x), ...);
    o.s += '}';
}

// FOR_EACH accessor expansion
#define A0()
#define A1(a) x.a()
#define A2(a,b) x.a(), x.b()
#define A3(a,b,c) x.a(), x.b(), x.c()
#define A4(a,b,c,d) x.a(), x.b(), x.c(), x.d()
#define A5(a,b,c,d,e) A4(a,b,c,d), x.e()
#define A6(a,b,c,d,e,f) A5(a,b,c,d,e), x.f()
#define A7(a,b,c,d,e,f,g) A6(a,b,c,d,e,f), x.g()
#define A8(a,b,c,d,e,f,g,h) A7(a,b,c,d,e,f,g), x.h()
#define A9(a,b,c,d,e,f,g,h,i) A8(a,b,c,d,e,f,g,h), x.i()
#define PICK(_0,_1,_2,_3,_4,_5,_6,_7,_8,_9,N,...) N
#define ACC(...) PICK(0, ##__VA_ARGS__, A9,A8,A7,A6,A5,A4,A3,A2,A1,A0)(__VA_ARGS__)

#define E(q, c, ...) void put(D& o, ast::q const& x) { put_elem_common(o, o.full ? plain(#q).c_str() : #c, x.region()); fields(o __VA_OPT__(, ACC(__VA_ARGS__))); }
#define N(q, c, ...)
#include "dump_table.inc"
#undef E
#undef N

using fn = void (*)(D&, ast::node const&);
template<class T> struct tagged {};
static std::map<std::type_index, fn> const& table() {
    static std::map<std::type_index, fn> t;
    if (t.empty()) {
        std::map<std::type_index, fn> m;
#define E(q, c, ...)
#define N(q, c, ...) m[typeid(ast::q)] = [](D& o, ast::node const& n) { \
            auto& x = dynamic_cast<ast::q const&>(n); \
            ++o.nodes; \
            std::string k = enum_name(x.node_kind()); \
            o.s += o.full ? plain(#q) : #c; o.s += ':'; o.s += k; \
            o.reg(x.region()); fields(o __VA_OPT__(, ACC(__VA_ARGS__))); };
#include "dump_table.inc"
#undef E
#undef N
        t = std::move(m);
    }
    return t;
}
static auto const& warm = table();
void put_node(D& o, ast::node const& n) {
    auto it = table().find(typeid(n));
    if (it == table().end()) { o.s += "<unknown node>"; return; }
    it->second(o, n);
}
} // namespace vdump
