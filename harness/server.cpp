// Harness server: reads length-prefixed requests on stdin, runs the real code under sanitizers, and
// writes length-prefixed replies on stdout.  Any crash ends the stream; the driver keeps the input.
#include "server.h"
#include "common.inc"
#include <cstdint>
#include <sstream>
#include <takatori/document/basic_document.h>
#include <cstring>
#include <unistd.h>

using namespace mizugaki;
using namespace vsrv;

static bool rd(void* p, std::size_t n) { return std::fread(p, 1, n, stdin) == n; }

static std::string cmd_parse(Request const& q) {
    parser::sql_parser p { parser_options(q.opts) };
    auto r = p(str(q.opts, "loc", "L"), q.body);
    return render(r, num(q.opts, "full", 1) != 0);
}
// parses the same text twice, with one parser, and checks both results are the same
static std::string cmd_twice(Request const& q) {
    parser::sql_parser p { parser_options(q.opts) };
    auto r1 = p("L", q.body);
    auto s1 = render(r1);
    auto doc = std::make_shared<takatori::document::basic_document>("L", q.body);
    auto r2 = p(takatori::util::maybe_shared_ptr<takatori::document::document const>(doc));
    auto s2 = render(r2);
    if (s1 != s2) return std::string("DIFFER\0", 7) + s1 + std::string("\0\0", 2) + s2;
    return s1;
}
// the serialized form of a unit; each node is also written on its own
static std::string cmd_json(Request const& q) {
    parser::sql_parser p { parser_options(q.opts) };
    auto r = p("L", q.body);
    if (!r.has_value()) return "NOPARSE";
    std::ostringstream os, os2;
    os << *r.value();
    os2 << *r.value();
    std::string out { "OK" };
    out += '\0';
    if (os.str() != os2.str()) out = std::string("UNSTABLE\0", 9);
    out += os.str();
    for (auto& s : r.value()->statements()) {
        std::ostringstream o;
        o << static_cast<ast::node const&>(*s);
        out += '\0';
        out += o.str();
    }
    return out;
}
// one parser is used for many texts, its options change in between, and its results outlive it
static std::string cmd_seq(Request const& q) {
    std::vector<std::string> texts;
    std::size_t at = 0;
    auto lens = str(q.opts, "lens");
    for (std::size_t i = 0; i < lens.size();) {
        auto c = lens.find(',', i);
        if (c == lens.npos) c = lens.size();
        auto n = std::strtoull(lens.c_str() + i, nullptr, 10);
        texts.push_back(q.body.substr(at, n));
        at += n;
        i = c + 1;
    }
    std::uint64_t rs = num(q.opts, "seed", 1) * 2654435761U + 88172645463325252ULL;
    auto rnd = [&] { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs; };
    auto p = std::make_unique<parser::sql_parser>();
    auto other = std::make_unique<parser::sql_parser>();
    std::vector<std::pair<parser::sql_parser_result, std::string>> kept;
    std::size_t steps = 0;
    for (std::size_t k = 0; k < texts.size() * 2; ++k) {
        auto& t = texts[rnd() % texts.size()];
        auto a = rnd() % 8, b = rnd() % 3 ? 0 : rnd() % 200, c = rnd() % 4 ? 0 : rnd() % 40;
        bool d = rnd() % 4 != 0;
        auto kind = static_cast<parser::sql_parser_element_kind>(rnd() % 20);
        auto lim = rnd() % 3 ? 0 : rnd() % 5;
        auto set = [&](parser::sql_parser& x) {
            x.options().max_expected_candidates() = a;
            x.options().tree_node_limit() = b;
            x.options().tree_depth_limit() = c;
            x.options().enable_description_comments() = d;
            x.options().element_limits() = {};
            x.options().element_limits()[kind] = lim;
        };
        if (rnd() % 3) { set(*p); set(*other); }
        else {
            a = p->options().max_expected_candidates(); b = p->options().tree_node_limit(); c = p->options().tree_depth_limit();
            d = p->options().enable_description_comments();
            other->options().element_limits() = p->options().element_limits();
            other->options().max_expected_candidates() = a; other->options().tree_node_limit() = b; other->options().tree_depth_limit() = c; other->options().enable_description_comments() = d;
        }
        auto r = (*p)("L", t);
        auto fresh = std::make_unique<parser::sql_parser>();
        fresh->options().max_expected_candidates() = a; fresh->options().tree_node_limit() = b; fresh->options().tree_depth_limit() = c; fresh->options().enable_description_comments() = d;
        fresh->options().element_limits() = p->options().element_limits();
        auto s1 = render(r), s2 = render((*fresh)("L", t)), s3 = render((*other)("L", t));
        fresh.reset();
        ++steps;
        if (s1 != s2 || s1 != s3) return std::string("DIFFER\0", 7) + esc(t) + std::string("\0", 1) + s1 + std::string("\0\0", 2) + s2 + std::string("\0\0", 2) + s3;
        kept.emplace_back(std::move(r), s1);
        if (rnd() % 6 == 0) *p = parser::sql_parser {};
    }
    p.reset();
    other.reset();
    for (auto& [r, s] : kept) if (render(r) != s) return std::string("STALE\0", 6) + s + std::string("\0\0", 2) + render(r);
    return std::string("OK\0", 3) + std::to_string(steps);
}
// parses and destroys, without looking at the tree
static std::string cmd_accept(Request const& q) {
    parser::sql_parser p { parser_options(q.opts) };
    auto r = p("L", q.body);
    return r.has_value() ? "OK" : r.has_diagnostic() ? std::string(parser::to_string_view(r.diagnostic().code())) : "NONE";
}
static std::string cmd_quit(Request const&) { std::_Exit(0); }

int main() {
    std::setvbuf(stdin, nullptr, _IOFBF, 1 << 20);
    std::map<std::string, std::string (*)(Request const&)> cmds {
        {"parse", cmd_parse}, {"twice", cmd_twice}, {"laws", cmd_laws}, {"json", cmd_json}, {"jsonmut", cmd_jsonmut}, {"enums", cmd_enums}, {"objects", cmd_objects}, {"dispatch", cmd_dispatch}, {"accept", cmd_accept}, {"seq", cmd_seq}, {"quit", cmd_quit},
    };
    while (true) {
        std::uint32_t n = 0;
        if (!rd(&n, 4)) return 0;
        std::string buf(n, '\0');
        if (n && !rd(buf.data(), n)) return 0;
        Request q;
        auto nl = buf.find('\n');
        std::string head = buf.substr(0, nl);
        q.body = buf.substr(nl + 1);
        buf.clear(); buf.shrink_to_fit();
        std::size_t i = 0;
        while (i < head.size()) {
            auto sp = head.find(' ', i);
            if (sp == head.npos) sp = head.size();
            auto eq = head.find('=', i);
            q.opts[head.substr(i, eq - i)] = head.substr(eq + 1, sp - eq - 1);
            i = sp + 1;
        }
        auto it = cmds.find(str(q.opts, "cmd", "parse"));
        if (it == cmds.end()) { std::fprintf(stderr, "harness: unknown command\n"); return 3; }
        std::string out = it->second(q);
        std::uint32_t m = static_cast<std::uint32_t>(out.size());
        std::fwrite(&m, 1, 4, stdout);
        std::fwrite(out.data(), 1, out.size(), stdout);
        std::fflush(stdout);
    }
}
