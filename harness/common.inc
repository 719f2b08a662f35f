// shared between the server, the thread harness and the fuzzer
namespace vsrv {
using namespace mizugaki;
parser::sql_parser_options parser_options(opts_t const& o) {
    parser::sql_parser_options p {};
    if (o.count("me")) p.max_expected_candidates() = num(o, "me", 5);
    if (o.count("nl")) p.tree_node_limit() = num(o, "nl", 0);
    if (o.count("dl")) p.tree_depth_limit() = num(o, "dl", 0);
    if (o.count("dc")) p.enable_description_comments() = num(o, "dc", 1) != 0;
    auto el = str(o, "el");
    std::size_t i = 0;
    while (i < el.size()) {
        auto c = el.find(',', i);
        if (c == el.npos) c = el.size();
        auto col = el.find(':', i);
        auto name = el.substr(i, col - i);
        auto val = std::strtoull(el.c_str() + col + 1, nullptr, 10);
        auto k = parser::find_sql_parser_element_kind(name);
        if (!k) { std::fprintf(stderr, "harness: bad element kind %s\n", name.c_str()); std::_Exit(3); }
        p.element_limits()[*k] = val;
        i = c + 1;
    }
    return p;
}
std::string esc(std::string_view s) {
    vdump::D d;
    vdump::put(d, std::string(s));
    return d.s.substr(1, d.s.size() - 2);
}
std::string reg(ast::node_region const& r) {
    if (!r) return "~";
    return std::to_string(r.begin) + "-" + std::to_string(r.end);
}
std::string render(parser::sql_parser_result const& r, bool full) {
    std::string out;
    auto sec = [&](std::string_view s) { out += s; out += '\0'; };
    sec(r.has_value() ? (r.has_diagnostic() ? "BOTH" : "OK") : (r.has_diagnostic() ? "ERR" : "NONE"));
    if (r.has_value()) {
        auto& u = *r.value();
        vdump::D d;
        vdump::put(d, u.statements());
        sec(d.s);
        if (full) {
            sec(d.r);
            sec(d.d);
            std::string c;
            for (auto& x : u.comments()) { c += reg(x); c += ' '; }
            sec(c);
            sec(std::to_string(r.tree_node_count()) + " " + std::to_string(r.max_tree_depth()) + " " + std::to_string(d.nodes));
            sec(u.document() ? std::string(u.document()->location()) : std::string("<null>"));
        }
        return out;
    }
    auto& g = r.diagnostic();
    std::string code { parser::to_string_view(g.code()) };
    sec(code);
    sec(reg(g.region()));
    sec(esc(g.message()));
    if (full) {
        sec(g.document() ? std::string(g.document()->location()) : std::string("<null>"));
        sec(g.is_valid() ? esc(g.contents()) : std::string("<invalid>"));
    }
    return out;
}
} // namespace vsrv
