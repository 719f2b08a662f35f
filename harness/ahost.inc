// the values a host exchanges with the analyzer: options, parameter tables, results; compared with plain models
#include <mizugaki/analyzer/sql_analyzer_options.h>
#include <mizugaki/analyzer/sql_analyzer_result.h>
#include <mizugaki/placeholder_map.h>
#include <takatori/scalar/immediate.h>
#include <takatori/statement/empty.h>

namespace vhost {
using namespace mizugaki;
using analyzer::sql_analyzer_options;
using analyzer::sql_analyzer_result;
using rk = analyzer::sql_analyzer_result_kind;

struct Run {
    std::uint64_t rs;
    std::size_t checks = 0;
    std::size_t steps = 0;
    std::vector<std::string> bads;
    std::uint64_t rnd() { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs >> 11; }
    void ck(bool c, std::string const& s) { ++checks; if (!c && bads.size() < 20) bads.push_back(s); }

    // ------------------------------------------------------------------------------------------ options
    struct Model {
        std::map<std::string, long long> v;
        bool operator==(Model const& o) const { return v == o.v; }
    };
#define OPTIONS_B X(lowercase_regular_identifiers) X(lowercase_variable_regular_identifiers) X(lowercase_function_regular_identifiers) X(lowercase_relation_regular_identifiers) \
    X(lowercase_schema_regular_identifiers) X(lowercase_catalog_regular_identifiers) X(allow_context_independent_null) X(prefer_write_statement) \
    X(host_parameter_declaration_starts_with_colon) X(prefer_small_integer_literals) X(prefer_small_character_literals) X(prefer_small_binary_literals) \
    X(prefer_small_decimal_literals) X(validate_scalar_expressions) X(cast_literals_in_context) X(default_sequence_cycle)
#define OPTIONS_S X(max_decimal_precision) X(max_binary_integer1_precision) X(max_binary_integer2_precision) X(max_binary_integer4_precision) X(max_binary_integer8_precision) \
    X(max_binary_float4_precision) X(max_binary_float8_precision)
    static std::map<std::string, long long> read(sql_analyzer_options const& o) {
        std::map<std::string, long long> r;
#define X(n) r[#n] = static_cast<long long>(o.n());
        OPTIONS_B OPTIONS_S
#undef X
        r["default_decimal_precision"] = o.default_decimal_precision() ? static_cast<long long>(*o.default_decimal_precision()) : -1;
        r["advance_sequence_function_name"] = o.advance_sequence_function_name() == "nextval" ? 0 : o.advance_sequence_function_name() == "advance" ? 1 : o.advance_sequence_function_name() == "" ? 2 : 3;
        r["system_zone_offset"] = o.system_zone_offset().count();
        return r;
    }
    /// the same, through the accessors which allow modification
    static std::map<std::string, long long> peek(sql_analyzer_options& o) {
        std::map<std::string, long long> r;
#define X(n) r[#n] = static_cast<long long>(o.n());
        OPTIONS_B OPTIONS_S
#undef X
        r["default_decimal_precision"] = o.default_decimal_precision() ? static_cast<long long>(*o.default_decimal_precision()) : -1;
        r["advance_sequence_function_name"] = o.advance_sequence_function_name() == "nextval" ? 0 : o.advance_sequence_function_name() == "advance" ? 1 : o.advance_sequence_function_name() == "" ? 2 : 3;
        r["system_zone_offset"] = o.system_zone_offset().count();
        return r;
    }
    void set_one(sql_analyzer_options& o, std::map<std::string, long long>& m) {
        std::vector<std::function<void()>> f;
#define X(n) f.emplace_back([&] { auto b = (rnd() & 1) != 0; o.n() = b; m[#n] = b; });
        OPTIONS_B
#undef X
#define X(n) f.emplace_back([&] { auto b = rnd() % 100; o.n() = b; m[#n] = static_cast<long long>(b); });
        OPTIONS_S
#undef X
        f.emplace_back([&] { if (rnd() % 3 == 0) { o.default_decimal_precision() = std::nullopt; m["default_decimal_precision"] = -1; } else { auto b = rnd() % 40; o.default_decimal_precision() = b; m["default_decimal_precision"] = static_cast<long long>(b); } });
        f.emplace_back([&] { static char const* names[] = { "nextval", "advance", "", "zz" }; auto i = rnd() % 4; o.advance_sequence_function_name() = names[i]; m["advance_sequence_function_name"] = static_cast<long long>(i); });
        f.emplace_back([&] { auto b = static_cast<std::int32_t>(rnd() % 2000) - 1000; o.system_zone_offset() = sql_analyzer_options::zone_offset_type { b }; m["system_zone_offset"] = b; });
        f[rnd() % f.size()]();
    }
    static std::string diff(std::map<std::string, long long> const& a, std::map<std::string, long long> const& b) {
        for (auto& [k, v] : a) if (b.at(k) != v) return k;
        return {};
    }
    void options(vcat::Catalog const& cat) {
        using O = sql_analyzer_options;
        auto shared = cat.options();
        O bare { cat.catalog.get(), cat.path.get(), cat.decls.at(cat.default_schema).get() };
        for (auto* o : { &shared, &bare }) {
            ck(&o->catalog() == cat.catalog.get(), "options-catalog: it is another one");
            ck(&o->schema_search_path() == cat.path.get(), "options-search-path: it is another one");
            ck(&o->default_schema() == cat.decls.at(cat.default_schema).get() && o->default_schema_shared().get() == &o->default_schema(), "options-default-schema: it is another one");
        }
        std::map<std::string, long long> want {
            { "lowercase_regular_identifiers", O::default_lowercase_regular_identifiers }, { "lowercase_variable_regular_identifiers", 0 }, { "lowercase_function_regular_identifiers", 0 },
            { "lowercase_relation_regular_identifiers", 0 }, { "lowercase_schema_regular_identifiers", 0 }, { "lowercase_catalog_regular_identifiers", 0 },
            { "allow_context_independent_null", O::default_allow_context_independent_null }, { "prefer_write_statement", O::default_prefer_write_statement },
            { "host_parameter_declaration_starts_with_colon", O::default_host_parameter_declaration_starts_with_colon }, { "prefer_small_integer_literals", O::default_prefer_small_integer_literals },
            { "prefer_small_character_literals", O::default_prefer_small_character_literals }, { "prefer_small_binary_literals", O::default_prefer_small_binary_literals },
            { "prefer_small_decimal_literals", O::default_prefer_small_decimal_literals }, { "validate_scalar_expressions", O::default_validate_scalar_expressions },
            { "cast_literals_in_context", O::default_cast_literals_in_context }, { "default_sequence_cycle", O::default_default_sequence_cycle },
            { "max_decimal_precision", O::default_max_decimal_precision }, { "max_binary_integer1_precision", O::default_max_binary_integer1_precision },
            { "max_binary_integer2_precision", O::default_max_binary_integer2_precision }, { "max_binary_integer4_precision", O::default_max_binary_integer4_precision },
            { "max_binary_integer8_precision", O::default_max_binary_integer8_precision }, { "max_binary_float4_precision", O::default_max_binary_float4_precision },
            { "max_binary_float8_precision", O::default_max_binary_float8_precision }, { "default_decimal_precision", O::default_default_decimal_precision ? static_cast<long long>(*O::default_default_decimal_precision) : -1 },
            { "advance_sequence_function_name", O::default_advance_sequence_function_name == "nextval" ? 0 : 3 }, { "system_zone_offset", O::default_system_zone_offset.count() } };
        ck(read(bare) == want, "options-default: " + diff(read(bare), want));
        auto o = shared;
        auto m = want;
        auto o2 = o;
        auto m2 = m;
        for (int i = 0; i < 60; ++i) {
            ++steps;
            switch (rnd() % 8) {
                case 0: o2 = o; m2 = m; break;
                case 1: { O c { o2 }; o = std::move(c); m = m2; break; }
                default: set_one(o, m); break;
            }
            ck(read(o) == m, "options-store: " + diff(read(o), m));
            ck(peek(o) == m, "options-store: " + diff(peek(o), m));
            ck(read(o2) == m2, "options-copy: " + diff(read(o2), m2));
        }
    }

    // ------------------------------------------------------------------------------------------ parameter tables
    using Entry = std::pair<std::string, std::string>;
    static Entry shown(placeholder_entry const& e) {
        auto x = e.resolve();
        if (x->kind() != ::takatori::scalar::expression_kind::immediate) return { "not a value", "" };
        auto& im = static_cast<::takatori::scalar::immediate const&>(*x);
        return { vcat::show(im.value()), vcat::show(im.type()) };
    }
    std::string name() {
        static char const* names[] = { ":a", "a", ":A", ":b", "1", "2", "", ":a ", "10", ":aa" };
        std::string s { names[rnd() % 10] };
        if (rnd() % 20 == 0) s += std::string(rnd() % 300, 'x');
        if (rnd() % 40 == 0) s += '\0';
        return s;
    }
    void parameters() {
        namespace tt = ::takatori::type;
        namespace tv = ::takatori::value;
        placeholder_map p {};
        std::map<std::string, Entry> m {};
        placeholder_map q {};
        std::map<std::string, Entry> n {};
        auto same = [&](placeholder_map const& a, std::map<std::string, Entry> const& b, std::string const& what) {
            for (int k = 0; k < 6; ++k) {
                auto s = name();
                auto f = a.find(s);
                auto i = b.find(s);
                ck(f.has_value() == (i != b.end()), what + (f ? ": it finds what is not there" : ": it does not find what is there"));
                if (f && i != b.end()) ck(shown(*f) == i->second, what + ": it finds something else");
            }
        };
        for (int i = 0; i < 80; ++i) {
            ++steps;
            switch (rnd() % 12) {
                case 0: if (rnd() % 3 == 0) { p.clear(); m.clear(); } break;
                case 1: p.reserve(rnd() % 100); break;
                case 2: q = p; n = m; break;
                case 3: if (rnd() % 2) { p = q; m = n; } else { p = std::move(q); m = std::move(n); q = {}; n = {}; } break;
                default: {
                    auto s = name();
                    auto v = static_cast<std::int32_t>(rnd() % 1000);
                    Entry e { "int4:" + std::to_string(v), "int8" };
                    auto* r = &p;
                    switch (rnd() % 4) {
                        case 0: r = &p.add(s, placeholder_entry { tv::int4 { v }, tt::int8 {} }); break;
                        case 1: r = &p.add(s, placeholder_entry { tt::int8 {}, tv::int4 { v } }); break;
                        case 2: r = &p.add(s, placeholder_entry { std::make_shared<tv::int4>(v), std::make_shared<tt::decimal>(10, 2) }); e.second = "decimal(10,2)"; break;
                        default: r = &p.add(s, placeholder_entry { std::make_shared<tt::unknown>(), std::make_shared<tv::unknown>() }); e = { "null", "unknown" }; break;
                    }
                    ck(r == &p, "parameters: add does not return the table");
                    m[s] = e;
                    auto f = p.find(s);
                    ck(f && shown(*f) == e, "parameters: what was added is not found");
                    if (f) {
                        std::ostringstream os;
                        os << *f;
                        ck(os.str().rfind("placeholder(value=", 0) == 0 && os.str().find(", type=") != std::string::npos && os.str().back() == ')', "parameters-output: " + os.str());
                    }
                }
            }
            same(p, m, "parameters");
            same(q, n, "parameters-copy");
        }
    }

    // ------------------------------------------------------------------------------------------ results
    template<class F> static bool refuses(F f) { try { f(); return false; } catch (std::bad_variant_access const&) { return true; } }
    void holds(sql_analyzer_result& r, rk k, void const* element) {
        auto const& c = r;
        ck(c.kind() == k, "result-kind: it is another one");
        ck(c.is_valid() == (k != rk::diagnostics) && static_cast<bool>(c) == c.is_valid(), "result-valid: it is not");
        std::ostringstream os;
        os << c;
        ck(os.str() == (k == rk::diagnostics ? "diagnostics" : k == rk::execution_plan ? "execution_plan" : "statement"), "result-output: " + os.str());
        ck(refuses([&] { (void) c.element<rk::diagnostics>(); }) == (k != rk::diagnostics), "result-element: diagnostics");
        ck(refuses([&] { (void) c.element<rk::execution_plan>(); }) == (k != rk::execution_plan), "result-element: execution_plan");
        ck(refuses([&] { (void) c.element<rk::statement>(); }) == (k != rk::statement), "result-element: statement");
        if (k == rk::execution_plan) ck(&c.element<rk::execution_plan>() == element && &r.element<rk::execution_plan>() == element, "result-element: another plan");
        if (k == rk::statement) ck(&c.element<rk::statement>() == element && &r.element<rk::statement>() == element, "result-element: another statement");
        if (k != rk::diagnostics) ck(refuses([&] { (void) r.release<rk::diagnostics>(); }), "result-release: diagnostics");
        if (k != rk::execution_plan) ck(refuses([&] { (void) r.release<rk::execution_plan>(); }), "result-release: execution_plan");
        if (k != rk::statement) ck(refuses([&] { (void) r.release<rk::statement>(); }), "result-release: statement");
    }
    void results() {
        for (int i = 0; i < 20; ++i) {
            ++steps;
            auto k = rnd() % 3;
            if (k == 0) {
                sql_analyzer_result none {};
                holds(none, rk::diagnostics, nullptr);
                ck(none.element<rk::diagnostics>().empty(), "result-default: not empty");
                std::vector<sql_analyzer_result::diagnostic_type> d;
                auto n = rnd() % 4;
                for (std::size_t j = 0; j < n; ++j) d.emplace_back(static_cast<analyzer::sql_analyzer_code>(j + 1), "m" + std::to_string(j), ::takatori::document::region {});
                sql_analyzer_result r { std::move(d) };
                holds(r, rk::diagnostics, nullptr);
                sql_analyzer_result s { std::move(r) };
                holds(s, rk::diagnostics, nullptr);
                auto const& e = s.element<rk::diagnostics>();
                ck(e.size() == n, "result-element: number of diagnostics");
                for (std::size_t j = 0; j < e.size(); ++j) ck(e[j].message() == "m" + std::to_string(j) && e[j].code() == static_cast<analyzer::sql_analyzer_code>(j + 1), "result-element: diagnostics");
                ck(s.release<rk::diagnostics>().size() == n, "result-release: number of diagnostics");
            } else if (k == 1) {
                auto g = std::make_unique<::takatori::relation::graph_type>();
                auto* at = g.get();
                sql_analyzer_result r { std::move(g) };
                holds(r, rk::execution_plan, at);
                sql_analyzer_result s {};
                s = std::move(r);
                holds(s, rk::execution_plan, at);
                ck(s.release<rk::execution_plan>().get() == at, "result-release: another plan");
            } else {
                std::unique_ptr<::takatori::statement::statement> st = std::make_unique<::takatori::statement::empty>();
                auto* at = st.get();
                sql_analyzer_result r { std::move(st) };
                holds(r, rk::statement, at);
                sql_analyzer_result s { std::move(r) };
                holds(s, rk::statement, at);
                ck(s.release<rk::statement>().get() == at, "result-release: another statement");
            }
        }
    }
};
inline std::string run(std::string const& spec, std::uint64_t seed) {
    Run r { seed * 2654435761U + 88172645463325252ULL };
    auto cat = vcat::load(spec);
    r.options(*cat);
    r.parameters();
    r.results();
    std::string out = "OK";
    out += '\0'; out += std::to_string(r.checks);
    out += '\0'; out += std::to_string(r.steps);
    for (auto& b : r.bads) { out += '\0'; out += b; }
    // addresses of the catalog are given back
    vcat::table_names().clear();
    vcat::variable_names().clear();
    vcat::host_names().clear();
    g_catalogs.clear();
    return out;
}
} // namespace vhost
