// builds catalogs from their textual form, and writes types and values
#include <cmath>
#include <functional>
#include <map>
#include <memory>
#include <sstream>
#include <string>
#include <vector>
#include <mizugaki/analyzer/sql_analyzer_options.h>
#include <mizugaki/placeholder_map.h>
#include <yugawara/schema/configurable_provider.h>
#include <yugawara/storage/configurable_provider.h>
#include <yugawara/function/configurable_provider.h>
#include <yugawara/aggregate/configurable_provider.h>
#include <yugawara/variable/configurable_provider.h>
namespace vcat {
namespace tt = ::takatori::type;
namespace tv = ::takatori::value;
namespace yg = ::yugawara;
using tp = std::shared_ptr<tt::data const>;
using vp = std::shared_ptr<tv::data const>;

inline std::vector<std::string> split(std::string const& s, char c) {
    std::vector<std::string> r;
    if (s.empty()) return r;
    std::size_t i = 0;
    while (true) {
        auto j = s.find(c, i);
        if (j == s.npos) { r.push_back(s.substr(i)); return r; }
        r.push_back(s.substr(i, j - i));
        i = j + 1;
    }
}
[[noreturn]] inline void die(std::string const& m) { std::fprintf(stderr, "harness: bad catalog: %s\n", m.c_str()); std::_Exit(3); }
inline std::optional<std::size_t> opt_size(std::string const& s) {
    if (s == "*") return {};
    return std::strtoull(s.c_str(), nullptr, 10);
}
template<class T> tp ty(T t) { return std::make_shared<T>(std::move(t)); }
inline tp type(std::string const& s) {
    auto b = s.find_first_of("({");
    auto n = s.substr(0, b);
    auto arg = b == s.npos ? std::string {} : s.substr(b + 1, s.size() - b - 2);
    if (n == "boolean") return ty(tt::boolean {});
    if (n == "int1") return ty(tt::int1 {});
    if (n == "int2") return ty(tt::int2 {});
    if (n == "int4") return ty(tt::int4 {});
    if (n == "int8") return ty(tt::int8 {});
    if (n == "float4") return ty(tt::float4 {});
    if (n == "float8") return ty(tt::float8 {});
    if (n == "decimal") { auto v = split(arg, ','); return ty(tt::decimal { opt_size(v.at(0)), opt_size(v.at(1)) }); }
    if (n == "char") return ty(tt::character { tt::non_varying, opt_size(arg) });
    if (n == "varchar") return ty(tt::character { tt::varying, opt_size(arg) });
    if (n == "octet") return ty(tt::octet { tt::non_varying, opt_size(arg) });
    if (n == "varoctet") return ty(tt::octet { tt::varying, opt_size(arg) });
    if (n == "bit") return ty(tt::bit { tt::non_varying, opt_size(arg) });
    if (n == "varbit") return ty(tt::bit { tt::varying, opt_size(arg) });
    if (n == "date") return ty(tt::date {});
    if (n == "time") return ty(tt::time_of_day {});
    if (n == "timetz") return ty(tt::time_of_day { tt::with_time_zone });
    if (n == "ts") return ty(tt::time_point {});
    if (n == "tstz") return ty(tt::time_point { tt::with_time_zone });
    if (n == "interval") return ty(tt::datetime_interval {});
    if (n == "blob") return ty(tt::blob {});
    if (n == "clob") return ty(tt::clob {});
    if (n == "unknown") return ty(tt::unknown {});
    if (n == "table") {
        std::vector<tt::table::column_type> c;
        for (auto& e : split(arg, ';')) { auto k = e.find(':'); c.emplace_back(e.substr(0, k), type(e.substr(k + 1))); }
        return ty(tt::table { std::move(c) });
    }
    die("type " + s);
}
inline std::string show(std::optional<std::size_t> const& n) { return n ? std::to_string(*n) : "*"; }
inline std::string show(tt::data const& t) {
    using k = tt::type_kind;
    switch (t.kind()) {
        case k::decimal: { auto& x = static_cast<tt::decimal const&>(t); return "decimal(" + show(x.precision()) + "," + show(x.scale()) + ")"; }
        case k::character: { auto& x = static_cast<tt::character const&>(t); return (x.varying() ? "varchar(" : "char(") + show(x.length()) + ")"; }
        case k::octet: { auto& x = static_cast<tt::octet const&>(t); return (x.varying() ? "varoctet(" : "octet(") + show(x.length()) + ")"; }
        case k::bit: { auto& x = static_cast<tt::bit const&>(t); return (x.varying() ? "varbit(" : "bit(") + show(x.length()) + ")"; }
        case k::time_of_day: return static_cast<tt::time_of_day const&>(t).with_time_zone() ? "timetz" : "time";
        case k::time_point: return static_cast<tt::time_point const&>(t).with_time_zone() ? "tstz" : "ts";
        case k::datetime_interval: return "interval";
        case k::blob: { auto& x = static_cast<tt::blob const&>(t); return x.length() ? "blob(" + std::to_string(*x.length()) + ")" : "blob"; }
        case k::clob: { auto& x = static_cast<tt::clob const&>(t); return x.length() ? "clob(" + std::to_string(*x.length()) + ")" : "clob"; }
        case k::table: {
            std::string s = "table{";
            bool f = true;
            for (auto& c : static_cast<tt::table const&>(t).columns()) { if (!f) s += ';'; f = false; s += std::string(c.name()) + ":" + show(c.type()); }
            return s + "}";
        }
        default: return std::string(tt::to_string_view(t.kind()));
    }
}
inline std::string hex(std::string_view v) {
    std::string s;
    for (unsigned char c : v) { char b[4]; std::snprintf(b, sizeof b, "%02x", c); s += b; }
    return s;
}
inline std::string flt(double d) { char b[64]; std::snprintf(b, sizeof b, "%a", d); return b; }
inline std::string show(tv::data const& v) {
    using k = tv::value_kind;
    switch (v.kind()) {
        case k::unknown: return "null";
        case k::boolean: return static_cast<tv::boolean const&>(v).get() ? "bool:true" : "bool:false";
        case k::int4: return "int4:" + std::to_string(static_cast<tv::int4 const&>(v).get());
        case k::int8: return "int8:" + std::to_string(static_cast<tv::int8 const&>(v).get());
        case k::float4: return "float4:" + flt(static_cast<tv::float4 const&>(v).get());
        case k::float8: return "float8:" + flt(static_cast<tv::float8 const&>(v).get());
        case k::decimal: return "decimal:" + static_cast<tv::decimal const&>(v).get().to_string();
        case k::character: return "char:" + std::string(static_cast<tv::character const&>(v).get());
        case k::octet: return "octet:" + hex(static_cast<tv::octet const&>(v).get());
        case k::date: return "date:" + std::to_string(static_cast<tv::date const&>(v).get().days_since_epoch());
        case k::time_of_day: return "time:" + std::to_string(static_cast<tv::time_of_day const&>(v).get().time_since_epoch().count());
        case k::time_point: return "ts:" + static_cast<tv::time_point const&>(v).get().to_string();
        default: return "?";
    }
}
inline vp value(std::string const& s) {
    auto b = s.find(':');
    auto n = s.substr(0, b);
    auto arg = b == s.npos ? std::string {} : s.substr(b + 1);
    if (n == "null") return std::make_shared<tv::unknown>();
    if (n == "bool") return std::make_shared<tv::boolean>(arg == "true");
    if (n == "int4") return std::make_shared<tv::int4>(static_cast<std::int32_t>(std::strtoll(arg.c_str(), nullptr, 10)));
    if (n == "int8") return std::make_shared<tv::int8>(static_cast<std::int64_t>(std::strtoll(arg.c_str(), nullptr, 10)));
    if (n == "float4") return std::make_shared<tv::float4>(std::strtof(arg.c_str(), nullptr));
    if (n == "float8") return std::make_shared<tv::float8>(std::strtod(arg.c_str(), nullptr));
    if (n == "decimal") return std::make_shared<tv::decimal>(::takatori::decimal::triple { std::string_view { arg } });
    if (n == "char") return std::make_shared<tv::character>(arg);
    if (n == "octet") { std::string o; tv::parse_octet(arg, o); return std::make_shared<tv::octet>(o); }
    if (n == "date") return std::make_shared<tv::date>(::takatori::datetime::date { static_cast<std::int64_t>(std::strtoll(arg.c_str(), nullptr, 10)) });
    die("value " + s);
}
/// a relation which is not a table
class View : public yg::storage::relation {
public:
    explicit View(std::string n) : n_ { std::move(n) } { c_.push_back(std::make_unique<yg::storage::column>("a", std::make_shared<tt::int8>())); }
    yg::storage::relation_kind kind() const noexcept override { return yg::storage::relation_kind::view; }
    std::string_view simple_name() const noexcept override { return n_; }
    yg::storage::column_list_view const& columns() const noexcept override { return c_; }
private:
    std::string n_;
    takatori::util::reference_vector<yg::storage::column> c_;
};
struct Catalog {
    std::shared_ptr<yg::schema::configurable_provider> schemas { std::make_shared<yg::schema::configurable_provider>() };
    std::shared_ptr<yg::schema::catalog> catalog;
    std::map<std::string, std::shared_ptr<yg::schema::declaration>> decls;
    std::shared_ptr<yg::schema::search_path> path { std::make_shared<yg::schema::search_path>() };
    std::string default_schema { "public" };
    std::shared_ptr<yg::variable::configurable_provider> hosts { std::make_shared<yg::variable::configurable_provider>() };
    mizugaki::placeholder_map placeholders;
    mizugaki::analyzer::sql_analyzer_options options() const { return { catalog, path, decls.at(default_schema) }; }
};
/// names of declared tables
inline std::map<void const*, std::string>& table_names() { static std::map<void const*, std::string> m; return m; }
inline std::map<void const*, std::string>& variable_names() { static std::map<void const*, std::string> m; return m; }
inline std::map<void const*, std::string>& host_names() { static std::map<void const*, std::string> m; return m; }

inline std::shared_ptr<Catalog> load(std::string const& spec) {
    auto c = std::make_shared<Catalog>();
    c->catalog = std::make_shared<yg::schema::catalog>("tsurugi", std::nullopt, c->schemas);
    struct S {
        std::shared_ptr<yg::storage::configurable_provider> st { std::make_shared<yg::storage::configurable_provider>() };
        std::shared_ptr<yg::variable::configurable_provider> va { std::make_shared<yg::variable::configurable_provider>() };
        std::shared_ptr<yg::function::configurable_provider> fn { std::make_shared<yg::function::configurable_provider>() };
        std::shared_ptr<yg::aggregate::configurable_provider> ag { std::make_shared<yg::aggregate::configurable_provider>() };
    };
    std::string cur;
    S now;
    std::size_t ids = 0;
    std::map<std::string, std::shared_ptr<yg::function::declaration>> funcs;
    auto schema = [&](std::string const& n) {
        cur = n;
        now = S {};
        auto d = std::make_shared<yg::schema::declaration>(n, ++ids, now.st, now.va, now.fn, now.ag);
        c->decls[n] = d;
        c->schemas->add(d);
    };
    std::string tname, tdesc;
    takatori::util::reference_vector<yg::storage::column> cols;
    std::shared_ptr<yg::storage::table> last;
    auto flush = [&] {
        if (tname.empty()) return;
        last = std::make_shared<yg::storage::table>(std::optional<std::size_t> { ++ids }, tname, std::move(cols), std::string {});
        cols = {};
        now.st->add_table(last);
        table_names()[last.get()] = cur + "." + tname;
        tname.clear();
    };
    auto nn = [](std::string const& s) { return yg::variable::criteria { s == "notnull" ? ~yg::variable::nullable : yg::variable::nullable }; };
    auto col_of = [&](yg::storage::table const& t, std::string const& n) -> yg::storage::column const& {
        for (auto& e : t.columns()) if (e.simple_name() == n) return e;
        die("column " + n);
    };
    auto types = [&](std::string const& s) { std::vector<tp> r; for (auto& e : split(s, '|')) r.push_back(type(e)); return r; };
    for (auto& line : split(spec, '\n')) {
        if (line.empty()) continue;
        auto f = split(line, '\t');
        auto& k = f[0];
        if (k == "col") {
            yg::storage::column_value dv {};
            auto& d = f.at(4);
            if (d.rfind("imm:", 0) == 0) dv = yg::storage::column_value { value(d.substr(4)) };
            else if (d.rfind("func:", 0) == 0) dv = yg::storage::column_value { funcs.at(d.substr(5)) };
            else if (d.rfind("seq:", 0) == 0) dv = yg::storage::column_value { std::make_shared<yg::storage::sequence>(std::optional<std::size_t> { 1 }, d.substr(4), 1, 1, 1, 1000, true) };
            yg::storage::column_feature_set fs {};
            for (auto& x : split(f.at(5), ',')) {
                if (x == "hidden") fs.insert(yg::storage::column_feature::hidden);
                if (x == "synthesized") fs.insert(yg::storage::column_feature::synthesized);
                if (x == "read_only") fs.insert(yg::storage::column_feature::read_only);
            }
            cols.push_back(std::make_unique<yg::storage::column>(f.at(1), type(f.at(2)), nn(f.at(3)), dv, fs));
            continue;
        }
        flush();
        if (k == "schema") schema(f.at(1));
        else if (k == "table") tname = f.at(1);
        else if (k == "view") now.st->add_relation(std::make_shared<View>(f.at(1)));
        else if (k == "pk" || k == "index") {
            std::vector<yg::storage::index::key> keys;
            for (auto& x : split(f.at(2), ',')) {
                auto v = split(x, ':');
                keys.emplace_back(col_of(*last, v.at(0)), v.at(1) == "desc" ? takatori::relation::sort_direction::descendant : takatori::relation::sort_direction::ascendant);
            }
            using yg::storage::index_feature;
            yg::storage::index_feature_set fs { index_feature::find, index_feature::scan };
            if (k == "pk") { fs.insert(index_feature::primary); fs.insert(index_feature::unique); fs.insert(index_feature::unique_constraint); }
            std::vector<std::reference_wrapper<yg::storage::column const>> values;
            if (k == "pk") for (auto& e : last->columns()) {
                bool in = false;
                for (auto& x : keys) in = in || &x.column() == &e;
                if (!in) values.emplace_back(e);
            }
            auto i = std::make_shared<yg::storage::index>(std::optional<std::size_t> { ++ids }, last, f.at(1), std::move(keys), std::move(values), fs);
            table_names()[i.get()] = cur + "." + f.at(1);
            now.st->add_index(i);
        }
        else if (k == "func") {
            using yg::function::function_feature;
            auto d = std::make_shared<yg::function::declaration>(std::strtoull(f.at(1).c_str(), nullptr, 10), f.at(2), type(f.at(3)), types(f.at(4)),
                f.at(5) == "table" ? yg::function::function_feature_set { function_feature::table_valued_function } : yg::function::function_feature_set { function_feature::scalar_function });
            now.fn->add(d);
            funcs[f.at(2)] = d;
        }
        else if (k == "aggr") now.ag->add(std::make_shared<yg::aggregate::declaration>(std::strtoull(f.at(1).c_str(), nullptr, 10), f.at(2), type(f.at(3)), types(f.at(4))));
        else if (k == "var") { auto d = std::make_shared<yg::variable::declaration>(f.at(1), type(f.at(2)), nn(f.at(3))); variable_names()[d.get()] = cur + "." + f.at(1); now.va->add(d); }
        else if (k == "host") { auto d = std::make_shared<yg::variable::declaration>(f.at(1), type(f.at(2)), nn(f.at(3))); host_names()[d.get()] = f.at(1); c->hosts->add(d); }
        else if (k == "ph") c->placeholders.add(f.at(1), mizugaki::placeholder_entry { type(f.at(2)), value(f.at(3)) });
        else if (k == "path") { for (auto& e : split(f.size() > 1 ? f[1] : std::string {}, ',')) c->path->elements().emplace_back(c->decls.at(e)); }
        else if (k == "default") c->default_schema = f.at(1);
        else die(line);
    }
    flush();
    return c;
}
inline void apply_options(mizugaki::analyzer::sql_analyzer_options& o, std::map<std::string, std::string> const& q) {
    for (auto& [k, v] : q) {
        if (k.rfind("o.", 0) != 0) continue;
        auto n = k.substr(2);
        auto i = std::strtoll(v.c_str(), nullptr, 10);
#define B(name) if (n == #name) { o.name() = i != 0; continue; }
#define S(name) if (n == #name) { o.name() = static_cast<std::size_t>(i); continue; }
        B(lowercase_regular_identifiers) B(lowercase_variable_regular_identifiers) B(lowercase_function_regular_identifiers) B(lowercase_relation_regular_identifiers)
        B(lowercase_schema_regular_identifiers) B(lowercase_catalog_regular_identifiers)
        S(max_decimal_precision) S(max_binary_integer1_precision) S(max_binary_integer2_precision) S(max_binary_integer4_precision) S(max_binary_integer8_precision)
        S(max_binary_float4_precision) S(max_binary_float8_precision)
        B(allow_context_independent_null) B(prefer_write_statement) B(host_parameter_declaration_starts_with_colon)
        B(prefer_small_integer_literals) B(prefer_small_character_literals) B(prefer_small_binary_literals) B(prefer_small_decimal_literals)
        B(validate_scalar_expressions) B(cast_literals_in_context) B(default_sequence_cycle)
#undef B
#undef S
        if (n == "default_decimal_precision") { if (v == "*") o.default_decimal_precision() = std::nullopt; else o.default_decimal_precision() = static_cast<std::size_t>(i); continue; }
        if (n == "advance_sequence_function_name") { o.advance_sequence_function_name() = v; continue; }
        if (n == "system_zone_offset") { o.system_zone_offset() = mizugaki::analyzer::sql_analyzer_options::zone_offset_type { static_cast<std::int32_t>(i) }; continue; }
        die("option " + k);
    }
}
} // namespace vcat
