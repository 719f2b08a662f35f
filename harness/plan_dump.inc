// writes analysis results as JSON, only through the public accessors of the result
#include <takatori/relation/graph.h>
#include <takatori/relation/scan.h>
#include <takatori/relation/intermediate/join.h>
#include <takatori/statement/statement.h>
#include <takatori/statement/write.h>
#include <yugawara/binding/factory.h>
#include <yugawara/extension/relation/subquery.h>
#include <yugawara/extension/scalar/subquery.h>
#include <mizugaki/analyzer/sql_analyzer_result.h>
namespace vplan {
namespace tr = ::takatori::relation;
namespace ts = ::takatori::scalar;
namespace st = ::takatori::statement;
namespace td = ::takatori::descriptor;
namespace yb = ::yugawara::binding;
namespace yx = ::yugawara::extension;
using vjson::W;
using vcat::show;

inline std::string table_name(::yugawara::storage::relation const& t) {
    auto i = vcat::table_names().find(&t);
    return i == vcat::table_names().end() ? "new." + std::string(t.simple_name()) : i->second;
}
struct P {
    W& w;
    std::unordered_map<td::variable, std::size_t> ids {};
    std::map<tr::expression const*, std::size_t> ops {};

    void region(::takatori::document::region const& r) {
        if (!r) { w.null(); return; }
        w.arr().n(static_cast<long long>(r.begin())).n(static_cast<long long>(r.end())).end();
    }
    std::string var(td::variable const& v) {
        if (!v) return "!";
        switch (yb::kind_of(v)) {
            case yb::variable_info_kind::table_column: {
                auto& c = yb::extract<::yugawara::storage::column>(v);
                return "c:" + (c.optional_owner() ? table_name(c.owner()) : std::string("?")) + "." + std::string(c.simple_name());
            }
            case yb::variable_info_kind::external_variable: {
                auto& d = yb::extract<::yugawara::variable::declaration>(v);
                if (auto v = vcat::variable_names().find(&d); v != vcat::variable_names().end()) return "x:" + v->second;
                return (vcat::host_names().count(&d) ? "h:" : "x:") + std::string(d.name());
            }
            default: {
                auto [i, ok] = ids.emplace(v, ids.size());
                auto kind = yb::kind_of(v) == yb::variable_info_kind::stream_variable ? "s" : yb::kind_of(v) == yb::variable_info_kind::local_variable ? "l" : "f";
                return kind + std::to_string(i->second);
            }
        }
    }
    void vars(std::vector<td::variable> const& v) { w.arr(); for (auto& x : v) w.v(var(x)); w.end(); }
    void fn(td::function const& f) { auto& d = yb::extract(f); w.v(std::string(d.name()) + "#" + std::to_string(d.definition_id())); }
    void fn(td::aggregate_function const& f) { auto& d = yb::extract(f); w.v(std::string(d.name()) + "#" + std::to_string(d.definition_id())); }
    template<class L> void list(L const& l) { w.arr(); for (auto& e : l) scalar(e); w.end(); }
    template<class M> void maps(M const& m) {
        w.arr();
        for (auto& e : m) { w.arr().v(var(e.source())).v(var(e.destination())).end(); }
        w.end();
    }
    template<class S> std::string str(S const& s) { std::ostringstream o; o << s; return o.str(); }
    void opt(::takatori::util::optional_ptr<ts::expression const> e) { if (e) scalar(*e); else w.null(); }

    // [kind, region, ...]
    void scalar(ts::expression const& e) {
        using k = ts::expression_kind;
        w.arr();
        auto head = [&](std::string_view n) { w.v(n); region(e.region()); };
        switch (e.kind()) {
            case k::immediate: { auto& x = static_cast<ts::immediate const&>(e); head("imm"); w.v(show(x.value())).v(show(x.type())); break; }
            case k::variable_reference: head("var"); w.v(var(static_cast<ts::variable_reference const&>(e).variable())); break;
            case k::unary: { auto& x = static_cast<ts::unary const&>(e); head("un"); w.v(ts::to_string_view(x.operator_kind())); opt(x.optional_operand()); break; }
            case k::cast: { auto& x = static_cast<ts::cast const&>(e); head("cast"); w.v(show(x.type())).v(ts::to_string_view(x.loss_policy())); opt(x.optional_operand()); break; }
            case k::binary: { auto& x = static_cast<ts::binary const&>(e); head("bin"); w.v(ts::to_string_view(x.operator_kind())); opt(x.optional_left()); opt(x.optional_right()); break; }
            case k::compare: { auto& x = static_cast<ts::compare const&>(e); head("cmp"); w.v(ts::to_string_view(x.operator_kind())); opt(x.optional_left()); opt(x.optional_right()); break; }
            case k::match: { auto& x = static_cast<ts::match const&>(e); head("match"); w.v(ts::to_string_view(x.operator_kind())); opt(x.optional_input()); opt(x.optional_pattern()); opt(x.optional_escape()); break; }
            case k::conditional: {
                auto& x = static_cast<ts::conditional const&>(e);
                head("if");
                w.arr();
                for (auto& a : x.alternatives()) { w.arr(); opt(a.optional_condition()); opt(a.optional_body()); w.end(); }
                w.end();
                opt(x.default_expression());
                break;
            }
            case k::coalesce: head("coalesce"); list(static_cast<ts::coalesce const&>(e).alternatives()); break;
            case k::let: {
                auto& x = static_cast<ts::let const&>(e);
                head("let");
                w.arr();
                for (auto& a : x.variables()) { w.arr().v(var(a.variable())); opt(a.optional_value()); w.end(); }
                w.end();
                opt(x.optional_body());
                break;
            }
            case k::function_call: { auto& x = static_cast<ts::function_call const&>(e); head("call"); fn(x.function()); list(x.arguments()); break; }
            case k::extension: {
                auto& x = static_cast<ts::extension const&>(e);
                switch (x.extension_id()) {
                    case yx::scalar::aggregate_function_call::extension_tag: {
                        auto& y = static_cast<yx::scalar::aggregate_function_call const&>(x);
                        head("aggcall"); fn(y.function()); list(y.arguments());
                        break;
                    }
                    case yx::scalar::subquery::extension_tag: {
                        auto& y = static_cast<yx::scalar::subquery const&>(x);
                        head("subquery"); nested(y.query_graph(), y.find_output_port()); w.v(var(y.output_column())); maps(y.parameters());
                        break;
                    }
                    case yx::scalar::exists::extension_tag: {
                        auto& y = static_cast<yx::scalar::exists const&>(x);
                        head("exists"); nested(y.query_graph(), y.find_output_port()); maps(y.parameters());
                        break;
                    }
                    case yx::scalar::quantified_compare::extension_tag: {
                        auto& y = static_cast<yx::scalar::quantified_compare const&>(x);
                        head("qcmp"); w.v(ts::to_string_view(y.operator_kind())).v(ts::to_string_view(y.quantifier())); opt(y.optional_left());
                        nested(y.query_graph(), y.find_output_port()); w.v(var(y.right_column())); maps(y.parameters());
                        break;
                    }
                    default: head("unknown");
                }
                break;
            }
        }
        w.end();
    }
    void nested(tr::graph const& g, ::takatori::util::optional_ptr<tr::output_port const> out) {
        w.obj();
        w.key("graph");
        graph(g);
        w.key("out");
        if (out) w.n(static_cast<long long>(ops.at(&out->owner()))); else w.null();
        w.end();
    }
    void graph(tr::graph const& g) {
        for (auto& e : g) ops.emplace(&e, ops.size());
        w.arr();
        for (auto& e : g) op(e, g);
        w.end();
    }
    void op(tr::expression const& e, tr::graph const& g) {
        using k = tr::expression_kind;
        w.obj();
        w.key("id").n(static_cast<long long>(ops.at(&e)));
        w.key("k").v(str(e.kind()));
        w.key("r"); region(e.region());
        w.key("in").arr();
        for (auto& p : e.input_ports()) {
            auto o = p.opposite();
            if (!o) { w.n(-1); continue; }
            if (!g.contains(o->owner())) { w.n(-2); continue; }
            w.n(static_cast<long long>(ops.at(&o->owner())));
        }
        w.end();
        w.key("nout").n(static_cast<long long>(e.output_ports().size()));
        w.key("outs").arr();
        for (auto& p : e.output_ports()) {
            auto o = p.opposite();
            if (!o) { w.n(-1); continue; }
            if (!g.contains(o->owner())) { w.n(-2); continue; }
            w.n(static_cast<long long>(ops.at(&o->owner())));
        }
        w.end();
        switch (e.kind()) {
            case k::scan: {
                auto& x = static_cast<tr::scan const&>(e);
                auto& i = yb::extract<::yugawara::storage::index>(x.source());
                w.key("src").v(table_name(i.table()));
                w.key("primary").b(i.features().contains(::yugawara::storage::index_feature::primary));
                w.key("cols"); maps(x.columns());
                w.key("plain").b(!x.lower() && !x.upper() && !x.limit());
                break;
            }
            case k::values: {
                auto& x = static_cast<tr::values const&>(e);
                w.key("cols"); vars(x.columns());
                w.key("rows").arr();
                for (auto& r : x.rows()) list(r.elements());
                w.end();
                break;
            }
            case k::apply: {
                auto& x = static_cast<tr::apply const&>(e);
                w.key("kind").v(str(x.operator_kind()));
                w.key("fn"); fn(x.function());
                w.key("args"); list(x.arguments());
                w.key("cols").arr();
                for (auto& c : x.columns()) w.arr().n(static_cast<long long>(c.position())).v(var(c.variable())).end();
                w.end();
                break;
            }
            case k::project: {
                auto& x = static_cast<tr::project const&>(e);
                w.key("cols").arr();
                for (auto& c : x.columns()) { w.arr().v(var(c.variable())); opt(c.optional_value()); w.end(); }
                w.end();
                break;
            }
            case k::filter: w.key("cond"); opt(static_cast<tr::filter const&>(e).optional_condition()); break;
            case k::emit: {
                w.key("cols").arr();
                for (auto& c : static_cast<tr::emit const&>(e).columns()) {
                    w.arr().v(var(c.source()));
                    if (c.name()) w.v(*c.name()); else w.null();
                    w.end();
                }
                w.end();
                break;
            }
            case k::write: {
                auto& x = static_cast<tr::write const&>(e);
                w.key("kind").v(str(x.operator_kind()));
                w.key("dst"); storage(x.destination());
                w.key("keys"); maps(x.keys());
                w.key("cols"); maps(x.columns());
                break;
            }
            case k::intermediate_join: {
                auto& x = static_cast<tr::intermediate::join const&>(e);
                w.key("kind").v(str(x.operator_kind()));
                w.key("cond"); opt(x.condition());
                break;
            }
            case k::intermediate_aggregate: {
                auto& x = static_cast<tr::intermediate::aggregate const&>(e);
                w.key("keys"); vars(x.group_keys());
                w.key("cols").arr();
                for (auto& c : x.columns()) { w.arr(); fn(c.function()); vars(c.arguments()); w.v(var(c.destination())).end(); }
                w.end();
                break;
            }
            case k::intermediate_distinct: w.key("keys"); vars(static_cast<tr::intermediate::distinct const&>(e).group_keys()); break;
            case k::intermediate_limit: {
                auto& x = static_cast<tr::intermediate::limit const&>(e);
                w.key("count");
                if (x.count()) w.n(static_cast<long long>(*x.count())); else w.null();
                w.key("keys"); vars(x.group_keys());
                w.key("sort").arr();
                for (auto& s : x.sort_keys()) w.arr().v(var(s.variable())).v(str(s.direction())).end();
                w.end();
                break;
            }
            case k::intermediate_union: {
                auto& x = static_cast<tr::intermediate::union_ const&>(e);
                w.key("q").v(str(x.quantifier()));
                w.key("maps").arr();
                for (auto& m : x.mappings()) {
                    w.arr();
                    if (m.left()) w.v(var(*m.left())); else w.null();
                    if (m.right()) w.v(var(*m.right())); else w.null();
                    w.v(var(m.destination())).end();
                }
                w.end();
                break;
            }
            case k::intermediate_intersection: setop(static_cast<tr::intermediate::intersection const&>(e)); break;
            case k::intermediate_difference: setop(static_cast<tr::intermediate::difference const&>(e)); break;
            case k::intermediate_extension: {
                auto& x = static_cast<yx::relation::subquery const&>(e);
                w.key("sub"); nested(x.query_graph(), x.find_output_port());
                w.key("maps"); maps(x.mappings());
                w.key("clone").b(x.is_clone());
                break;
            }
            default: break;
        }
        w.end();
    }
    template<class T> void setop(T const& x) {
        w.key("q").v(str(x.quantifier()));
        w.key("pairs").arr();
        for (auto& m : x.group_key_pairs()) w.arr().v(var(m.left())).v(var(m.right())).end();
        w.end();
    }
    void storage(td::storage const& s) {
        if (auto t = yb::extract_if<::yugawara::storage::table>(s)) { w.v("t:" + table_name(*t)); return; }
        if (auto i = yb::extract_if<::yugawara::storage::index>(s)) {
            auto n = vcat::table_names().find(&*i);
            w.v("i:" + (n == vcat::table_names().end() ? "new." + std::string(i->simple_name()) : n->second) + "@" + table_name(i->table()));
            return;
        }
        w.v("?");
    }
    void index(::yugawara::storage::index const& i) {
        w.obj();
        w.key("name").v(i.simple_name());
        w.key("table").v(table_name(i.table()));
        w.key("id").b(i.definition_id().has_value());
        w.key("keys").arr();
        for (auto& k : i.keys()) {
            bool own = false;
            for (auto& c : i.table().columns()) own = own || &c == &k.column();
            w.arr().v(k.column().simple_name()).v(str(k.direction())).b(own).end();
        }
        w.end();
        w.key("values").arr();
        for (auto& c : i.values()) w.v(c.get().simple_name());
        w.end();
        w.key("features").arr();
        for (auto f : { ::yugawara::storage::index_feature::primary, ::yugawara::storage::index_feature::find, ::yugawara::storage::index_feature::scan, ::yugawara::storage::index_feature::unique, ::yugawara::storage::index_feature::unique_constraint })
            if (i.features().contains(f)) w.v(str(f));
        w.end();
        w.key("desc").v(i.description());
        w.end();
    }
    void table(::yugawara::storage::table const& t) {
        w.obj();
        w.key("name").v(t.simple_name());
        w.key("id").b(t.definition_id().has_value());
        w.key("desc").v(t.description());
        w.key("cols").arr();
        for (auto& c : t.columns()) {
            w.obj();
            w.key("name").v(c.simple_name());
            w.key("type").v(show(c.type()));
            w.key("nullable").b(c.criteria().nullity().nullable());
            w.key("desc").v(c.description());
            w.key("features").arr();
            using f = ::yugawara::storage::column_feature;
            if (c.features().contains(f::hidden)) w.v("hidden");
            if (c.features().contains(f::synthesized)) w.v("synthesized");
            if (c.features().contains(f::read_only)) w.v("read_only");
            w.end();
            w.key("default");
            using dk = ::yugawara::storage::column_value_kind;
            auto& d = c.default_value();
            w.arr();
            switch (d.kind()) {
                case dk::nothing: break;
                case dk::immediate: w.v("imm").v(show(*d.element<dk::immediate>())); break;
                case dk::function: { auto p = d.element<dk::function>(); w.v("func").v(std::string(p->name()) + "#" + std::to_string(p->definition_id())); break; }
                case dk::sequence: {
                    auto p = d.element<dk::sequence>();
                    w.v("seq").v(p->simple_name()).n(p->initial_value()).n(p->increment_value()).v(std::to_string(p->min_value())).v(std::to_string(p->max_value())).b(p->cycle()).b(p->definition_id().has_value());
                    break;
                }
            }
            w.end();
            w.end();
        }
        w.end();
        w.end();
    }
    void statement(st::statement const& s) {
        using k = st::statement_kind;
        w.obj();
        w.key("k").v(st::to_string_view(s.kind()));
        w.key("r"); region(s.region());
        auto schema = [&](td::schema const& d) { w.key("schema").v(yb::extract(d).name()); };
        switch (s.kind()) {
            case k::write: {
                auto& x = static_cast<st::write const&>(s);
                w.key("kind").v(str(x.operator_kind()));
                w.key("dst"); storage(x.destination());
                w.key("cols"); vars(x.columns());
                w.key("rows").arr();
                for (auto& r : x.tuples()) list(r.elements());
                w.end();
                break;
            }
            case k::create_table: {
                auto& x = static_cast<st::create_table const&>(s);
                schema(x.schema());
                w.key("table"); table(yb::extract<::yugawara::storage::table>(x.definition()));
                w.key("pk"); index(yb::extract<::yugawara::storage::index>(x.primary_key()));
                break;
            }
            case k::create_index: {
                auto& x = static_cast<st::create_index const&>(s);
                schema(x.schema());
                w.key("index"); index(yb::extract<::yugawara::storage::index>(x.definition()));
                break;
            }
            case k::drop_table: { auto& x = static_cast<st::drop_table const&>(s); schema(x.schema()); w.key("target"); storage(x.target()); break; }
            case k::drop_index: { auto& x = static_cast<st::drop_index const&>(s); schema(x.schema()); w.key("target"); storage(x.target()); break; }
            case k::rename_table: { auto& x = static_cast<st::rename_table const&>(s); schema(x.schema()); w.key("target"); storage(x.target()); w.key("to").v(x.replacement()); break; }
            case k::rename_index: { auto& x = static_cast<st::rename_index const&>(s); schema(x.schema()); w.key("target"); storage(x.target()); w.key("to").v(x.replacement()); break; }
            case k::rename_column: { auto& x = static_cast<st::rename_column const&>(s); w.key("table"); storage(x.table()); w.key("target").v(var(x.target())); w.key("to").v(x.replacement()); break; }
            case k::truncate_table: {
                auto& x = static_cast<st::truncate_table const&>(s);
                w.key("target"); storage(x.target());
                w.key("restart").b(x.options().contains(st::truncate_table_option_kind::restart_identity));
                break;
            }
            case k::grant_table: privilege(static_cast<st::grant_table const&>(s)); break;
            case k::revoke_table: privilege(static_cast<st::revoke_table const&>(s)); break;
            default: break;
        }
        w.end();
    }
    template<class T> void privilege(T const& x) {
        w.key("elements").arr();
        for (auto& e : x.elements()) {
            w.obj();
            w.key("table"); storage(e.table());
            w.key("default").arr(); for (auto& p : e.default_privileges()) w.v(str(p.action_kind())); w.end();
            w.key("entries").arr();
            for (auto& a : e.authorization_entries()) {
                w.arr().v(str(a.user_kind())).v(a.authorization_identifier()).arr();
                for (auto& p : a.privileges()) w.v(str(p.action_kind()));
                w.end().end();
            }
            w.end();
            w.end();
        }
        w.end();
    }
};
template<class D> void dump_diag(W& w, D const& d) {
    std::ostringstream os;
    os << d.code();
    w.arr().v(os.str()).v(d.message());
    if (d.location()) w.n(static_cast<long long>(d.location().begin())).n(static_cast<long long>(d.location().end()));
    else w.null().null();
    w.end();
}
inline std::string dump_result(::mizugaki::analyzer::sql_analyzer_result const& r) {
    using rk = ::mizugaki::analyzer::sql_analyzer_result_kind;
    W w;
    w.obj();
    P p { w };
    w.key("valid").b(r.is_valid());
    switch (r.kind()) {
        case rk::diagnostics:
            w.key("kind").v("diagnostics");
            w.key("diags").arr();
            for (auto& d : r.element<rk::diagnostics>()) dump_diag(w, d);
            w.end();
            break;
        case rk::execution_plan:
            w.key("kind").v("plan");
            w.key("graph");
            p.graph(r.element<rk::execution_plan>());
            break;
        case rk::statement:
            w.key("kind").v("statement");
            w.key("st");
            p.statement(r.element<rk::statement>());
            break;
        default: w.key("kind").v("bad");
    }
    w.end();
    return w.s;
}
} // namespace vplan
