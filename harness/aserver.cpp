// Harness server for the analyzer: runs the real analyzer over the stand-ins of its external libraries, under
// sanitizers, and writes its results as JSON.  Requests and replies are framed as in server.cpp.
#include "ast_includes.h"
#include "server.h"
#include "common.inc"
#include "json.inc"
#include "catalog.inc"
#include "plan_dump.inc"
#include <cstdint>
#include <sstream>
#include <unordered_map>
#include <takatori/document/basic_document.h>
#include <mizugaki/analyzer/sql_analyzer.h>
#include "mizugaki/analyzer/details/analyze_statement.h"
#include "mizugaki/analyzer/details/analyzer_context.h"

using namespace mizugaki;
using namespace vsrv;

static bool rd(void* p, std::size_t n) { return std::fread(p, 1, n, stdin) == n; }

static std::map<std::string, std::shared_ptr<vcat::Catalog>> g_catalogs;

static std::string ast_of(ast::compilation_unit const& u) {
    std::string s;
    vdump::D d { s };
    for (auto& st : u.statements()) { vdump::put_node(d, *st); s += ';'; }
    return s;
}
#include "ahost.inc"
// body: catalog lines, a line "%%", SQL text
static std::string cmd_analyze(Request const& q) {
    auto at = q.body.find("%%\n");
    auto spec = q.body.substr(0, at);
    auto sql = q.body.substr(at + 3);
    auto& cat = g_catalogs[spec];
    if (!cat) {
        if (g_catalogs.size() > 64) {
            g_catalogs.clear();
            // their addresses will be used again
            vcat::table_names().clear();
            vcat::variable_names().clear();
            vcat::host_names().clear();
            return cmd_analyze(q);
        }
        cat = vcat::load(spec);
    }
    auto options = cat->options();
    vcat::apply_options(options, q.opts);
    parser::sql_parser p { parser_options(q.opts) };
    auto parsed = p("L", sql);
    if (!parsed.has_value()) {
        auto& d = parsed.diagnostic();
        std::ostringstream os;
        os << "NOPARSE " << d.code() << " " << d.message();
        return os.str();
    }
    auto& unit = *parsed.value();
    auto before = ast_of(unit);
    auto run = [&](analyzer::sql_analyzer& a) {
        std::vector<std::string> res;
        for (auto& st : unit.statements()) {
            auto r = a(options, *st, unit, cat->placeholders, takatori::util::optional_ptr<yugawara::variable::provider const> { *cat->hosts });
            res.push_back(vplan::dump_result(r));
        }
        return res;
    };
    std::vector<std::string> r1;
    {
        analyzer::sql_analyzer a {};
        r1 = run(a);
        if (num(q.opts, "again", 1)) {
            // the results must not depend on the addresses of expressions
            using reuse = takatori::scalar::address_reuse;
            reuse::set(reuse::mode::last);
            auto r2 = run(a);
            reuse::set(reuse::mode::random);
            analyzer::sql_analyzer b {};
            auto r3 = run(b);
            reuse::set(reuse::mode::off);
            if (r1 != r2 || r1 != r3) {
                std::string s { "DIFFER" };
                for (auto* v : { &r1, &r2, &r3 }) for (auto& x : *v) { s += '\0'; s += x; }
                return s;
            }
        }
    }
    if (num(q.opts, "entry", 0)) {
        // both entry points, and without the text
        using src = takatori::util::optional_ptr<takatori::document::document const>;
        using hst = takatori::util::optional_ptr<yugawara::variable::provider const>;
        analyzer::sql_analyzer a {};
        std::string out { "ENTRY" };
        std::vector<std::string> v[5];
        analyzer::sql_analyzer b { std::move(a) };
        for (auto& st : unit.statements()) {
            v[0].push_back(vplan::dump_result(b(options, *st, unit, cat->placeholders, hst { *cat->hosts })));
            v[1].push_back(vplan::dump_result(b(options, *st, src { unit.document().get() }, unit.comments(), cat->placeholders, hst { *cat->hosts })));
            v[2].push_back(vplan::dump_result(b(options, *st, src {}, {}, cat->placeholders, hst { *cat->hosts })));
            v[3].push_back(vplan::dump_result(b(options, *st, unit)));
            v[4].push_back(vplan::dump_result(b(options, *st)));
        }
        out += '\0' + std::to_string(unit.statements().size());
        for (auto& w : v) for (auto& s : w) { out += '\0'; out += s; }
        return out;
    }
    if (num(q.opts, "again", 1)) {
        // the results must not depend on the analyzer, the syntax tree, nor the options
        analyzer::sql_analyzer a {};
        std::vector<analyzer::sql_analyzer_result> keep;
        {
            auto parsed2 = p("L", sql);
            auto opts2 = std::make_unique<analyzer::sql_analyzer_options>(options);
            for (auto& st : parsed2.value()->statements())
                keep.push_back(a(*opts2, *st, *parsed2.value(), cat->placeholders, takatori::util::optional_ptr<yugawara::variable::provider const> { *cat->hosts }));
        }
        a = analyzer::sql_analyzer {};
        for (std::size_t i = 0; i < keep.size(); ++i) {
            auto s = vplan::dump_result(keep[i]);
            if (s != r1[i]) return std::string("OUTLIVE\0", 8) + r1[i] + std::string("\0", 1) + s;
        }
    }
    if (before != ast_of(unit)) return std::string("MODIFIED\0", 9) + before + std::string("\0", 1) + ast_of(unit);
    std::string out { "OK" };
    out += '\0';
    out += std::to_string(unit.statements().size());
    for (auto& s : r1) { out += '\0'; out += s; }
    // diagnostics which are reported although a result was given
    if (num(q.opts, "dropped", 1)) {
        for (auto& st : unit.statements()) {
            analyzer::details::analyzer_context ctx;
            auto fin = ctx.initialize(options, takatori::util::optional_ptr<takatori::document::document const> { unit.document().get() }, unit.comments(), cat->placeholders,
                                      takatori::util::optional_ptr<yugawara::variable::provider const> { *cat->hosts });
            auto r = analyzer::details::analyze_statement(ctx, *st);
            vjson::W w;
            w.arr();
            if (!std::holds_alternative<analyzer::details::erroneous_result_type>(r)) for (auto& d : ctx.diagnostics()) vplan::dump_diag(w, d);
            w.end();
            out += '\0';
            out += w.s;
        }
    }
    return out;
}

int main() {
    std::setvbuf(stdin, nullptr, _IOFBF, 1 << 20);
    while (true) {
        std::uint32_t n = 0;
        if (!rd(&n, 4)) return 0;
        std::string buf(n, '\0');
        if (n && !rd(buf.data(), n)) return 0;
        Request q;
        auto nl = buf.find('\n');
        std::string head = buf.substr(0, nl);
        q.body = buf.substr(nl + 1);
        std::size_t i = 0;
        while (i < head.size()) {
            auto sp = head.find(' ', i);
            if (sp == head.npos) sp = head.size();
            auto eq = head.find('=', i);
            q.opts[head.substr(i, eq - i)] = head.substr(eq + 1, sp - eq - 1);
            i = sp + 1;
        }
        std::string out;
        auto cmd = str(q.opts, "cmd", "analyze");
        if (cmd == "quit") std::_Exit(0);
        out = cmd == "host" ? vhost::run(q.body.substr(0, q.body.find("%%\n")), num(q.opts, "seed", 1)) : cmd_analyze(q);
        std::uint32_t m = static_cast<std::uint32_t>(out.size());
        std::fwrite(&m, 1, 4, stdout);
        std::fwrite(out.data(), 1, out.size(), stdout);
        std::fflush(stdout);
    }
}
