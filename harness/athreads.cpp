// Concurrency and history harness of the analyzer (ThreadSanitizer): threads with an analyzer each share catalogs,
// options, parameters and const syntax trees, and send their analyzer through long and different histories of statements.
// Every result is compared with the one a fresh analyzer gives alone, after the threads have ended, so that the threads
// meet every lazily initialized thing first.
#include "ast_includes.h"
#include "server.h"
#include "common.inc"
#include "json.inc"
#include "catalog.inc"
#include "plan_dump.inc"
#include <atomic>
#include <cstdint>
#include <mutex>
#include <thread>
#include <takatori/document/basic_document.h>
#include <mizugaki/analyzer/sql_analyzer.h>

using namespace mizugaki;
using namespace vsrv;

namespace {
struct Rng {
    std::uint64_t s;
    std::uint64_t next() { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s; }
    std::size_t below(std::size_t n) { return n ? next() % n : 0; }
};
bool rd(void* p, std::size_t n) { return std::fread(p, 1, n, stdin) == n; }
void jitter(Rng& r) {
    switch (r.below(6)) {
        case 0: std::this_thread::yield(); break;
        case 1: for (volatile int i = 0; i < 200; i = i + 1) {} break;
        case 2: std::this_thread::sleep_for(std::chrono::microseconds(r.below(60))); break;
        default: break;
    }
}
template<class F> void spawn(std::size_t n, F f) {
    std::atomic<std::size_t> ready { 0 };
    std::vector<std::thread> ts;
    for (std::size_t i = 0; i < n; ++i) {
        ts.emplace_back([&, i] {
            ++ready;
            while (ready.load() < n) {}
            f(i);
        });
    }
    for (auto& t : ts) t.join();
}
using hosts_t = takatori::util::optional_ptr<yugawara::variable::provider const>;
struct Job {
    std::shared_ptr<vcat::Catalog> cat;
    std::unique_ptr<analyzer::sql_analyzer_options const> options;
    parser::sql_parser_result parsed;
    std::string before;
    std::size_t statement;
    ast::compilation_unit const& unit() const { return *parsed.value(); }
    analyzer::sql_analyzer_result run(analyzer::sql_analyzer& a) const {
        return a(*options, *unit().statements()[statement], unit(), cat->placeholders, hosts_t { *cat->hosts });
    }
};
} // namespace

int main(int argc, char** argv) {
    std::size_t nt = argc > 1 ? std::strtoul(argv[1], nullptr, 10) : 4;
    std::uint64_t seed = argc > 2 ? std::strtoull(argv[2], nullptr, 10) : 1;
    std::size_t rounds = argc > 3 ? std::strtoul(argv[3], nullptr, 10) : 3;
    std::vector<Job> jobs;
    std::map<std::string, std::shared_ptr<vcat::Catalog>> catalogs;
    std::uint32_t n = 0;
    while (rd(&n, 4)) {
        std::string s(n, '\0');
        if (n && !rd(s.data(), n)) break;
        opts_t q;
        auto nl = s.find('\n');
        std::string head = s.substr(0, nl);
        for (std::size_t i = 0; i < head.size();) {
            auto sp = head.find(' ', i);
            if (sp == head.npos) sp = head.size();
            auto eq = head.find('=', i);
            q[head.substr(i, eq - i)] = head.substr(eq + 1, sp - eq - 1);
            i = sp + 1;
        }
        auto body = s.substr(nl + 1);
        auto at = body.find("%%\n");
        auto spec = body.substr(0, at);
        auto& cat = catalogs[spec];
        if (!cat) cat = vcat::load(spec);
        auto o = std::make_unique<analyzer::sql_analyzer_options>(cat->options());
        vcat::apply_options(*o, q);
        parser::sql_parser p { parser_options(q) };
        auto parsed = p("L", body.substr(at + 3));
        if (!parsed.has_value() || parsed.value()->statements().empty()) continue;
        std::string before;
        vdump::D d;
        vdump::put(d, parsed.value()->statements());
        before = d.s + d.r + d.d;
        Job j { cat, std::move(o), std::move(parsed), std::move(before), 0 };
        j.statement = Rng { seed + jobs.size() + 77777 }.below(j.unit().statements().size());
        jobs.push_back(std::move(j));
    }
    std::atomic<std::size_t> runs { 0 }, together { 0 }, moved { 0 }, elsewhere { 0 };
    std::vector<std::string> bad;
    std::vector<std::vector<std::pair<std::size_t, std::string>>> got(nt);
    std::vector<std::atomic<int>> busy(jobs.size());
    std::mutex m;
    std::vector<std::pair<std::size_t, analyzer::sql_analyzer_result>> pool;      // results handed to another thread
    if (!jobs.empty()) spawn(nt, [&](std::size_t id) {
        Rng r { seed * 7919 + id * 104729 + 88172645463325252ULL };
        analyzer::sql_analyzer a {};
        for (std::size_t k = 0; k < rounds * jobs.size(); ++k) {
            auto i = r.below(jobs.size());
            if (k < jobs.size() && r.below(3)) i = k;      // often the same statement at the same time
            jitter(r);
            if (busy[i]++ > 0) ++together;
            using reuse = takatori::scalar::address_reuse;
            if (r.below(2)) reuse::set(static_cast<reuse::mode>(r.below(3)));
            auto x = jobs[i].run(a);
            busy[i]--;
            ++runs;
            switch (r.below(8)) {
                case 0: {
                    analyzer::sql_analyzer b { std::move(a) };
                    a = std::move(b);
                    ++moved;
                    break;
                }
                case 1: a = analyzer::sql_analyzer {}; break;
                case 2: {
                    std::optional<std::pair<std::size_t, analyzer::sql_analyzer_result>> other { std::in_place, i, std::move(x) };
                    {
                        std::lock_guard<std::mutex> g { m };
                        if (pool.size() < 2 * nt) {
                            pool.emplace_back(std::move(*other));
                            other.reset();
                        } else {
                            std::swap(pool[r.below(pool.size())], *other);
                        }
                    }
                    if (other) {
                        got[id].emplace_back(other->first, vplan::dump_result(other->second));
                        ++elsewhere;
                    }
                    continue;
                }
                default: break;
            }
            got[id].emplace_back(i, vplan::dump_result(x));
        }
        takatori::scalar::address_reuse::set(takatori::scalar::address_reuse::mode::off);
    });
    std::size_t valid = 0;
    std::vector<std::string> base;
    for (auto& j : jobs) {
        analyzer::sql_analyzer a {};
        auto x = j.run(a);
        valid += x.is_valid() ? 1 : 0;
        base.push_back(vplan::dump_result(x));
        vdump::D d;
        vdump::put(d, j.unit().statements());
        if (d.s + d.r + d.d != j.before) bad.push_back("a shared tree was changed: #" + std::to_string(base.size() - 1));
    }
    for (auto& [i, x] : pool) got[0].emplace_back(i, vplan::dump_result(x));
    for (auto& h : got) for (auto& [i, v] : h) if (v != base[i]) bad.push_back("#" + std::to_string(i) + " gives another result in a history: " + v.substr(0, 600) + " instead of " + base[i].substr(0, 600));
    std::printf("%zu %zu %zu %zu %zu %zu\n", runs.load(), together.load(), moved.load(), elsewhere.load(), jobs.size(), valid);
    for (std::size_t i = 0; i < bad.size() && i < 20; ++i) std::printf("BAD %s\n", bad[i].c_str());
    return 0;
}
