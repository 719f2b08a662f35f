// Concurrency harness (ThreadSanitizer): many threads use one const parser, shared documents and shared
// const syntax trees.  Results are compared with a sequential run made after the threads have ended, so
// that the threads meet every lazily initialized thing first.
#include "server.h"
#include "common.inc"
#include <atomic>
#include <cstdint>
#include <functional>
#include <sstream>
#include <thread>
#include <takatori/document/basic_document.h>
#include <takatori/util/clonable.h>
#include <mizugaki/ast/compilation_unit.h>
#include <mizugaki/ast/scalar/dispatch.h>
#include <mizugaki/ast/statement/dispatch.h>

using namespace mizugaki;
using namespace vsrv;

namespace {
struct Rng {
    std::uint64_t s;
    std::uint64_t next() { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s; }
    std::size_t below(std::size_t n) { return n ? next() % n : 0; }
};
bool rd(void* p, std::size_t n) { return std::fread(p, 1, n, stdin) == n; }
void jitter(Rng& r) {
    switch (r.below(6)) {
        case 0: std::this_thread::yield(); break;
        case 1: for (volatile int i = 0; i < 200; i = i + 1) {} break;
        case 2: std::this_thread::sleep_for(std::chrono::microseconds(r.below(60))); break;
        default: break;
    }
}
template<class F> void spawn(std::size_t n, F f) {
    std::atomic<std::size_t> ready { 0 };
    std::vector<std::thread> ts;
    for (std::size_t i = 0; i < n; ++i) {
        ts.emplace_back([&, i] {
            ++ready;
            while (ready.load() < n) {}
            f(i);
        });
    }
    for (auto& t : ts) t.join();
}
struct Visit {
    template<class T> std::size_t operator()(T const&) const { return sizeof(T); }
};
} // namespace

int main(int argc, char** argv) {
    std::size_t nt = argc > 1 ? std::strtoul(argv[1], nullptr, 10) : 4;
    std::uint64_t seed = argc > 2 ? std::strtoull(argv[2], nullptr, 10) : 1;
    std::size_t rounds = argc > 3 ? std::strtoul(argv[3], nullptr, 10) : 3;
    std::vector<std::string> texts;
    std::uint32_t n = 0;
    while (rd(&n, 4)) {
        std::string s(n, '\0');
        if (n && !rd(s.data(), n)) break;
        texts.push_back(std::move(s));
    }
    parser::sql_parser_options po {};
    po.max_expected_candidates() = 8;
    po.tree_node_limit() = 100000;
    parser::sql_parser const parser { std::move(po) };
    std::vector<std::shared_ptr<takatori::document::basic_document>> docs;
    for (auto& t : texts) docs.push_back(std::make_shared<takatori::document::basic_document>("L", t));

    std::atomic<std::size_t> parses { 0 }, clones { 0 }, compares { 0 }, prints { 0 }, pairs { 0 };
    std::vector<std::string> bad;
    // ---- phase 1: concurrent parsing, with the first use of everything
    std::vector<std::vector<std::pair<std::size_t, std::size_t>>> hashes(nt);
    std::vector<std::atomic<int>> busy(texts.size());
    spawn(nt, [&](std::size_t id) {
        Rng r { seed * 7919 + id * 104729 + 88172645463325252ULL };
        for (std::size_t k = 0; k < rounds * texts.size(); ++k) {
            auto i = r.below(texts.size());
            if (k < texts.size() && r.below(3)) i = k;      // often the same text at the same time
            jitter(r);
            if (busy[i]++ > 0) ++pairs;
            std::string s;
            if (r.below(2)) s = render(parser("L", texts[i]));
            else s = render(parser(takatori::util::maybe_shared_ptr<takatori::document::document const>(docs[i])));
            busy[i]--;
            ++parses;
            hashes[id].emplace_back(i, std::hash<std::string> {}(s));
        }
    });
    std::vector<std::size_t> base;
    std::vector<parser::sql_parser_result> results;
    for (auto& d : docs) {
        auto r = parser(takatori::util::maybe_shared_ptr<takatori::document::document const>(d));
        base.push_back(std::hash<std::string> {}(render(r)));
        results.push_back(std::move(r));
    }
    for (auto& h : hashes) for (auto& [i, v] : h) if (v != base[i]) bad.push_back("concurrent parsing gives another result: #" + std::to_string(i));

    // ---- phase 2: shared const trees
    std::vector<ast::compilation_unit const*> units;
    std::vector<std::string> dumps, jsons(texts.size());
    for (auto& r : results) if (r.has_value()) units.push_back(r.value().get());
    for (auto* u : units) { vdump::D d; vdump::put(d, u->statements()); dumps.push_back(d.s + d.r + d.d); }
    std::vector<std::vector<std::pair<std::size_t, std::size_t>>> js(nt);
    std::atomic<std::size_t> wrong { 0 };
    spawn(nt, [&](std::size_t id) {
        Rng r { seed * 15485863 + id * 32452843 + 88172645463325252ULL };
        for (std::size_t k = 0; k < rounds * units.size() && !units.empty(); ++k) {
            auto i = r.below(units.size());
            auto const& u = *units[i];
            jitter(r);
            switch (r.below(4)) {
                case 0: {
                    ast::compilation_unit c { takatori::util::clone_tag, u };
                    vdump::D d; vdump::put(d, c.statements());
                    if (d.s + d.r + d.d != dumps[i]) ++wrong;
                    ++clones;
                    break;
                }
                case 1: {
                    if (!(u == u)) ++wrong;
                    auto j = r.below(units.size());
                    bool e = u == *units[j];
                    (void) e;
                    ++compares;
                    break;
                }
                case 2: {
                    std::ostringstream os;
                    os << u;
                    js[id].emplace_back(i, std::hash<std::string> {}(os.str()));
                    ++prints;
                    break;
                }
                case 3: {
                    for (auto& s : u.statements()) {
                        auto c = takatori::util::clone_unique(*s);
                        if (!(*c == *s)) ++wrong;
                        std::ostringstream os;
                        os << s->node_kind() << s->region().begin;
                        (void) ast::statement::dispatch(Visit {}, *s);
                    }
                    ++clones;
                    break;
                }
            }
        }
    });
    for (auto& h : js) for (auto& [i, v] : h) {
        std::ostringstream os;
        os << *units[i];
        if (std::hash<std::string> {}(os.str()) != v) bad.push_back("concurrent serialization gives another result: #" + std::to_string(i));
    }
    if (wrong) bad.push_back("concurrent clone or comparison gives another result: " + std::to_string(wrong));
    for (std::size_t i = 0; i < units.size(); ++i) {
        vdump::D d; vdump::put(d, units[i]->statements());
        if (d.s + d.r + d.d != dumps[i]) bad.push_back("a shared tree was changed: #" + std::to_string(i));
    }
    std::printf("%zu %zu %zu %zu %zu %zu\n", parses.load(), clones.load(), compares.load(), prints.load(), pairs.load(), units.size());
    for (std::size_t i = 0; i < bad.size() && i < 20; ++i) std::printf("BAD %s\n", bad[i].c_str());
    return 0;
}
