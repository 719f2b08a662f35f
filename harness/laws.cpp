// Algebraic laws of the syntax tree: clone, equality.  All oracles are independent of the code under
// test: two trees are the same exactly when the harness' own dumps of them are the same.
#include "server.h"
#include <algorithm>
#include <functional>
#include <set>
#include <sstream>
#include <unordered_set>
#include <takatori/util/clonable.h>

namespace vsrv {
using namespace mizugaki;
namespace ast = ::mizugaki::ast;
using vdump::D;

namespace {
struct Rng {
    std::uint64_t s;
    std::uint64_t next() { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s; }
    std::size_t below(std::size_t n) { return n ? next() % n : 0; }
};

struct Item {                       // one object of the tree, seen through its exact class
    char const* cls;
    void const* ptr;
    ast::node const* node;          // null for plain elements
    bool (*eq)(void const*, void const*);
    bool (*ne)(void const*, void const*);
    std::string (*dump)(void const*);
    std::string (*copies)(void*);   // what is wrong with copies of a plain element
};
struct Mut {
    char const* where;
    char const* what;
    bool semantic;                  // must equality see it?
    std::function<void()> apply, undo;
};
struct Ctx {
    std::vector<Item> items;
    std::vector<Mut> muts;
    bool collect_muts = false;
    bool collect_items = true;
    // values a kind field may take in the class being walked
    std::type_info const* tag_type = nullptr;
    bool (*tag_ok)(std::size_t) = nullptr;
};
template<class Q, class = void> struct tagger { static void set(Ctx& c) { c.tag_type = nullptr; } };
template<class Q> struct tagger<Q, std::void_t<decltype(Q::tags)>> {
    using K = std::decay_t<decltype(std::declval<Q const&>().node_kind())>;
    static void set(Ctx& c) {
        c.tag_type = &typeid(K);
        c.tag_ok = [](std::size_t i) { return Q::tags.contains(static_cast<K>(i)); };
    }
};
} // namespace

template<class T> std::string dump_s(T const& x) { D d; vdump::put(d, x); return d.s; }
template<class T> std::string dump_all(T const& x) { D d; vdump::put(d, x); return d.s + "|" + d.r + "|" + d.d; }

static bool pointer_nullable(std::string_view w);

// ---- donors
template<class T> std::unique_ptr<T> donor(int) { return {}; }
static std::unique_ptr<ast::name::simple> nm(char const* s) { return std::make_unique<ast::name::simple>(std::string(s)); }
template<> std::unique_ptr<ast::name::simple> donor<ast::name::simple>(int i) { return nm(i ? "donor_b" : "donor_a"); }
template<> std::unique_ptr<ast::name::name> donor<ast::name::name>(int i) {
    if (i) return std::make_unique<ast::name::qualified>(nm("donor_q"), nm("donor_l"));
    return nm("donor_n");
}
template<> std::unique_ptr<ast::scalar::expression> donor<ast::scalar::expression>(int i) {
    if (i) return std::make_unique<ast::scalar::host_parameter_reference>(nm("donor_h"));
    return std::make_unique<ast::scalar::variable_reference>(nm("donor_v"));
}
template<> std::unique_ptr<ast::query::expression> donor<ast::query::expression>(int i) {
    return std::make_unique<ast::query::table_reference>(nm(i ? "donor_ta" : "donor_tb"));
}
template<> std::unique_ptr<ast::table::expression> donor<ast::table::expression>(int i) {
    return std::make_unique<ast::table::table_reference>(i == 2, nm(i ? "donor_ta" : "donor_tb"));
}
template<> std::unique_ptr<ast::type::type> donor<ast::type::type>(int i) {
    if (i) return std::make_unique<ast::type::bit_string>(ast::type::kind::bit_varying, std::size_t { 7 }); // no text has one
    return std::make_unique<ast::type::user_defined>(nm("donor_tb"));
}
template<> std::unique_ptr<ast::table::join_specification> donor<ast::table::join_specification>(int i) {
    return std::make_unique<ast::table::join_condition>(donor<ast::scalar::expression>(i));
}

// ---- generic mutable walk
template<class T> void visit(Ctx& c, char const* w, T& x);
template<class T> void visit(Ctx&, char const*, T const&) {}
void visit_node(Ctx& c, ast::node& n);

template<class T> std::string element_copies(void* p);

template<class T> void item(Ctx& c, char const* cls, T& x, ast::node const* n) {
    if (c.collect_items) {
        c.items.push_back({ cls, static_cast<void const*>(std::addressof(x)), n,
            [](void const* a, void const* b) { return *static_cast<T const*>(a) == *static_cast<T const*>(b); },
            [](void const* a, void const* b) { return *static_cast<T const*>(a) != *static_cast<T const*>(b); },
            [](void const* a) { D d; vdump::put(d, *static_cast<T const*>(a)); return d.s; },
            &element_copies<T> });
    }
}
static void region_mut(Ctx& c, char const* w, ast::node_region& r) {
    if (!c.collect_muts) return;
    auto old = std::make_shared<ast::node_region>();
    c.muts.push_back({ w, "region", false,
        [&r, old] { *old = r; r = ast::node_region { 70001, 70009 }; },
        [&r, old] { r = *old; } });
}

#define V0()
#define V1(q,a) tagger<ast::q>::set(c); visit(c, #q "." #a, x.a());
#define V2(q,a,b) V1(q,a) V1(q,b)
#define V3(q,a,b,d) V2(q,a,b) V1(q,d)
#define V4(q,a,b,d,e) V3(q,a,b,d) V1(q,e)
#define V5(q,a,b,d,e,f) V4(q,a,b,d,e) V1(q,f)
#define V6(q,a,b,d,e,f,g) V5(q,a,b,d,e,f) V1(q,g)
#define V7(q,a,b,d,e,f,g,h) V6(q,a,b,d,e,f,g) V1(q,h)
#define V8(q,a,b,d,e,f,g,h,i) V7(q,a,b,d,e,f,g,h) V1(q,i)
#define V9(q,a,b,d,e,f,g,h,i,j) V8(q,a,b,d,e,f,g,h,i) V1(q,j)
#define V10(q,a,b,d,e,f,g,h,i,j,k) V9(q,a,b,d,e,f,g,h,i,j) V1(q,k)
#define VPICK(_0,_1,_2,_3,_4,_5,_6,_7,_8,_9,_10,NAME,...) NAME
#define VEACH(q, ...) VPICK(0 __VA_OPT__(,) __VA_ARGS__, V10,V9,V8,V7,V6,V5,V4,V3,V2,V1,V0)(q __VA_OPT__(,) __VA_ARGS__)

#define E(q, cl, ...) static void walk(Ctx& c, ast::q& x);
#define N(q, cl, ...) static void walk(Ctx& c, ast::q& x);
#include "dump_table.inc"
#undef E
#undef N

// every way to copy or move a plain element gives the same value, in parts of its own
template<class T> std::string element_copies(void* p) {
    if constexpr (std::is_copy_constructible_v<T> && std::is_base_of_v<ast::element, T> && !std::is_base_of_v<ast::node, T>) {
        using takatori::util::clone_tag;
        auto& x = *static_cast<T*>(p);
        auto want = dump_all(x);
        Ctx co;
        walk(co, x);
        std::unordered_set<void const*> addrs;
        for (auto& it : co.items) addrs.insert(it.ptr);
        std::string bad;
        auto check = [&](char const* what, T& y) {
            if (!bad.empty()) return;
            if (dump_all(y) != want) bad = std::string("clone by ") + what + " differs: " + want.substr(0, 300) + " / " + dump_all(y).substr(0, 300);
            else if (!(x == y) || !(y == x) || x != y) bad = std::string("clone not equal by ") + what;
            Ctx cc;
            walk(cc, y);
            for (auto& it : cc.items) if (addrs.count(it.ptr)) bad = std::string("clone by ") + what + " shares a part: " + it.cls;
        };
        T a { x };
        check("copy constructor", a);
        T m { std::move(a) };
        check("move constructor", m);
        if constexpr (std::is_copy_assignable_v<T>) {
            a = m; // NOLINT: a was moved away
            check("copy assignment", a);
            a = std::move(m);
            check("move assignment", a);
        } else {
            a.~T();
            new (&a) T { x };
        }
        if constexpr (std::is_constructible_v<T, takatori::util::clone_tag_t, T const&>) {
            T t { clone_tag, a };
            check("copying clone", t);
            check("copying clone (its source)", a);
            T u { clone_tag, std::move(a) };
            check("moving clone", u);
        }
        if (dump_all(x) != want) bad = "cloning changed its source";
        return bad;
    }
    (void) p;
    return {};
}

#undef V0
#define V0(...)

template<class T> struct is_uptr : std::false_type {};
template<class T> struct is_uptr<std::unique_ptr<T>> : std::true_type { using type = T; };
template<class T> struct is_vec : std::false_type {};
template<class T> struct is_vec<std::vector<T>> : std::true_type { using type = T; };
template<class T> struct is_opt : std::false_type {};
template<class T> struct is_opt<std::optional<T>> : std::true_type { using type = T; };

template<class T> constexpr bool enum_has(std::size_t i) {
    return i < 40 && !vdump::enum_tab<T>(std::make_index_sequence<40>())[i].empty();
}
template<class T> static T next_enum(T v, bool (*ok)(std::size_t)) {
    static constexpr auto tab = vdump::enum_tab<T>(std::make_index_sequence<40>());
    auto i = static_cast<std::size_t>(v);
    for (std::size_t k = 1; k < 40; ++k) {
        auto j = (i + k) % 40;
        if (!tab[j].empty() && (!ok || ok(j))) return static_cast<T>(j);
    }
    return v;
}

template<class T> void visit(Ctx& c, char const* w, T& x) {
    if constexpr (std::is_same_v<T, ast::node_region>) {     // a description
        region_mut(c, w, x);
    } else if constexpr (is_uptr<T>::value) {
        using E_ = typename is_uptr<T>::type;
        // the identifier of a privilege user means something only for the kind which has one
        if (c.collect_muts && (x || std::string_view(w) != "statement::privilege_user.authorization_identifier")) {
            auto saved = std::make_shared<T>();
            for (int i = 0; i < 2; ++i) {
                if (donor<E_>(i)) {
                    c.muts.push_back({ w, "replace", true,
                        [&x, saved, i] { *saved = std::move(x); x = donor<E_>(i); },
                        [&x, saved] { x = std::move(*saved); } });
                }
            }
            if (x && pointer_nullable(w)) {
                c.muts.push_back({ w, "remove", true,
                    [&x, saved] { *saved = std::move(x); x.reset(); },
                    [&x, saved] { x = std::move(*saved); } });
            }
        }
        if (x) visit_node(c, *x);
    } else if constexpr (is_vec<T>::value) {
        using E_ = typename is_vec<T>::type;
        if (c.collect_muts) {
            auto saved = std::make_shared<T>();
            x.reserve(x.size() + 1);        // keeps the addresses of the elements
            if (!x.empty()) {
                c.muts.push_back({ w, "drop-last", true,
                    [&x, saved] { saved->clear(); saved->push_back(std::move(x.back())); x.pop_back(); },
                    [&x, saved] { x.push_back(std::move(saved->back())); saved->clear(); } });
                if (x.size() > 1) {
                    c.muts.push_back({ w, "swap", true,
                        [&x] { std::swap(x.front(), x.back()); },
                        [&x] { std::swap(x.front(), x.back()); } });
                    c.muts.push_back({ w, "drop-first", true,
                        [&x, saved] { saved->clear(); saved->push_back(std::move(x.front())); x.erase(x.begin()); },
                        [&x, saved] { x.insert(x.begin(), std::move(saved->back())); saved->clear(); } });
                }
                c.muts.push_back({ w, "duplicate", true,
                    [&x] {
                        if constexpr (is_uptr<E_>::value) x.push_back(takatori::util::clone_unique(x.back()));
                        else x.push_back(E_(x.back()));
                    },
                    [&x] { x.pop_back(); } });
            } else if constexpr (is_uptr<E_>::value) {
                if (donor<typename is_uptr<E_>::type>(0)) {
                    c.muts.push_back({ w, "add", true,
                        [&x] { x.push_back(donor<typename is_uptr<E_>::type>(0)); }, [&x] { x.pop_back(); } });
                }
            }
        }
        for (auto& e : x) {
            if constexpr (is_uptr<E_>::value) { if (e) visit_node(c, *e); }
            else visit(c, w, e);
        }
    } else if constexpr (is_opt<T>::value) {
        using E_ = typename is_opt<T>::type;
        if (c.collect_muts) {
            auto saved = std::make_shared<T>();
            if (x) {
                c.muts.push_back({ w, "reset", true,
                    [&x, saved] { *saved = std::move(x); x.reset(); },
                    [&x, saved] { x = std::move(*saved); } });
            } else if constexpr (std::is_default_constructible_v<E_>) {
                c.muts.push_back({ w, "engage", true, [&x] { x.emplace(); }, [&x] { x.reset(); } });
            } else if constexpr (vdump::is_regioned<E_>::value) {
                using V_ = std::decay_t<decltype(std::declval<E_&>().value())>;
                if constexpr (std::is_enum_v<V_>) {
                    c.muts.push_back({ w, "engage", true, [&x] { x.emplace(static_cast<V_>(0)); }, [&x] { x.reset(); } });
                } else if constexpr (std::is_default_constructible_v<V_>) {
                    c.muts.push_back({ w, "engage", true, [&x] { x.emplace(V_ {}); }, [&x] { x.reset(); } });
                }
            }
        }
        if (x) visit(c, w, *x);
    } else if constexpr (vdump::is_regioned<T>::value) {
        region_mut(c, w, x.region());
        visit(c, w, x.value());
    } else if constexpr (std::is_base_of_v<ast::node, T>) {
        visit_node(c, x);
    } else if constexpr (vdump::is_elem<T>::value) {
        walk(c, x);
    } else if constexpr (std::is_same_v<T, bool>) {
        if (c.collect_muts) c.muts.push_back({ w, "flip", true, [&x] { x = !x; }, [&x] { x = !x; } });
    } else if constexpr (std::is_same_v<T, std::string>) {
        if (c.collect_muts) {
            auto saved = std::make_shared<std::string>();
            c.muts.push_back({ w, "append", true, [&x] { x += '!'; }, [&x] { x.pop_back(); } });
            if (!x.empty()) {
                c.muts.push_back({ w, "case/char", true, [&x] { x[0] = static_cast<char>(x[0] ^ 0x20); }, [&x] { x[0] = static_cast<char>(x[0] ^ 0x20); } });
                c.muts.push_back({ w, "clear", true, [&x, saved] { *saved = x; x.clear(); }, [&x, saved] { x = *saved; } });
            }
        }
    } else if constexpr (std::is_enum_v<T>) {
        if (c.collect_muts) {
            auto saved = std::make_shared<T>();
            auto ok = c.tag_type && *c.tag_type == typeid(T) ? c.tag_ok : nullptr;
            c.muts.push_back({ w, "enum", true, [&x, saved, ok] { *saved = x; x = next_enum(x, ok); }, [&x, saved] { x = *saved; } });
        }
    } else if constexpr (std::is_integral_v<T>) {
        if (c.collect_muts) c.muts.push_back({ w, "increment", true, [&x] { ++x; }, [&x] { --x; } });
    } else {
        static_assert(std::is_same_v<T, void>, "unhandled field type");
    }
}

#define E(q, cl, ...) static void walk(Ctx& c, ast::q& x) { item(c, #q, x, nullptr); region_mut(c, #q, x.region()); VEACH(q __VA_OPT__(,) __VA_ARGS__) }
#define N(q, cl, ...) static void walk(Ctx& c, ast::q& x) { item(c, #q, x, std::addressof(x)); region_mut(c, #q, x.region()); VEACH(q __VA_OPT__(,) __VA_ARGS__) }
#include "dump_table.inc"
#undef E
#undef N

using wfn = void (*)(Ctx&, ast::node&);
void visit_node(Ctx& c, ast::node& n) {
    static std::map<std::type_index, wfn> const t = [] {
        std::map<std::type_index, wfn> m;
#define E(q, cl, ...)
#define N(q, cl, ...) m[typeid(ast::q)] = [](Ctx& c, ast::node& n) { walk(c, dynamic_cast<ast::q&>(n)); };
#include "dump_table.inc"
#undef E
#undef N
        return m;
    }();
    auto it = t.find(typeid(n));
    if (it != t.end()) it->second(c, n);
}

static bool pointer_nullable(std::string_view w) {
    static std::set<std::string_view> const s {
#include "nullable.inc"
    };
    return s.count(w) != 0;
}

// equality through the polymorphic base classes
template<class B> static void base_pairs(std::vector<ast::node const*> const& nodes, Rng& rng, char const* name, std::vector<std::string>& bad, std::size_t& checks) {
    std::vector<B const*> xs;
    for (auto* n : nodes) if (auto* b = dynamic_cast<B const*>(n)) xs.push_back(b);
    if (xs.empty()) return;
    std::vector<std::string> ds;
    for (auto* x : xs) ds.push_back(dump_s(static_cast<ast::node const&>(*x)));
    auto check = [&](std::size_t i, std::size_t j) {
        ++checks;
        bool e = *xs[i] == *xs[j], n = *xs[i] != *xs[j];
        if (e != (ds[i] == ds[j]) || n == e) {
            bad.push_back(std::string("base-equality ") + name + (e ? " equal: " : " differ: ") + ds[i].substr(0, 300) + " / " + ds[j].substr(0, 300));
        }
    };
    for (std::size_t i = 0; i < xs.size() && i < 40; ++i) check(i, i);
    for (int k = 0; k < 60; ++k) check(rng.below(xs.size()), rng.below(xs.size()));
}

void each_node(ast::statement::statement& s, void (*f)(void*, ast::node&), void* ctx) {
    Ctx c;
    visit_node(c, s);
    for (auto& it : c.items) if (it.node) f(ctx, const_cast<ast::node&>(*it.node));
}

// changes a tree for good: parts and values which no text gives
static std::vector<std::string> enrich(ast::statement::statement& s, Rng& rng, std::size_t changes) {
    std::vector<std::string> done;
    Ctx c;
    visit_node(c, s);
    for (auto& it : c.items) {
        if (!it.node || typeid(*it.node) != typeid(ast::statement::select_statement)) continue;
        auto& x = const_cast<ast::statement::select_statement&>(dynamic_cast<ast::statement::select_statement const&>(*it.node));
        for (auto k = rng.below(3); k > 0; --k) {
            x.targets().emplace_back(donor<ast::name::name>(static_cast<int>(rng.below(2))), rng.below(2) ? donor<ast::name::simple>(static_cast<int>(rng.below(2))) : nullptr,
                    ast::node_region { 80001, 80002 });
        }
    }
    for (std::size_t k = 0; k < changes; ++k) {
        Ctx m;
        m.collect_muts = true;
        m.collect_items = false;
        visit_node(m, s);
        if (m.muts.empty()) break;
        auto& x = m.muts[rng.below(m.muts.size())];
        // the kind of a user decides which of its fields mean something
        if (std::string_view(x.where).substr(0, 25) == "statement::privilege_user") continue;
        x.apply();
        done.push_back(std::string(x.where) + "/" + x.what);
    }
    return done;
}

// the serialized form and the harness' own dump of changed trees
std::string cmd_jsonmut(Request const& q) {
    parser::sql_parser p { parser_options(q.opts) };
    auto r = p("L", q.body);
    if (!r.has_value()) return std::string("NOPARSE");
    Rng rng { num(q.opts, "seed", 1) * 2654435761u + 88172645463325252ull };
    std::string out { "OK" };
    for (auto& sp : r.value()->statements()) {
        auto done = enrich(*sp, rng, num(q.opts, "muts", 4));
        std::ostringstream os, os2;
        os << *sp;
        os2 << static_cast<ast::node const&>(*sp);
        D d;
        d.full = true;
        vdump::put(d, static_cast<ast::node const&>(*sp));
        out += '\0' + d.s + '\0' + os.str() + '\0' + os2.str() + '\0';
        for (auto& x : done) { out += x; out += ' '; }
    }
    return out;
}

std::unique_ptr<ast::statement::statement> donor_statement() {
    static parser::sql_parser p {};
    auto r = p("D", "DROP TABLE t");
    return std::move(r.value()->statements().at(0));
}

std::string cmd_laws(Request const& q) {
    parser::sql_parser p { parser_options(q.opts) };
    auto r = p("L", q.body);
    if (!r.has_value()) return std::string("NOPARSE");
    Rng rng { num(q.opts, "seed", 1) * 2654435761u + 88172645463325252ull };
    std::size_t max_muts = num(q.opts, "muts", 400);
    std::vector<std::string> bad;
    std::size_t checks = 0, clones = 0, nmut = 0, npair = 0;
    std::set<std::string> seen;      // class.field/mutation observed
    auto fail = [&](std::string s) { if (bad.size() < 20) bad.push_back(std::move(s)); };

    auto& unit = *r.value();
    if (auto n = num(q.opts, "enrich", 0)) {
        for (auto& sp : unit.statements()) enrich(*sp, rng, rng.below(n));
    }
    // whole unit
    {
        ast::compilation_unit c { takatori::util::clone_tag, unit };
        if (!(c == unit) || !(unit == c) || c != unit) fail("unit clone not equal");
        if (dump_all(c.statements()) != dump_all(unit.statements())) fail("unit clone differs");
        if (c.comments() != unit.comments()) fail("unit clone lost comments");
        if (c.document().get() != unit.document().get()) fail("unit clone lost its document");
        auto before = dump_all(unit.statements());
        ast::compilation_unit m { takatori::util::clone_tag, std::move(c) };
        if (dump_all(m.statements()) != before || m.comments() != unit.comments()) fail("unit move differs");
        if (m.document().get() != unit.document().get()) fail("unit move lost its document");
        ++clones;
    }
    // a unit with other statements is another unit; its comments and its document do not count
    {
        auto copy = [&] { return ast::compilation_unit { takatori::util::clone_tag, unit }; };
        auto differ = [&](ast::compilation_unit const& a, char const* what) {
            ++checks;
            if (a == unit || unit == a || !(a != unit) || !(unit != a)) fail(std::string("unit equal after ") + what);
        };
        auto same = [&](ast::compilation_unit const& a, char const* what) {
            ++checks;
            if (!(a == unit) || !(unit == a) || a != unit || unit != a) fail(std::string("unit unequal after ") + what);
        };
        if (unit != unit || !(unit == unit)) fail("unit not equal to itself");
        {
            auto c = copy();
            c.comments().clear();
            c.document() = {};
            same(c, "removing its comments and its document");
            c.comments().emplace_back(1, 2);
            same(c, "adding a comment");
        }
        {
            auto c = copy();
            c.statements().push_back(std::make_unique<ast::statement::empty_statement>(ast::node_region { 12345, 12346 }));
            differ(c, "appending a statement");
            std::rotate(c.statements().begin(), c.statements().end() - 1, c.statements().end());
            differ(c, "prepending a statement");
        }
        if (auto n = unit.statements().size(); n > 0) {
            auto at = static_cast<std::ptrdiff_t>(rng.below(n));
            {
                auto c = copy();
                c.statements().erase(c.statements().begin() + at);
                differ(c, "removing a statement");
                c.statements().clear();
                differ(c, "removing all statements");
            }
            {
                auto c = copy();
                auto& s = c.statements()[static_cast<std::size_t>(at)];
                if (s->node_kind() == ast::statement::kind::empty_statement) {
                    s = donor_statement();
                } else {
                    s = std::make_unique<ast::statement::empty_statement>();
                }
                differ(c, "replacing a statement");
            }
            {
                auto c = copy();
                auto i = rng.below(n);
                auto j = rng.below(n);
                if (!(*c.statements()[i] == *c.statements()[j])) {
                    std::swap(c.statements()[i], c.statements()[j]);
                    differ(c, "exchanging two statements");
                }
            }
        }
    }
    for (auto& sp : unit.statements()) {
        Ctx co;
        visit_node(co, *sp);
        std::string orig = dump_all(static_cast<ast::node const&>(*sp));
        std::string orig_s = dump_s(static_cast<ast::node const&>(*sp));
        // every sub-object equals itself
        for (auto& it : co.items) {
            ++checks;
            if (!it.eq(it.ptr, it.ptr)) fail(std::string("not equal to itself: ") + it.cls);
            if (it.ne(it.ptr, it.ptr)) fail(std::string("differs from itself: ") + it.cls);
        }
        // clone of every sub node
        std::size_t step = co.items.size() > 300 ? co.items.size() / 300 + 1 : 1;
        for (std::size_t i = 0; i < co.items.size(); i += step) {
            auto& it = co.items[i];
            if (!it.node) {
                ++clones; ++checks;
                if (auto m = it.copies(const_cast<void*>(it.ptr)); !m.empty()) fail(m + ": " + it.cls);
                continue;
            }
            auto whole = dump_all(*it.node);
            std::unique_ptr<ast::node> c1 { it.node->clone() };
            ++clones; ++checks;
            if (dump_all(*c1) != whole) fail(std::string("clone differs: ") + it.cls + " " + whole.substr(0, 400) + " / " + dump_all(*c1).substr(0, 400));
            if (typeid(*c1) == typeid(*it.node)) {
                // the exact class comes first in the object only if it does so in both
                auto off = reinterpret_cast<char const*>(it.ptr) - reinterpret_cast<char const*>(it.node);
                void const* cp = reinterpret_cast<char const*>(c1.get()) + off;
                if (!it.eq(it.ptr, cp) || !it.eq(cp, it.ptr)) fail(std::string("clone not equal: ") + it.cls);
            }
            std::unique_ptr<ast::node> c2 { std::move(*c1).clone() };
            c1.reset();
            if (dump_all(*c2) != whole) fail(std::string("move-clone differs: ") + it.cls + " " + whole.substr(0, 400) + " / " + dump_all(*c2).substr(0, 400));
        }
        if (dump_all(static_cast<ast::node const&>(*sp)) != orig) fail("cloning changed its source");

        // no shared parts; the clone outlives and is unaffected by changes
        auto cl = takatori::util::clone_unique(sp);
        {
            std::unordered_set<void const*> addrs;
            for (auto& it : co.items) addrs.insert(it.ptr);
            Ctx cc;
            visit_node(cc, *cl);
            if (cc.items.size() != co.items.size()) fail("clone has a different number of parts");
            for (auto& it : cc.items) if (addrs.count(it.ptr)) fail(std::string("clone shares a part with its source: ") + it.cls);
        }
        // single-field changes of the clone
        Ctx cm;
        cm.collect_muts = true;
        cm.collect_items = false;
        visit_node(cm, *cl);
        std::vector<std::size_t> order(cm.muts.size());
        for (std::size_t i = 0; i < order.size(); ++i) order[i] = i;
        for (std::size_t i = order.size(); i > 1; --i) std::swap(order[i - 1], order[rng.below(i)]);
        if (order.size() > max_muts) order.resize(max_muts);
        for (auto i : order) {
            auto& m = cm.muts[i];
            m.apply();
            ++nmut;
            auto now_s = dump_s(static_cast<ast::node const&>(*cl));
            bool same = now_s == orig_s;
            bool e1 = *sp == *cl, e2 = *cl == *sp, n1 = *sp != *cl;
            ++checks;
            if (e1 != e2) fail(std::string("asymmetric equality after ") + m.what + " of " + m.where);
            if (n1 == e1) fail(std::string("== and != agree after ") + m.what + " of " + m.where);
            if (m.semantic) {
                if (!same && e1) fail(std::string("equality ignores ") + m.what + " of " + m.where + ": " + orig_s.substr(0, 300));
            }
            if (same && !e1) fail(std::string("equality depends on ") + m.what + " of " + m.where + ": " + orig_s.substr(0, 300));
            if (!same || !m.semantic) seen.insert(std::string(m.where) + "/" + m.what);
            // a clone of the changed object carries the change
            if ((nmut & 1) == 0) {
                auto again = takatori::util::clone_unique(*cl);
                auto whole = dump_all(static_cast<ast::node const&>(*cl));
                if (dump_all(static_cast<ast::node const&>(*again)) != whole) fail(std::string("clone loses ") + m.what + " of " + m.where);
                decltype(again) moved { std::move(*again).clone() };
                again.reset();
                if (dump_all(static_cast<ast::node const&>(*moved)) != whole) fail(std::string("move-clone loses ") + m.what + " of " + m.where);
                clones += 2;
            }
            m.undo();
        }
        if (dump_all(static_cast<ast::node const&>(*cl)) != orig) fail("harness: mutation not undone");
        if (dump_all(static_cast<ast::node const&>(*sp)) != orig) fail("changing a clone changed its source");

        // pairs of objects of one class
        std::map<std::string_view, std::vector<std::size_t>> by;
        for (std::size_t i = 0; i < co.items.size(); ++i) by[co.items[i].cls].push_back(i);
        for (auto& [k, v] : by) {
            if (v.size() < 2) continue;
            int n = v.size() < 12 ? 12 : 40;
            for (int t = 0; t < n; ++t) {
                auto& a = co.items[v[rng.below(v.size())]];
                auto& b = co.items[v[rng.below(v.size())]];
                ++npair; ++checks;
                auto da = a.dump(a.ptr), db = b.dump(b.ptr);
                bool e = a.eq(a.ptr, b.ptr), ne = a.ne(a.ptr, b.ptr);
                if (e != (da == db) || ne == e) fail(std::string("equality of ") + std::string(k) + (e ? " holds: " : " fails: ") + da.substr(0, 300) + " / " + db.substr(0, 300));
            }
        }
        std::vector<ast::node const*> nodes;
        for (auto& it : co.items) if (it.node) nodes.push_back(it.node);
        auto nodes2 = nodes;
        base_pairs<ast::name::name>(nodes, rng, "name", bad, checks);
        base_pairs<ast::literal::literal>(nodes, rng, "literal", bad, checks);
        base_pairs<ast::type::type>(nodes, rng, "type", bad, checks);
        base_pairs<ast::scalar::expression>(nodes, rng, "scalar", bad, checks);
        base_pairs<ast::table::expression>(nodes, rng, "table", bad, checks);
        base_pairs<ast::table::join_specification>(nodes, rng, "join-specification", bad, checks);
        base_pairs<ast::query::expression>(nodes, rng, "query", bad, checks);
        base_pairs<ast::query::select_element>(nodes, rng, "select-element", bad, checks);
        base_pairs<ast::query::grouping_element>(nodes, rng, "grouping-element", bad, checks);
        base_pairs<ast::statement::statement>(nodes, rng, "statement", bad, checks);
        base_pairs<ast::statement::constraint>(nodes, rng, "constraint", bad, checks);
        base_pairs<ast::statement::table_element>(nodes, rng, "table-element", bad, checks);

        // the clone outlives its source
        sp.reset();
        if (dump_all(static_cast<ast::node const&>(*cl)) != orig) fail("clone changed when its source was destroyed");
    }
    std::string out = bad.empty() ? "OK" : "BAD";
    out += '\0';
    out += std::to_string(checks) + " " + std::to_string(clones) + " " + std::to_string(nmut) + " " + std::to_string(npair);
    out += '\0';
    for (auto& s : seen) { out += s; out += ' '; }
    for (auto& b : bad) { out += '\0'; out += b; }
    return out;
}
} // namespace vsrv
