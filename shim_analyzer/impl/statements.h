#pragma once
#include "relations.h"
namespace takatori::statement {
enum class statement_kind { execute, write, create_table, drop_table, create_index, drop_index, grant_table, revoke_table, empty, truncate_table, rename_table, rename_column, rename_index, extension };
inline std::string_view to_string_view(statement_kind k) {
    static constexpr std::string_view n[] { "execute", "write", "create_table", "drop_table", "create_index", "drop_index", "grant_table", "revoke_table", "empty", "truncate_table", "rename_table", "rename_column", "rename_index", "extension" };
    return n[static_cast<int>(k)];
}
inline std::ostream& operator<<(std::ostream& out, statement_kind k) { return out << to_string_view(k); }
using write_kind = relation::write_kind;
SHIM_ENUM(table_action_kind, control, select, insert, update, delete_)
SHIM_ENUM(authorization_user_kind, all_users, current_user, specified)
SHIM_ENUM(truncate_table_option_kind, restart_identity)
class statement {
public:
    statement() = default;
    virtual ~statement() = default;
    statement(statement const&) = delete;
    statement& operator=(statement const&) = delete;
    virtual statement_kind kind() const noexcept = 0;
    document::region& region() noexcept { return region_; }
    document::region const& region() const noexcept { return region_; }
    friend std::ostream& operator<<(std::ostream& out, statement const& s) { return out << s.kind(); }
private:
    document::region region_ {};
};
template<statement_kind K>
class basic : public statement {
public:
    static constexpr statement_kind tag = K;
    statement_kind kind() const noexcept final { return K; }
};
class empty : public basic<statement_kind::empty> {};
class write : public basic<statement_kind::write> {
public:
    using column = descriptor::variable;
    using tuple = relation::values::row;
    write(write_kind k, descriptor::storage d, std::vector<column> c, std::vector<tuple> t) : k_ { k }, d_ { std::move(d) }, c_ { std::move(c) }, t_ { std::move(t) } {}
    write_kind operator_kind() const { return k_; }
    descriptor::storage& destination() { return d_; }
    descriptor::storage const& destination() const { return d_; }
    std::vector<column>& columns() { return c_; }
    std::vector<column> const& columns() const { return c_; }
    std::vector<tuple>& tuples() { return t_; }
    std::vector<tuple> const& tuples() const { return t_; }
private:
    write_kind k_;
    descriptor::storage d_;
    std::vector<column> c_;
    std::vector<tuple> t_;
};
class create_table : public basic<statement_kind::create_table> {
public:
    create_table(descriptor::schema s, descriptor::storage d, descriptor::storage p) : s_ { std::move(s) }, d_ { std::move(d) }, p_ { std::move(p) } {}
    descriptor::schema const& schema() const { return s_; }
    descriptor::storage const& definition() const { return d_; }
    descriptor::storage const& primary_key() const { return p_; }
private:
    descriptor::schema s_;
    descriptor::storage d_, p_;
};
class create_index : public basic<statement_kind::create_index> {
public:
    create_index(descriptor::schema s, descriptor::storage d) : s_ { std::move(s) }, d_ { std::move(d) } {}
    descriptor::schema const& schema() const { return s_; }
    descriptor::storage const& definition() const { return d_; }
private:
    descriptor::schema s_;
    descriptor::storage d_;
};
template<statement_kind K>
class drop : public basic<K> {
public:
    drop(descriptor::schema s, descriptor::storage t) : s_ { std::move(s) }, t_ { std::move(t) } {}
    descriptor::schema const& schema() const { return s_; }
    descriptor::storage const& target() const { return t_; }
private:
    descriptor::schema s_;
    descriptor::storage t_;
};
using drop_table = drop<statement_kind::drop_table>;
using drop_index = drop<statement_kind::drop_index>;
template<statement_kind K>
class rename : public basic<K> {
public:
    rename(descriptor::schema s, descriptor::storage t, std::string n) : s_ { std::move(s) }, t_ { std::move(t) }, n_ { std::move(n) } {}
    descriptor::schema const& schema() const { return s_; }
    descriptor::storage const& target() const { return t_; }
    std::string_view replacement() const { return n_; }
private:
    descriptor::schema s_;
    descriptor::storage t_;
    std::string n_;
};
using rename_table = rename<statement_kind::rename_table>;
using rename_index = rename<statement_kind::rename_index>;
class rename_column : public basic<statement_kind::rename_column> {
public:
    rename_column(descriptor::storage s, descriptor::variable t, std::string n) : s_ { std::move(s) }, t_ { std::move(t) }, n_ { std::move(n) } {}
    descriptor::storage const& table() const { return s_; }
    descriptor::variable const& target() const { return t_; }
    std::string_view replacement() const { return n_; }
private:
    descriptor::storage s_;
    descriptor::variable t_;
    std::string n_;
};
class truncate_table : public basic<statement_kind::truncate_table> {
public:
    using option_kind_type = truncate_table_option_kind;
    using option_set_type = util::enum_set<truncate_table_option_kind, truncate_table_option_kind::restart_identity, truncate_table_option_kind::restart_identity>;
    truncate_table(descriptor::storage t, option_set_type o) : t_ { std::move(t) }, o_ { o } {}
    descriptor::storage const& target() const { return t_; }
    option_set_type const& options() const { return o_; }
private:
    descriptor::storage t_;
    option_set_type o_;
};
namespace details {
class table_privilege_action {
public:
    table_privilege_action(table_action_kind k) : k_ { k } {}
    table_action_kind action_kind() const { return k_; }
    friend bool operator==(table_privilege_action const& a, table_privilege_action const& b) { return a.k_ == b.k_; }
    friend std::ostream& operator<<(std::ostream& out, table_privilege_action const& a) { return out << a.k_; }
private:
    table_action_kind k_;
};
class table_authorization_entry {
public:
    table_authorization_entry(authorization_user_kind k, std::string_view id, std::vector<table_privilege_action> p) : k_ { k }, id_ { id }, p_ { std::move(p) } {}
    authorization_user_kind user_kind() const { return k_; }
    std::string_view authorization_identifier() const { return id_; }
    std::vector<table_privilege_action> const& privileges() const { return p_; }
    friend std::ostream& operator<<(std::ostream& out, table_authorization_entry const& a) { return out << a.k_ << ":" << a.id_; }
private:
    authorization_user_kind k_;
    std::string id_;
    std::vector<table_privilege_action> p_;
};
class table_privilege_element {
public:
    table_privilege_element(descriptor::storage t, std::vector<table_privilege_action> d, std::vector<table_authorization_entry> e)
        : t_ { std::move(t) }, d_ { std::move(d) }, e_ { std::move(e) } {}
    descriptor::storage const& table() const { return t_; }
    std::vector<table_privilege_action> const& default_privileges() const { return d_; }
    std::vector<table_authorization_entry> const& authorization_entries() const { return e_; }
private:
    descriptor::storage t_;
    std::vector<table_privilege_action> d_;
    std::vector<table_authorization_entry> e_;
};
} // namespace details
template<statement_kind K>
class privilege : public basic<K> {
public:
    explicit privilege(std::vector<details::table_privilege_element> e) : e_ { std::move(e) } {}
    std::vector<details::table_privilege_element> const& elements() const { return e_; }
private:
    std::vector<details::table_privilege_element> e_;
};
using grant_table = privilege<statement_kind::grant_table>;
using revoke_table = privilege<statement_kind::revoke_table>;
} // namespace takatori::statement
