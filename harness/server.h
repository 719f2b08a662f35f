#pragma once
#include <map>
#include <string>
#include <string_view>
#include <mizugaki/parser/sql_parser.h>
#include "dump.h"

namespace vsrv {
using opts_t = std::map<std::string, std::string>;
struct Request { opts_t opts; std::string body; };

inline std::size_t num(opts_t const& o, char const* k, std::size_t d) {
    auto it = o.find(k);
    return it == o.end() ? d : std::strtoull(it->second.c_str(), nullptr, 10);
}
inline std::string str(opts_t const& o, char const* k, char const* d = "") {
    auto it = o.find(k);
    return it == o.end() ? std::string(d) : it->second;
}

mizugaki::parser::sql_parser_options parser_options(opts_t const& o);
std::string esc(std::string_view s);
std::string reg(mizugaki::ast::node_region const& r);
/// renders everything observable in a parse result
std::string render(mizugaki::parser::sql_parser_result const& r, bool full = true);

std::string cmd_laws(Request const& q);
std::string cmd_jsonmut(Request const& q);
std::string cmd_enums(Request const& q);
std::string cmd_objects(Request const& q);
std::string cmd_dispatch(Request const& q);
} // namespace vsrv
