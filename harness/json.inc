// a small JSON writer
#include <cstdio>
#include <string>
#include <string_view>
namespace vjson {
struct W {
    std::string s;
    bool comma { false };
    std::string close;
    void sep() { if (comma) s += ','; comma = true; }
    void str_raw(std::string_view v) {
        s += '"';
        for (unsigned char c : v) {
            if (c == '"' || c == '\\') { s += '\\'; s += static_cast<char>(c); }
            else if (c < 0x20 || c >= 0x7f) { char b[8]; std::snprintf(b, sizeof b, "\\u%04x", c); s += b; }
            else s += static_cast<char>(c);
        }
        s += '"';
    }
    W& key(std::string_view k) { sep(); str_raw(k); s += ':'; comma = false; return *this; }
    W& obj() { sep(); s += '{'; close += '}'; comma = false; return *this; }
    W& arr() { sep(); s += '['; close += ']'; comma = false; return *this; }
    W& end() { s += close.back(); close.pop_back(); comma = true; return *this; }
    W& v(std::string_view x) { sep(); str_raw(x); return *this; }
    W& v(char const* x) { return v(std::string_view { x }); }
    W& v(std::string const& x) { return v(std::string_view { x }); }
    W& b(bool x) { sep(); s += x ? "true" : "false"; return *this; }
    W& n(long long x) { sep(); s += std::to_string(x); return *this; }
    W& null() { sep(); s += "null"; return *this; }
};
} // namespace vjson
