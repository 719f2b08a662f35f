#pragma once
#include <sstream>
#include <string>
namespace takatori::util {
namespace details {
template<class Self>
class string_builder_base {
public:
    struct to_string_t {};
    static constexpr to_string_t to_string {};
    template<class T>
    Self& operator<<(T const& v) & { out_ << v; return static_cast<Self&>(*this); }
    template<class T>
    Self&& operator<<(T const& v) && { out_ << v; return static_cast<Self&&>(*this); }
    std::string operator<<(to_string_t) & { return out_.str(); }
    std::string operator<<(to_string_t) && { return out_.str(); }
    std::string str() const { return out_.str(); }
private:
    std::ostringstream out_ {};
};
} // namespace details
class string_builder : public details::string_builder_base<string_builder> {};
class debug_string_builder : public details::string_builder_base<debug_string_builder> {};
} // namespace takatori::util
