#pragma once
#include "util.h"
#include <chrono>
#include <cstdint>
namespace takatori::datetime {
using difference_type = std::int64_t;
inline std::int64_t days_from_civil(std::int64_t y, unsigned m, unsigned d) {
    y -= m <= 2 ? 1 : 0;
    std::int64_t era = (y >= 0 ? y : y - 399) / 400;
    auto yoe = static_cast<unsigned>(y - era * 400);
    unsigned doy = (153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + d - 1;
    unsigned doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
    return era * 146097 + static_cast<std::int64_t>(doe) - 719468;
}
class date {
public:
    constexpr date() = default;
    explicit constexpr date(std::int64_t days) : days_ { days } {}
    date(std::int32_t y, std::uint32_t m, std::uint32_t d) : days_ { days_from_civil(y, m, d) } {}
    std::int64_t days_since_epoch() const { return days_; }
    friend bool operator==(date a, date b) { return a.days_ == b.days_; }
    friend bool operator!=(date a, date b) { return !(a == b); }
    friend std::ostream& operator<<(std::ostream& out, date v) { return out << "date(" << v.days_ << ")"; }
private:
    std::int64_t days_ {};
};
class time_of_day {
public:
    using time_unit = std::chrono::nanoseconds;
    constexpr time_of_day() = default;
    explicit constexpr time_of_day(time_unit t) : t_ { t } {}
    constexpr time_of_day(std::uint32_t h, std::uint32_t m, std::uint32_t s, time_unit sub = {})
        : t_ { std::chrono::hours { h } + std::chrono::minutes { m } + std::chrono::seconds { s } + sub } {}
    constexpr time_unit time_since_epoch() const { return t_; }
    friend bool operator==(time_of_day a, time_of_day b) { return a.t_ == b.t_; }
    friend bool operator!=(time_of_day a, time_of_day b) { return !(a == b); }
    friend std::ostream& operator<<(std::ostream& out, time_of_day v) { return out << "time(" << v.t_.count() << ")"; }
private:
    time_unit t_ {};
};
class time_point {
public:
    constexpr time_point() = default;
    time_point(date d, time_of_day t) : ns_ { static_cast<__int128>(d.days_since_epoch()) * 86400000000000LL + t.time_since_epoch().count() } {}
    time_point(std::int32_t y, std::uint32_t mo, std::uint32_t d, std::uint32_t h = 0, std::uint32_t mi = 0, std::uint32_t s = 0, std::chrono::nanoseconds sub = {})
        : time_point { date { y, mo, d }, time_of_day { h, mi, s, sub } } {}
    template<class R, class P>
    time_point& operator-=(std::chrono::duration<R, P> d) { ns_ -= std::chrono::duration_cast<std::chrono::nanoseconds>(d).count(); return *this; }
    template<class R, class P>
    time_point& operator+=(std::chrono::duration<R, P> d) { ns_ += std::chrono::duration_cast<std::chrono::nanoseconds>(d).count(); return *this; }
    std::string to_string() const {
        auto s = ns_ / 1000000000; auto n = ns_ % 1000000000;
        if (n < 0) { n += 1000000000; --s; }
        return std::to_string(static_cast<std::int64_t>(s)) + ":" + std::to_string(static_cast<std::int64_t>(n));
    }
    friend bool operator==(time_point a, time_point b) { return a.ns_ == b.ns_; }
    friend bool operator!=(time_point a, time_point b) { return !(a == b); }
    friend std::ostream& operator<<(std::ostream& out, time_point v) { return out << "time_point(" << v.to_string() << ")"; }
private:
    __int128 ns_ {};
};
struct date_info { std::uint32_t year {}, month {}, day {}; };
struct time_info { std::uint32_t hour {}, minute {}, second {}; std::chrono::nanoseconds subsecond {}; };
struct zone_offset_info { bool plus { true }; std::uint32_t hour {}, minute {}; };
struct datetime_info { date_info date; time_info time; std::optional<zone_offset_info> offset; };
template<class T> using conversion_result = util::either<std::string, T>;
namespace impl {
class cursor {
public:
    explicit cursor(std::string_view s) : s_ { s } {}
    bool eof() const { return s_.empty(); }
    bool eat(char c) { if (!s_.empty() && s_.front() == c) { s_.remove_prefix(1); return true; } return false; }
    bool peek_digit() const { return !s_.empty() && s_.front() >= '0' && s_.front() <= '9'; }
    std::optional<std::uint32_t> number(std::size_t lo, std::size_t hi) {
        std::uint32_t v = 0; std::size_t n = 0;
        while (peek_digit() && n < hi) { v = v * 10 + static_cast<std::uint32_t>(s_.front() - '0'); s_.remove_prefix(1); ++n; }
        if (n < lo) { return {}; }
        digits_ = n;
        return v;
    }
    std::size_t digits() const { return digits_; }
private:
    std::string_view s_;
    std::size_t digits_ {};
};
inline std::optional<date_info> date(cursor& c) {
    auto y = c.number(1, 6); if (!y || !c.eat('-')) { return {}; }
    auto m = c.number(1, 2); if (!m || !c.eat('-')) { return {}; }
    auto d = c.number(1, 2); if (!d) { return {}; }
    static constexpr std::uint32_t days[] { 31, 29, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31 };
    if (*m < 1 || *m > 12 || *d < 1 || *d > days[*m - 1]) { return {}; }
    if (*m == 2 && *d == 29 && !((*y % 4 == 0 && *y % 100 != 0) || *y % 400 == 0)) { return {}; }
    return date_info { *y, *m, *d };
}
inline std::optional<time_info> time(cursor& c) {
    auto h = c.number(1, 2); if (!h || !c.eat(':')) { return {}; }
    auto m = c.number(1, 2); if (!m || !c.eat(':')) { return {}; }
    auto s = c.number(1, 2); if (!s) { return {}; }
    if (*h > 23 || *m > 59 || *s > 59) { return {}; }
    std::chrono::nanoseconds sub {};
    if (c.eat('.')) {
        auto f = c.number(1, 9); if (!f) { return {}; }
        std::int64_t v = *f;
        for (auto i = c.digits(); i < 9; ++i) { v *= 10; }
        sub = std::chrono::nanoseconds { v };
    }
    return time_info { *h, *m, *s, sub };
}
inline std::optional<zone_offset_info> zone(cursor& c) {
    if (c.eat('Z') || c.eat('z')) { return zone_offset_info {}; }
    bool plus = true;
    if (c.eat('-')) { plus = false; } else if (!c.eat('+')) { return {}; }
    auto h = c.number(1, 2); if (!h) { return {}; }
    std::uint32_t m = 0;
    if (c.eat(':') || c.peek_digit()) { auto x = c.number(2, 2); if (!x) { return {}; } m = *x; }
    if (*h > 23 || m > 59) { return {}; }
    return zone_offset_info { plus, *h, m };
}
}
inline conversion_result<date_info> parse_date(std::string_view s) {
    impl::cursor c { s };
    if (auto r = impl::date(c); r && c.eof()) { return *r; }
    return { util::in_place_error, "malformed date" };
}
inline conversion_result<time_info> parse_time(std::string_view s) {
    impl::cursor c { s };
    if (auto r = impl::time(c); r && c.eof()) { return *r; }
    return { util::in_place_error, "malformed time" };
}
inline conversion_result<datetime_info> parse_datetime(std::string_view s) {
    impl::cursor c { s };
    conversion_result<datetime_info> err { util::in_place_error, "malformed datetime" };
    auto d = impl::date(c);
    if (!d || !(c.eat('T') || c.eat(' '))) { return err; }
    auto t = impl::time(c);
    if (!t) { return err; }
    datetime_info r { *d, *t, {} };
    if (!c.eof()) {
        r.offset = impl::zone(c);
        if (!r.offset || !c.eof()) { return err; }
    }
    return r;
}
inline conversion_result<zone_offset_info> parse_zone_offset(std::string_view s) {
    impl::cursor c { s };
    if (auto r = impl::zone(c); r && c.eof()) { return *r; }
    return { util::in_place_error, "malformed zone offset" };
}
} // namespace takatori::datetime
