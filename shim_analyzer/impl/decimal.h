#pragma once
// a minimal stand-in of mpdecimal++ (only the operations which the analyzer uses)
#include <cstdint>
#include <limits>
#include <ostream>
#include <stdexcept>
#include <string>
#include <string_view>
using mpd_ssize_t = std::int64_t;
#define MPD_MAX_EMAX 999999999999999999LL
#define MPD_MIN_EMIN (-999999999999999999LL)
namespace takatori::decimal { class triple; }
namespace decimal {
constexpr std::uint32_t DecInexact = 64U;
constexpr std::uint32_t DecRounded = 4096U;
struct ValueError : std::runtime_error { using std::runtime_error::runtime_error; };
class Context {
public:
    Context(mpd_ssize_t prec, mpd_ssize_t emax, mpd_ssize_t emin) : prec_ { prec }, emax_ { emax }, emin_ { emin } {}
    std::uint32_t status() const { return status_; }
    mpd_ssize_t prec() const { return prec_; }
    mpd_ssize_t emin() const { return emin_; }
    void add_status(std::uint32_t s) { status_ |= s; }
private:
    mpd_ssize_t prec_;
    [[maybe_unused]] mpd_ssize_t emax_;
    mpd_ssize_t emin_;
    std::uint32_t status_ {};
};
class Decimal {
public:
    Decimal() = default;
    explicit Decimal(std::string_view s) { parse(s); }
    Decimal(std::string_view s, Context& c) { parse(s); finalize(c); }
    Decimal(::takatori::decimal::triple const& t);
    bool isinteger() const {
        if (exp_ >= 0 || iszero()) { return true; }
        auto n = static_cast<std::size_t>(-exp_);
        return n < digits_.size() && digits_.find_first_not_of('0', digits_.size() - n) == std::string::npos;
    }
    std::int64_t i64() const { return integer(std::numeric_limits<std::int64_t>::min(), std::numeric_limits<std::int64_t>::max()); }
    std::int32_t i32() const { return static_cast<std::int32_t>(integer(std::numeric_limits<std::int32_t>::min(), std::numeric_limits<std::int32_t>::max())); }
    friend std::ostream& operator<<(std::ostream& out, Decimal const& v) { return out << (v.neg_ ? "-" : "") << v.digits_ << "E" << v.exp_; }
    mpd_ssize_t exponent() const { return exp_; }
    bool iszero() const { return digits_ == "0"; }
    bool issigned() const { return neg_; }
    Decimal minus(Context& c) const {
        Decimal r { *this };
        r.neg_ = iszero() ? false : !neg_;
        r.finalize(c);
        return r;
    }
    mpd_ssize_t adjexp() const { return exp_ + static_cast<mpd_ssize_t>(digits_.size()) - 1; }
    bool isnormal(Context const& c) const { return !iszero() && adjexp() >= c.emin(); }
    std::string number_class(Context const& c) const {
        std::string s = neg_ ? "-" : "+";
        if (iszero()) { return s + "Zero"; }
        return s + (isnormal(c) ? "Normal" : "Subnormal");
    }
    Decimal coeff() const { Decimal r {}; r.digits_ = digits_; return r; }
    std::string const& digits() const { return digits_; }
private:
    bool neg_ {};
    std::string digits_ { "0" };
    mpd_ssize_t exp_ {};
    std::int64_t integer(std::int64_t lo, std::int64_t hi) const {
        if (!isinteger()) { throw ValueError("not an integer"); }
        if (iszero()) { return 0; }
        if (adjexp() > 19) { throw ValueError("out of range"); }
        auto d = digits_;
        if (exp_ < 0) { d.resize(d.size() - static_cast<std::size_t>(-exp_)); } else { d.append(static_cast<std::size_t>(exp_), '0'); }
        __int128 v = 0;
        for (char c : d) { v = v * 10 + (c - '0'); }
        if (neg_) { v = -v; }
        if (v < lo || v > hi) { throw ValueError("out of range"); }
        return static_cast<std::int64_t>(v);
    }
    void trim() {
        auto p = digits_.find_first_not_of('0');
        digits_ = p == std::string::npos ? "0" : digits_.substr(p);
    }
    void parse(std::string_view s) {
        digits_.clear();
        std::size_t i = 0;
        if (i < s.size() && (s[i] == '+' || s[i] == '-')) { neg_ = s[i] == '-'; ++i; }
        bool dot = false;
        for (; i < s.size(); ++i) {
            auto c = s[i];
            if (c >= '0' && c <= '9') { digits_ += c; if (dot) { --exp_; } continue; }
            if (c == '.' && !dot) { dot = true; continue; }
            break;
        }
        if (digits_.empty()) { throw std::invalid_argument("invalid decimal"); }
        if (i < s.size() && (s[i] == 'e' || s[i] == 'E')) {
            std::size_t n = 0;
            std::string r { s.substr(i + 1) };
            exp_ += std::stoll(r, &n);
            i += 1 + n;
        }
        if (i != s.size()) { throw std::invalid_argument("invalid decimal"); }
        trim();
    }
    void finalize(Context& c) {
        auto n = static_cast<mpd_ssize_t>(digits_.size());
        if (n <= c.prec()) { return; }
        auto drop = n - c.prec();
        std::string tail = digits_.substr(static_cast<std::size_t>(c.prec()));
        digits_.resize(static_cast<std::size_t>(c.prec()));
        exp_ += drop;
        c.add_status(DecRounded);
        if (tail.find_first_not_of('0') == std::string::npos) { return; }
        c.add_status(DecInexact);
        bool half = tail[0] == '5' && tail.find_first_not_of('0', 1) == std::string::npos;
        bool up = tail[0] > '5' || (tail[0] == '5' && (!half || ((digits_.back() - '0') % 2) != 0));
        if (up) {
            auto j = digits_.size();
            while (j > 0 && digits_[j - 1] == '9') { digits_[--j] = '0'; }
            if (j == 0) { digits_.insert(digits_.begin(), '1'); digits_.pop_back(); ++exp_; } else { ++digits_[j - 1]; }
        }
    }
};
} // namespace decimal
namespace takatori::decimal {
class triple {
public:
    constexpr triple() = default;
    constexpr triple(std::int64_t sign, std::uint64_t hi, std::uint64_t lo, std::int32_t exponent)
        : sign_ { hi == 0 && lo == 0 ? 0 : (sign > 0 ? 1 : (sign < 0 ? -1 : 0)) }, hi_ { hi }, lo_ { lo }, exp_ { exponent } {}
    constexpr triple(std::int64_t value, std::int32_t exponent = 0)
        : triple { value, 0, value < 0 ? 0 - static_cast<std::uint64_t>(value) : static_cast<std::uint64_t>(value), exponent } {}
    explicit triple(::decimal::Decimal const& v) {
        unsigned __int128 c = 0;
        for (char d : v.digits()) {
            auto n = static_cast<unsigned __int128>(d - '0');
            if (c > (~static_cast<unsigned __int128>(0) - n) / 10) { throw std::overflow_error("coefficient"); }
            c = c * 10 + n;
        }
        if (v.exponent() > std::numeric_limits<std::int32_t>::max() || v.exponent() < std::numeric_limits<std::int32_t>::min()) {
            throw std::overflow_error("exponent");
        }
        hi_ = static_cast<std::uint64_t>(c >> 64U); lo_ = static_cast<std::uint64_t>(c);
        sign_ = c == 0 ? 0 : (v.issigned() ? -1 : 1);
        exp_ = static_cast<std::int32_t>(v.exponent());
    }
    explicit triple(std::string_view s) : triple { ::decimal::Decimal { s } } {}
    explicit triple(char const* s) : triple { std::string_view { s } } {}
    constexpr std::int64_t sign() const { return sign_; }
    constexpr std::uint64_t coefficient_high() const { return hi_; }
    constexpr std::uint64_t coefficient_low() const { return lo_; }
    constexpr std::int32_t exponent() const { return exp_; }
    std::string to_string() const {
        auto c = (static_cast<unsigned __int128>(hi_) << 64U) | lo_;
        std::string s;
        do { s.insert(s.begin(), static_cast<char>('0' + static_cast<int>(c % 10))); c /= 10; } while (c != 0);
        return (sign_ < 0 ? "-" : "") + s + "E" + std::to_string(exp_);
    }
    std::string digits() const { auto s = to_string(); auto b = sign_ < 0 ? 1 : 0; return s.substr(b, s.find('E') - b); }
    friend constexpr bool operator==(triple const& a, triple const& b) {
        return a.sign_ == b.sign_ && a.hi_ == b.hi_ && a.lo_ == b.lo_ && a.exp_ == b.exp_;
    }
    friend constexpr bool operator!=(triple const& a, triple const& b) { return !(a == b); }
    friend std::ostream& operator<<(std::ostream& out, triple const& v) { return out << v.to_string(); }
private:
    std::int64_t sign_ {};
    std::uint64_t hi_ {}, lo_ {};
    std::int32_t exp_ {};
};
} // namespace takatori::decimal
namespace decimal {
inline Decimal::Decimal(::takatori::decimal::triple const& t) : neg_ { t.sign() < 0 }, digits_ { t.digits() }, exp_ { t.exponent() } {}
} // namespace decimal
