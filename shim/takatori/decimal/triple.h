// Stand-in of libmpdec++ (::decimal) and takatori::decimal::triple: exact decimal numbers.
#pragma once
#include <cstdint>
#include <ostream>
#include <stdexcept>
#include <string>
#include <string_view>
using mpd_ssize_t = std::int64_t;
#ifndef MPD_MAX_EMAX
#define MPD_MAX_EMAX (static_cast<mpd_ssize_t>(999999999999999999LL))
#define MPD_MIN_EMIN (static_cast<mpd_ssize_t>(-999999999999999999LL))
#define MPD_MAX_PREC (static_cast<mpd_ssize_t>(999999999999999999LL))
#endif
namespace decimal {
inline constexpr std::uint32_t DecRounded = 0x1000;
inline constexpr std::uint32_t DecInexact = 0x40;
inline constexpr std::uint32_t DecConversionSyntax = 0x2;
class ValueError : public std::runtime_error { using runtime_error::runtime_error; };
class Context {
public:
    explicit Context(mpd_ssize_t prec = 16, mpd_ssize_t emax = MPD_MAX_EMAX, mpd_ssize_t emin = MPD_MIN_EMIN) noexcept
        : prec_ { prec }, emax_ { emax }, emin_ { emin } {}
    [[nodiscard]] mpd_ssize_t prec() const noexcept { return prec_; }
    [[nodiscard]] mpd_ssize_t emin() const noexcept { return emin_; }
    [[nodiscard]] mpd_ssize_t emax() const noexcept { return emax_; }
    [[nodiscard]] std::uint32_t status() const noexcept { return status_; }
    void raise(std::uint32_t s) noexcept { status_ |= s; }
    void clear_status() noexcept { status_ = 0; }
private:
    mpd_ssize_t prec_, emax_, emin_; std::uint32_t status_ {};
};
class Decimal {
public:
    Decimal() = default;
    Decimal(std::string const& s, Context& c) { parse(s); finish(c); }
    Decimal(std::string_view s, Context& c) { parse(s); finish(c); }
    Decimal(char const* s, Context& c) { parse(s); finish(c); }
    explicit Decimal(std::string_view s) { parse(s); }
    explicit Decimal(std::string const& s) { parse(s); }
    explicit Decimal(char const* s) { parse(s); }
    Decimal(bool neg, std::string digits, mpd_ssize_t exp) : neg_ { neg }, digits_ { std::move(digits) }, exp_ { exp } { trim(); }
    Decimal(std::int64_t v) : neg_ { v < 0 }, digits_ { std::to_string(v) } { if (neg_) digits_.erase(0, 1); } // NOLINT
    [[nodiscard]] mpd_ssize_t exponent() const noexcept { return exp_; }
    [[nodiscard]] mpd_ssize_t adjexp() const noexcept { return exp_ + static_cast<mpd_ssize_t>(digits_.size()) - 1; }
    [[nodiscard]] Decimal coeff() const { return { false, digits_, 0 }; }
    [[nodiscard]] bool iszero() const noexcept { return digits_ == "0"; }
    [[nodiscard]] bool isinteger() const noexcept {
        if (exp_ >= 0) return true;
        for (std::size_t i = 0; i < static_cast<std::size_t>(-exp_); ++i) {
            if (i >= digits_.size()) return iszero();
            if (digits_[digits_.size() - 1 - i] != '0') return false;
        }
        return true;
    }
    [[nodiscard]] bool issigned() const noexcept { return neg_; }
    [[nodiscard]] bool isnormal(Context const& c) const noexcept { return !iszero() && adjexp() >= c.emin(); }
    [[nodiscard]] char const* number_class(Context const&) const noexcept { return iszero() ? "Zero" : "Normal"; }
    [[nodiscard]] Decimal minus(Context&) const { return { !neg_ && !iszero(), digits_, exp_ }; }
    [[nodiscard]] Decimal operator-() const { return { !neg_, digits_, exp_ }; }
    [[nodiscard]] std::string const& digits() const noexcept { return digits_; }
    [[nodiscard]] std::int64_t i64() const { return integer(INT64_MIN, INT64_MAX); }
    [[nodiscard]] std::int32_t i32() const { return static_cast<std::int32_t>(integer(INT32_MIN, INT32_MAX)); }
    friend std::ostream& operator<<(std::ostream& out, Decimal const& v) {
        if (v.neg_) out << '-';
        if (v.exp_ > 0) return out << v.digits_ << "E+" << v.exp_;
        auto scale = static_cast<std::size_t>(-v.exp_);
        if (scale == 0) return out << v.digits_;
        auto d = v.digits_;
        if (d.size() <= scale) d.insert(0, scale + 1 - d.size(), '0');
        return out << d.substr(0, d.size() - scale) << '.' << d.substr(d.size() - scale);
    }
    friend bool operator==(Decimal const& a, Decimal const& b) { return a.neg_ == b.neg_ && a.exp_ == b.exp_ && a.digits_ == b.digits_; }
private:
    bool neg_ {}; std::string digits_ { "0" }; mpd_ssize_t exp_ {};
    void trim() { auto i = digits_.find_first_not_of('0'); if (i == std::string::npos) digits_ = "0"; else digits_.erase(0, i); }
    void parse(std::string_view s) {
        digits_.clear();
        std::size_t i = 0; bool any = false;
        if (i < s.size() && (s[i] == '+' || s[i] == '-')) { neg_ = s[i] == '-'; ++i; }
        for (; i < s.size() && s[i] >= '0' && s[i] <= '9'; ++i) { digits_ += s[i]; any = true; }
        if (i < s.size() && s[i] == '.') {
            for (++i; i < s.size() && s[i] >= '0' && s[i] <= '9'; ++i) { digits_ += s[i]; --exp_; any = true; }
        }
        if (!any || i != s.size()) throw ValueError("invalid decimal");
        trim();
    }
    void finish(Context& c) {
        auto n = static_cast<mpd_ssize_t>(digits_.size());
        if (n > c.prec()) {
            auto cut = n - c.prec();
            std::string tail = digits_.substr(static_cast<std::size_t>(c.prec()));
            digits_.resize(static_cast<std::size_t>(c.prec()));
            exp_ += cut;
            c.raise(DecRounded);
            if (tail.find_first_not_of('0') != std::string::npos) c.raise(DecInexact);
        }
    }
    [[nodiscard]] std::int64_t integer(std::int64_t lo, std::int64_t hi) const {
        if (!isinteger()) throw ValueError("not an integer");
        std::string d = digits_;
        if (exp_ < 0) { if (iszero()) d = "0"; else d.resize(d.size() - static_cast<std::size_t>(-exp_)); }
        else { if (!iszero()) { if (exp_ > 30) throw ValueError("out of range"); d.append(static_cast<std::size_t>(exp_), '0'); } }
        __int128 v = 0;
        for (char ch : d) { v = v * 10 + (ch - '0'); if (v > (static_cast<__int128>(1) << 70)) throw ValueError("out of range"); }
        if (neg_) v = -v;
        if (v < lo || v > hi) throw ValueError("out of range");
        return static_cast<std::int64_t>(v);
    }
};
} // namespace decimal
namespace takatori::decimal {
class triple {
public:
    triple() = default;
    triple(std::int64_t sign, std::uint64_t hi, std::uint64_t lo, std::int32_t exponent) noexcept
        : sign_ { hi == 0 && lo == 0 ? 0 : (sign > 0 ? 1 : (sign < 0 ? -1 : 0)) }, hi_ { hi }, lo_ { lo }, exp_ { exponent } {}
    triple(std::int64_t coefficient, std::int32_t exponent = 0) noexcept // NOLINT
        : sign_ { coefficient > 0 ? 1 : (coefficient < 0 ? -1 : 0) }
        , lo_ { coefficient < 0 ? ~static_cast<std::uint64_t>(coefficient) + 1 : static_cast<std::uint64_t>(coefficient) }, exp_ { exponent } {}
    explicit triple(::decimal::Decimal const& v) : exp_ { static_cast<std::int32_t>(v.exponent()) } {
        unsigned __int128 c = 0;
        for (char ch : v.digits()) {
            auto next = c * 10 + static_cast<unsigned>(ch - '0');
            if (c > (~static_cast<unsigned __int128>(0)) / 10) throw std::overflow_error("decimal coefficient is too large");
            c = next;
        }
        hi_ = static_cast<std::uint64_t>(c >> 64U); lo_ = static_cast<std::uint64_t>(c);
        sign_ = c == 0 ? 0 : (v.issigned() ? -1 : 1);
    }
    [[nodiscard]] std::int64_t sign() const noexcept { return sign_; }
    [[nodiscard]] std::uint64_t coefficient_high() const noexcept { return hi_; }
    [[nodiscard]] std::uint64_t coefficient_low() const noexcept { return lo_; }
    [[nodiscard]] std::int32_t exponent() const noexcept { return exp_; }
    [[nodiscard]] ::decimal::Decimal as_decimal() const {
        auto c = (static_cast<unsigned __int128>(hi_) << 64U) | lo_;
        std::string s; do { s.insert(s.begin(), static_cast<char>('0' + static_cast<int>(c % 10))); c /= 10; } while (c != 0);
        return { sign_ < 0, s, exp_ };
    }
    explicit operator ::decimal::Decimal() const { return as_decimal(); }
    friend bool operator==(triple const& a, triple const& b) noexcept { return a.sign_ == b.sign_ && a.hi_ == b.hi_ && a.lo_ == b.lo_ && a.exp_ == b.exp_; }
    friend bool operator!=(triple const& a, triple const& b) noexcept { return !(a == b); }
    friend std::ostream& operator<<(std::ostream& out, triple const& v) { return out << v.as_decimal(); }
private:
    std::int64_t sign_ {}; std::uint64_t hi_ {}, lo_ {}; std::int32_t exp_ {};
};
} // namespace takatori::decimal
