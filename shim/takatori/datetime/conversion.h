// Stand-in of takatori::datetime: civil calendar values and the parser of temporal literals.
#pragma once
#include <chrono>
#include <cstdint>
#include <memory>
#include <optional>
#include <ostream>
#include <string>
#include <string_view>
#include <variant>
namespace takatori::datetime {
using time_unit = std::chrono::duration<std::uint64_t, std::nano>;
struct date_info { std::uint32_t year {}, month {}, day {}; };
struct time_info { std::uint32_t hour {}, minute {}, second {}; time_unit subsecond {}; };
struct zone_offset_info { bool plus { true }; std::uint32_t hour {}, minute {}; };
struct datetime_info { date_info date; time_info time; std::optional<zone_offset_info> offset; };

// days since 1970-01-01 of a proleptic Gregorian date
inline constexpr std::int64_t civil_days(std::int64_t y, std::int64_t m, std::int64_t d) noexcept {
    y -= m <= 2 ? 1 : 0;
    std::int64_t era = (y >= 0 ? y : y - 399) / 400;
    std::int64_t yoe = y - era * 400;
    std::int64_t doy = (153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + d - 1;
    std::int64_t doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
    return era * 146097 + doe - 719468;
}
class date {
public:
    constexpr date() noexcept = default;
    constexpr date(std::int32_t y, std::uint32_t m, std::uint32_t d) noexcept : days_ { civil_days(y, m, d) } {}
    [[nodiscard]] constexpr std::int64_t days_since_epoch() const noexcept { return days_; }
    friend constexpr bool operator==(date a, date b) noexcept { return a.days_ == b.days_; }
    friend constexpr bool operator!=(date a, date b) noexcept { return a.days_ != b.days_; }
    friend std::ostream& operator<<(std::ostream& out, date v) { return out << "day:" << v.days_; }
private:
    std::int64_t days_ {};
};
class time_of_day {
public:
    constexpr time_of_day() noexcept = default;
    constexpr time_of_day(std::uint32_t h, std::uint32_t m, std::uint32_t s, time_unit sub = {}) noexcept
        : ns_ { (static_cast<std::uint64_t>(h) * 3600 + m * 60ULL + s) * 1000000000ULL + sub.count() } {}
    [[nodiscard]] constexpr time_unit time_since_epoch() const noexcept { return time_unit { ns_ }; }
    friend constexpr bool operator==(time_of_day a, time_of_day b) noexcept { return a.ns_ == b.ns_; }
    friend constexpr bool operator!=(time_of_day a, time_of_day b) noexcept { return a.ns_ != b.ns_; }
    friend std::ostream& operator<<(std::ostream& out, time_of_day v) { return out << "ns:" << v.ns_; }
private:
    std::uint64_t ns_ {};
};
class time_point {
public:
    constexpr time_point() noexcept = default;
    constexpr time_point(date d, time_of_day t) noexcept
        : sec_ { d.days_since_epoch() * 86400 + static_cast<std::int64_t>(t.time_since_epoch().count() / 1000000000ULL) }
        , sub_ { static_cast<std::uint32_t>(t.time_since_epoch().count() % 1000000000ULL) } {}
    constexpr time_point(std::int32_t y, std::uint32_t mo, std::uint32_t d, std::uint32_t h, std::uint32_t mi, std::uint32_t s, time_unit sub = {}) noexcept
        : time_point { date { y, mo, d }, time_of_day { h, mi, s, sub } } {}
    [[nodiscard]] constexpr std::int64_t seconds_since_epoch() const noexcept { return sec_; }
    [[nodiscard]] constexpr std::uint32_t subsecond() const noexcept { return sub_; }
    template<class R, class P> time_point& operator-=(std::chrono::duration<R, P> d) noexcept {
        auto ns = std::chrono::duration_cast<std::chrono::duration<std::int64_t, std::nano>>(d).count();
        std::int64_t s = ns / 1000000000, r = ns % 1000000000;
        sec_ -= s;
        std::int64_t sub = static_cast<std::int64_t>(sub_) - r;
        if (sub < 0) { sub += 1000000000; --sec_; }
        if (sub >= 1000000000) { sub -= 1000000000; ++sec_; }
        sub_ = static_cast<std::uint32_t>(sub);
        return *this;
    }
    template<class R, class P> time_point& operator+=(std::chrono::duration<R, P> d) noexcept { return *this -= -d; }
    friend constexpr bool operator==(time_point a, time_point b) noexcept { return a.sec_ == b.sec_ && a.sub_ == b.sub_; }
    friend constexpr bool operator!=(time_point a, time_point b) noexcept { return !(a == b); }
    friend std::ostream& operator<<(std::ostream& out, time_point v) { return out << "sec:" << v.sec_ << "." << v.sub_; }
private:
    std::int64_t sec_ {}; std::uint32_t sub_ {};
};
template<class T> class conversion_result {
public:
    conversion_result(T v) : value_ { std::move(v) } {} // NOLINT
    conversion_result(std::string error) : value_ { std::move(error) } {} // NOLINT
    [[nodiscard]] bool has_value() const noexcept { return value_.index() == 0; }
    [[nodiscard]] explicit operator bool() const noexcept { return has_value(); }
    [[nodiscard]] T const& value() const { return std::get<0>(value_); }
    [[nodiscard]] T const& operator*() const { return value(); }
    [[nodiscard]] T const* operator->() const { return std::addressof(value()); }
    [[nodiscard]] bool is_error() const noexcept { return !has_value(); }
    [[nodiscard]] std::string const& error() const { return std::get<1>(value_); }
private:
    std::variant<T, std::string> value_;
};
namespace impl {
struct cursor {
    std::string_view s; std::size_t i {};
    bool ch(char c) { if (i < s.size() && s[i] == c) { ++i; return true; } return false; }
    bool peek(char c) const { return i < s.size() && s[i] == c; }
    bool digit() const { return i < s.size() && s[i] >= '0' && s[i] <= '9'; }
    bool num(std::size_t min, std::size_t max, std::uint32_t& out) {
        std::uint32_t v = 0; std::size_t n = 0;
        while (n < max && digit()) { v = v * 10 + static_cast<std::uint32_t>(s[i] - '0'); ++i; ++n; }
        if (n < min || digit()) return false;
        out = v; return true;
    }
    bool end() const { return i == s.size(); }
};
inline bool scan_date(cursor& c, date_info& o) {
    if (!(c.num(1, 4, o.year) && c.ch('-') && c.num(1, 2, o.month) && c.ch('-') && c.num(1, 2, o.day))) return false;
    if (o.month < 1 || o.month > 12 || o.day < 1) return false;
    static constexpr std::uint32_t md[] { 31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31 };
    auto max = md[o.month - 1];
    if (o.month == 2 && o.year % 4 == 0 && (o.year % 100 != 0 || o.year % 400 == 0)) ++max;
    return o.day <= max;
}
inline bool scan_time(cursor& c, time_info& o) {
    if (!(c.num(1, 2, o.hour) && c.ch(':') && c.num(1, 2, o.minute) && c.ch(':') && c.num(1, 2, o.second))) return false;
    if (o.hour > 23 || o.minute > 59 || o.second > 59) return false;
    if (c.ch('.')) {
        std::uint64_t v = 0; std::size_t n = 0;
        while (c.digit()) { if (n >= 9) return false; v = v * 10 + static_cast<std::uint64_t>(c.s[c.i] - '0'); ++c.i; ++n; }
        if (n == 0) return false;
        for (; n < 9; ++n) v *= 10;
        o.subsecond = time_unit { v };
    }
    return true;
}
inline bool scan_offset(cursor& c, zone_offset_info& o) {
    if (c.ch('Z') || c.ch('z')) { o = {}; return true; }
    if (c.ch('+')) o.plus = true; else if (c.ch('-')) o.plus = false; else return false;
    if (!c.num(1, 2, o.hour)) return false;
    if (c.ch(':') && !c.num(1, 2, o.minute)) return false;
    return o.hour <= 14 && o.minute <= 59;
}
} // namespace impl
inline conversion_result<date_info> parse_date(std::string_view s) {
    impl::cursor c { s }; date_info d;
    if (impl::scan_date(c, d) && c.end()) return d;
    return std::string { "invalid date" };
}
inline conversion_result<time_info> parse_time(std::string_view s) {
    impl::cursor c { s }; time_info t;
    if (impl::scan_time(c, t) && c.end()) return t;
    return std::string { "invalid time" };
}
inline conversion_result<datetime_info> parse_datetime(std::string_view s) {
    impl::cursor c { s }; datetime_info r;
    if (!impl::scan_date(c, r.date)) return std::string { "invalid date" };
    if (!(c.ch(' ') || c.ch('T'))) return std::string { "missing time" };
    if (!impl::scan_time(c, r.time)) return std::string { "invalid time" };
    if (!c.end()) { zone_offset_info o; if (!impl::scan_offset(c, o)) return std::string { "invalid offset" }; r.offset = o; }
    if (!c.end()) return std::string { "invalid tail" };
    return r;
}
} // namespace takatori::datetime
