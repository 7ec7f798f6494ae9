// Stand-in of takatori::value: immutable values.
#pragma once
#include <cstring>
#include "../datetime/conversion.h"
#include "../decimal/triple.h"
#include "../impl/object.h"
namespace takatori::value {
enum class value_kind { unknown, boolean, int4, int8, float4, float8, decimal, character, octet, bit, date, time_of_day, time_point, datetime_interval, array, record, extension };
inline constexpr std::string_view to_string_view(value_kind k) noexcept {
    constexpr std::string_view n[] { "unknown", "boolean", "int4", "int8", "float4", "float8", "decimal", "character", "octet", "bit", "date",
        "time_of_day", "time_point", "datetime_interval", "array", "record", "extension" };
    return n[static_cast<std::size_t>(k)];
}
inline std::ostream& operator<<(std::ostream& out, value_kind k) { return out << to_string_view(k); }
class data {
public:
    data() = default;
    virtual ~data() = default;
    data(data const&) = default; data& operator=(data const&) = default;
    data(data&&) = default; data& operator=(data&&) = default;
    [[nodiscard]] virtual value_kind kind() const noexcept = 0;
    [[nodiscard]] virtual data* clone() const& = 0;
    [[nodiscard]] virtual data* clone() && = 0;
    friend bool operator==(data const& a, data const& b) { return a.kind() == b.kind() && a.equals(b); }
    friend bool operator!=(data const& a, data const& b) { return !(a == b); }
    friend std::ostream& operator<<(std::ostream& out, data const& v) { return v.print(out); }
protected:
    [[nodiscard]] virtual bool equals(data const&) const noexcept = 0;
    virtual std::ostream& print(std::ostream& out) const = 0;
};
template<value_kind K, class T, class V = T>
class simple : public data {
public:
    static constexpr value_kind tag = K;
    using entity_type = T;
    using view_type = V;
    explicit simple(T v) noexcept : v_ { std::move(v) } {}
    [[nodiscard]] V get() const noexcept { return V { v_ }; }
    [[nodiscard]] value_kind kind() const noexcept override { return K; }
    [[nodiscard]] simple* clone() const& override { return new simple(*this); }
    [[nodiscard]] simple* clone() && override { return new simple(std::move(*this)); }
protected:
    [[nodiscard]] bool equals(data const& o) const noexcept override {
        auto const& b = static_cast<simple const&>(o).v_;
        if constexpr (std::is_floating_point_v<T>) { return std::memcmp(&v_, &b, sizeof(T)) == 0; } else { return v_ == b; }
    }
    std::ostream& print(std::ostream& out) const override {
        if constexpr (K == value_kind::boolean) return out << (v_ ? "true" : "false");
        else return out << K << "(" << v_ << ")";
    }
    T v_;
};
using boolean = simple<value_kind::boolean, bool>;
using int4 = simple<value_kind::int4, std::int32_t>;
using int8 = simple<value_kind::int8, std::int64_t>;
using float4 = simple<value_kind::float4, float>;
using float8 = simple<value_kind::float8, double>;
template<value_kind K, class T> class temporal : public simple<K, T> {
public:
    using simple<K, T>::simple;
    template<class A, class B, class... R>
    explicit temporal(A a, B b, R... r) noexcept : simple<K, T> { T(a, b, r...) } {}
    [[nodiscard]] temporal* clone() const& override { return new temporal(*this); }
    [[nodiscard]] temporal* clone() && override { return new temporal(std::move(*this)); }
};
using date = temporal<value_kind::date, ::takatori::datetime::date>;
using time_of_day = temporal<value_kind::time_of_day, ::takatori::datetime::time_of_day>;
using time_point = temporal<value_kind::time_point, ::takatori::datetime::time_point>;
class decimal : public simple<value_kind::decimal, ::takatori::decimal::triple> {
public:
    using simple::simple;
    explicit decimal(std::string_view s) : simple { ::takatori::decimal::triple { ::decimal::Decimal { s } } } {}
    explicit decimal(char const* s) : decimal { std::string_view { s } } {}
    [[nodiscard]] decimal* clone() const& override { return new decimal(*this); }
    [[nodiscard]] decimal* clone() && override { return new decimal(std::move(*this)); }
};
template<value_kind K> class text : public simple<K, std::string, std::string_view> {
public:
    explicit text(std::string v) noexcept : simple<K, std::string, std::string_view> { std::move(v) } {}
    explicit text(std::string_view v) : simple<K, std::string, std::string_view> { std::string { v } } {}
    explicit text(char const* v) : simple<K, std::string, std::string_view> { std::string { v } } {}
    [[nodiscard]] text* clone() const& override { return new text(*this); }
    [[nodiscard]] text* clone() && override { return new text(std::move(*this)); }
};
using character = text<value_kind::character>;
using octet = text<value_kind::octet>;
enum class unknown_kind { null };
class unknown : public data {
public:
    static constexpr value_kind tag = value_kind::unknown;
    explicit unknown(unknown_kind k = unknown_kind::null) noexcept : k_ { k } {}
    [[nodiscard]] unknown_kind get() const noexcept { return k_; }
    [[nodiscard]] value_kind kind() const noexcept override { return tag; }
    [[nodiscard]] unknown* clone() const& override { return new unknown(*this); }
    [[nodiscard]] unknown* clone() && override { return new unknown(std::move(*this)); }
protected:
    [[nodiscard]] bool equals(data const&) const noexcept override { return true; }
    std::ostream& print(std::ostream& out) const override { return out << "null"; }
private:
    unknown_kind k_;
};
struct octet_result {
    std::string message {};
    [[nodiscard]] explicit operator bool() const noexcept { return message.empty(); }
    [[nodiscard]] std::string const& error() const noexcept { return message; }
};
// appends the octets described by the hex digits; white-spaces may appear between the octets
inline octet_result parse_octet(std::string_view s, std::string& out) {
    auto hex = [](char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; };
    int high = -1;
    for (char c : s) {
        if (c == ' ') { if (high >= 0) return { "split octet" }; continue; }
        int v = hex(c);
        if (v < 0) return { "not a hex digit" };
        if (high < 0) { high = v; } else { out += static_cast<char>(high * 16 + v); high = -1; }
    }
    if (high >= 0) return { "odd digits" };
    return {};
}
} // namespace takatori::value
