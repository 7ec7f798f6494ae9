// Stand-in of takatori::type: immutable type descriptions.
#pragma once
#include "../impl/object.h"
namespace takatori::type {
enum class type_kind {
    boolean, int1, int2, int4, int8, float4, float8, decimal, character, octet, bit,
    date, time_of_day, time_point, datetime_interval, blob, clob, table, array, record, unknown,
    row_reference, row_id, declared, extension,
};
inline constexpr std::string_view to_string_view(type_kind k) noexcept {
    constexpr std::string_view n[] { "boolean", "int1", "int2", "int4", "int8", "float4", "float8", "decimal", "character", "octet", "bit",
        "date", "time_of_day", "time_point", "datetime_interval", "blob", "clob", "table", "array", "record", "unknown",
        "row_reference", "row_id", "declared", "extension" };
    return n[static_cast<std::size_t>(k)];
}
inline std::ostream& operator<<(std::ostream& out, type_kind k) { return out << to_string_view(k); }

struct varying_t {
    bool v { true };
    constexpr varying_t() noexcept = default;
    explicit constexpr varying_t(bool b) noexcept : v { b } {}
    [[nodiscard]] constexpr varying_t operator~() const noexcept { return varying_t { !v }; }
    [[nodiscard]] explicit constexpr operator bool() const noexcept { return v; }
    [[nodiscard]] constexpr bool operator*() const noexcept { return v; }
};
inline constexpr varying_t varying { true };
struct with_time_zone_t {
    bool v { true };
    constexpr with_time_zone_t() noexcept = default;
    explicit constexpr with_time_zone_t(bool b) noexcept : v { b } {}
    [[nodiscard]] constexpr with_time_zone_t operator~() const noexcept { return with_time_zone_t { !v }; }
    [[nodiscard]] explicit constexpr operator bool() const noexcept { return v; }
    [[nodiscard]] constexpr bool operator*() const noexcept { return v; }
};
inline constexpr with_time_zone_t with_time_zone { true };

class data {
public:
    data() = default;
    virtual ~data() = default;
    data(data const&) = default; data& operator=(data const&) = default;
    data(data&&) = default; data& operator=(data&&) = default;
    [[nodiscard]] virtual type_kind kind() const noexcept = 0;
    [[nodiscard]] virtual data* clone() const& = 0;
    [[nodiscard]] virtual data* clone() && = 0;
    friend bool operator==(data const& a, data const& b) { return a.kind() == b.kind() && a.equals(b); }
    friend bool operator!=(data const& a, data const& b) { return !(a == b); }
    friend std::ostream& operator<<(std::ostream& out, data const& v) { return v.print(out); }
protected:
    [[nodiscard]] virtual bool equals(data const&) const noexcept { return true; }
    virtual std::ostream& print(std::ostream& out) const { return out << kind() << "()"; }
};
template<type_kind K> class base : public data {
public:
    static constexpr type_kind tag = K;
    [[nodiscard]] type_kind kind() const noexcept override { return K; }
};
template<type_kind K> class simple : public base<K> { public: SHIM_CLONE(simple) };
using boolean = simple<type_kind::boolean>;
using int1 = simple<type_kind::int1>;
using int2 = simple<type_kind::int2>;
using int4 = simple<type_kind::int4>;
using int8 = simple<type_kind::int8>;
using float4 = simple<type_kind::float4>;
using float8 = simple<type_kind::float8>;
using date = simple<type_kind::date>;
using datetime_interval = simple<type_kind::datetime_interval>;
using blob = simple<type_kind::blob>;
using clob = simple<type_kind::clob>;
using unknown = simple<type_kind::unknown>;
using row_reference = simple<type_kind::row_reference>;
using row_id = simple<type_kind::row_id>;

class decimal : public base<type_kind::decimal> {
public:
    SHIM_CLONE(decimal)
    using size_type = std::size_t;
    static constexpr size_type default_scale = 0;
    explicit decimal(std::optional<size_type> precision = {}, std::optional<size_type> scale = default_scale) noexcept
        : precision_ { precision }, scale_ { scale } {}
    [[nodiscard]] std::optional<size_type> precision() const noexcept { return precision_; }
    [[nodiscard]] std::optional<size_type> scale() const noexcept { return scale_; }
protected:
    [[nodiscard]] bool equals(data const& o) const noexcept override {
        auto& b = static_cast<decimal const&>(o); return precision_ == b.precision_ && scale_ == b.scale_;
    }
    std::ostream& print(std::ostream& out) const override {
        out << "decimal(";
        if (precision_) out << *precision_; else out << "*";
        out << ",";
        if (scale_) out << *scale_; else out << "*";
        return out << ")";
    }
private:
    std::optional<size_type> precision_, scale_;
};
template<type_kind K> class sized : public base<K> {
public:
    SHIM_CLONE(sized)
    using size_type = std::size_t;
    explicit sized(varying_t v, std::optional<size_type> length = {}) noexcept : varying_ { v }, length_ { length } {}
    explicit sized(std::optional<size_type> length) noexcept : varying_ { false }, length_ { length } {}
    [[nodiscard]] bool varying() const noexcept { return *varying_; }
    [[nodiscard]] std::optional<size_type> length() const noexcept { return length_; }
protected:
    [[nodiscard]] bool equals(data const& o) const noexcept override {
        auto& b = static_cast<sized const&>(o); return varying() == b.varying() && length_ == b.length_;
    }
    std::ostream& print(std::ostream& out) const override {
        out << K << (varying() ? " varying(" : "(");
        if (length_) out << *length_; else out << "*";
        return out << ")";
    }
private:
    varying_t varying_; std::optional<size_type> length_;
};
using character = sized<type_kind::character>;
using octet = sized<type_kind::octet>;
using bit = sized<type_kind::bit>;
template<type_kind K> class zoned : public base<K> {
public:
    SHIM_CLONE(zoned)
    explicit zoned(with_time_zone_t tz = ~::takatori::type::with_time_zone) noexcept : tz_ { tz } {}
    [[nodiscard]] bool with_time_zone() const noexcept { return *tz_; }
protected:
    [[nodiscard]] bool equals(data const& o) const noexcept override { return with_time_zone() == static_cast<zoned const&>(o).with_time_zone(); }
    std::ostream& print(std::ostream& out) const override { return out << K << (with_time_zone() ? "(with_time_zone)" : "()"); }
private:
    with_time_zone_t tz_;
};
using time_of_day = zoned<type_kind::time_of_day>;
using time_point = zoned<type_kind::time_point>;

class table : public base<type_kind::table> {
public:
    SHIM_CLONE(table)
    class column_type {
    public:
        column_type(std::string name, std::shared_ptr<data const> type) noexcept : name_ { std::move(name) }, type_ { std::move(type) } {}
        column_type(std::string name, data&& type) : name_ { std::move(name) }, type_ { std::move(type).clone() } {}
        [[nodiscard]] std::string_view name() const noexcept { return name_; }
        [[nodiscard]] data const& type() const noexcept { return *type_; }
        [[nodiscard]] std::shared_ptr<data const> const& shared_type() const noexcept { return type_; }
        friend bool operator==(column_type const& a, column_type const& b) { return a.name_ == b.name_ && *a.type_ == *b.type_; }
    private:
        std::string name_; std::shared_ptr<data const> type_;
    };
    using columns_type = std::vector<column_type>;
    table(std::initializer_list<column_type> columns) : columns_ { columns } {}
    explicit table(columns_type columns) noexcept : columns_ { std::move(columns) } {}
    [[nodiscard]] columns_type const& columns() const noexcept { return columns_; }
protected:
    [[nodiscard]] bool equals(data const& o) const noexcept override { return columns_ == static_cast<table const&>(o).columns_; }
private:
    columns_type columns_;
};
} // namespace takatori::type
