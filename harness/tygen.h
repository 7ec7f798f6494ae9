// Generates data types as SQL text, with the type (as printed) which each denotes, or the reason to reject it.
#pragma once
#include "ana.h"
namespace tg {
using namespace ana;
struct limits {
    std::size_t decimal { 38 }; std::optional<std::size_t> decimal_default { 38 };
    std::size_t i1 { 7 }, i2 { 15 }, i4 { 31 }, i8 { 63 }, f4 { 25 }, f8 { 53 };
    void set(mana::sql_analyzer_options& o) const {
        o.max_decimal_precision() = decimal; o.default_decimal_precision() = decimal_default;
        o.max_binary_integer1_precision() = i1; o.max_binary_integer2_precision() = i2; o.max_binary_integer4_precision() = i4; o.max_binary_integer8_precision() = i8;
        o.max_binary_float4_precision() = f4; o.max_binary_float8_precision() = f8;
    }
};
struct ty_case {
    std::string sql, type;                // type: as printed, empty if it must be rejected
    std::optional<sql_analyzer_code> code {};
    std::size_t begin {}, end {};         // the culprit, relative to sql
};
inline std::string number(std::size_t n) { return std::to_string(n); }
inline limits some_limits(pbt::source& c) {
    limits l;
    if (c.flip()) return l;
    auto up = [&](std::size_t& x, std::size_t lo) { if (c.flip()) x = lo + c.draw(20); return x; };
    up(l.i1, 1); l.i2 = std::max(l.i2, l.i1); up(l.i2, l.i1); l.i4 = std::max(l.i4, l.i2); up(l.i4, l.i2); l.i8 = std::max(l.i8, l.i4); up(l.i8, l.i4);
    up(l.f4, 1); l.f8 = std::max(l.f8, l.f4); up(l.f8, l.f4);
    if (c.flip()) l.decimal = 1 + c.draw(38);
    switch (c.draw(4)) {
        case 0: l.decimal_default = l.decimal; break;
        case 1: l.decimal_default = std::nullopt; break;
        case 2: l.decimal_default = c.draw(static_cast<std::uint32_t>(l.decimal + 1)); break;
        default: l.decimal_default = c.draw(45); break;
    }
    return l;
}
class types {
public:
    pbt::source& c; limits l;
    types(pbt::source& s, limits x) : c { s }, l { x } {}
    std::string space() { static std::vector<std::string> const p { " ", " ", " ", "  ", " /* x */ ", "\n" }; return c.pick(p); }
    std::string gap() { return c.chance(1, 6) ? space() : ""; }
    std::string word(std::string s) { if (c.chance(1, 5)) for (auto& x : s) if (c.flip()) x = static_cast<char>(std::tolower(x)); return s; }
    std::string words(std::vector<std::string> const& ws) { std::string r; for (auto& w : ws) r += (r.empty() ? "" : space()) + word(w); return r; }
    // a size near the bound
    std::size_t size(std::size_t near) {
        switch (c.weighted({ 3, 3, 1, 2, 1 })) {
            case 0: return 1 + c.draw(40);
            case 1: { auto d = c.draw(3); auto v = near + d; return v ? v - 1 : 0; }
            case 2: return 0;
            case 3: return 1 + c.draw(4);
            default: return c.pick(std::vector<std::size_t> { 100, 255, 1000, 65536, 2147483647u });
        }
    }
    struct sized { std::string sql; std::optional<std::size_t> n; bool star {}; std::size_t begin {}, end {}; };
    sized one(bool star, std::size_t near) {
        sized r; r.sql = gap() + "(" + gap();
        r.begin = r.sql.size();
        if (star && c.chance(1, 3)) { r.sql += "*"; r.star = true; } else { r.n = size(near); r.sql += number(*r.n); }
        r.end = r.sql.size();
        r.sql += gap() + ")";
        return r;
    }
    ty_case any(bool valid_only = false) {
        for (int i = 0; i < 40; ++i) { auto t = some(); if (!valid_only || !t.code) return t; }
        return { "INT", "int4()" };
    }
    ty_case some() {
        ty_case t;
        auto text = [&](std::string const& base, std::vector<std::string> const& name, bool varying) {
            t.sql = words(name);
            std::string len = varying ? "*" : "1";
            if (c.weighted({ 1, 3 })) {
                auto s = one(varying, 0);
                auto at = t.sql.size(); t.sql += s.sql;
                if (!s.star && *s.n == 0) { t.code = sql_analyzer_code::invalid_type_length; t.begin = at + s.begin; t.end = at + s.end; return; }
                len = s.star ? "*" : number(*s.n);
            }
            t.type = base + (varying ? " varying(" : "(") + len + ")";
        };
        switch (c.draw(15)) {
            case 0: { static std::vector<std::vector<std::string>> const p { { "INT" }, { "INTEGER" } }; t.sql = words(c.pick(p)); t.type = "int4()"; break; }
            case 1: t.sql = word("BIGINT"); t.type = "int8()"; break;
            case 2: if (c.flip()) { t.sql = word("TINYINT"); t.type = "int1()"; } else { t.sql = word("SMALLINT"); t.type = "int2()"; } break;
            case 3: t.sql = word(c.flip() ? "FLOAT" : "REAL"); t.type = "float4()"; break;
            case 4: t.sql = c.flip() ? words({ "DOUBLE", "PRECISION" }) : word("DOUBLE"); t.type = "float8()"; break;
            case 5: t.sql = word("BOOLEAN"); t.type = "boolean()"; break;
            case 6: t.sql = word("DATE"); t.type = "date()"; break;
            case 7: {
                bool time = c.flip(); t.sql = word(time ? "TIME" : "TIMESTAMP");
                int z = c.draw(3);
                if (z) t.sql += space() + words({ z == 1 ? "WITH" : "WITHOUT", "TIME", "ZONE" });
                t.type = std::string { time ? "time_of_day" : "time_point" } + (z == 1 ? "(with_time_zone)" : "()");
                break;
            }
            case 8: { static std::vector<std::vector<std::string>> const p { { "CHAR" }, { "CHARACTER" } }; text("character", c.pick(p), false); break; }
            case 9: { static std::vector<std::vector<std::string>> const p { { "VARCHAR" }, { "CHAR", "VARYING" }, { "CHARACTER", "VARYING" } }; text("character", c.pick(p), true); break; }
            case 10: text("octet", { "BINARY" }, false); break;
            case 11: { static std::vector<std::vector<std::string>> const p { { "VARBINARY" }, { "BINARY", "VARYING" } }; text("octet", c.pick(p), true); break; }
            case 12: {
                static std::vector<std::string> const p { "DECIMAL", "DEC", "NUMERIC" };
                t.sql = word(c.pick(p));
                auto prec = l.decimal_default; std::optional<std::size_t> scale { 0 };
                std::size_t pb = 0, pe = t.sql.size(), sb = 0, se = t.sql.size();
                int form = c.weighted({ 1, 2, 4 });
                if (form) {
                    t.sql += gap() + "(" + gap(); pb = t.sql.size();
                    if (c.chance(1, 4)) { t.sql += "*"; prec.reset(); } else { prec = size(l.decimal); t.sql += number(*prec); }
                    pe = t.sql.size();
                    if (form == 2) {
                        t.sql += gap() + "," + gap(); sb = t.sql.size();
                        if (c.chance(1, 5)) { t.sql += "*"; scale.reset(); } else { scale = size(prec.value_or(l.decimal)); t.sql += number(*scale); }
                        se = t.sql.size();
                    }
                    t.sql += gap() + ")";
                }
                auto bad = [&](sql_analyzer_code k, std::size_t b, std::size_t e) { t.code = k; t.begin = b; t.end = e; };
                if (prec && (*prec == 0 || *prec > l.decimal)) bad(sql_analyzer_code::invalid_type_length, pb, pe);
                else if (scale && *scale > prec.value_or(l.decimal)) bad(sql_analyzer_code::invalid_numeric_scale, sb, se);
                else t.type = "decimal(" + (prec ? number(*prec) : "*") + "," + (scale ? number(*scale) : "*") + ")";
                break;
            }
            case 13: {
                bool i = c.flip(); t.sql = word(i ? c.flip() ? "INT" : "INTEGER" : "FLOAT");
                std::vector<std::size_t> near { l.i1, l.i2, l.i4, l.i8, l.f4, l.f8 };
                auto s = one(false, c.pick(near));
                auto at = t.sql.size(); t.sql += s.sql;
                auto n = *s.n;
                if (n == 0 || n > (i ? l.i8 : l.f8)) { t.code = sql_analyzer_code::invalid_type_length; t.begin = at + s.begin; t.end = at + s.end; }
                else if (i) t.type = n <= l.i1 ? "int1()" : n <= l.i2 ? "int2()" : n <= l.i4 ? "int4()" : "int8()";
                else t.type = n <= l.f4 ? "float4()" : "float8()";
                break;
            }
            default: {
                switch (c.draw(5)) {
                    case 0: t.sql = word("BLOB"); t.type = "blob()"; break;
                    case 1: t.sql = words({ "BINARY", "LARGE", "OBJECT" }); t.type = "blob()"; break;
                    case 2: t.sql = word("CLOB"); t.type = "clob()"; break;
                    case 3: t.sql = words({ c.flip() ? "CHAR" : "CHARACTER", "LARGE", "OBJECT" }); t.type = "clob()"; break;
                    default: {
                        static std::vector<std::string> const p { "INTERVAL", "mytype", "a.b", "INT ARRAY[3]", "INT[]", "ROW(a INT)", "\"int\"" };
                        t.sql = c.pick(p); t.code = sql_analyzer_code::unsupported_feature; t.begin = 0; t.end = t.sql.size(); break;
                    }
                }
            }
        }
        return t;
    }
};
// the beginning of the location of a diagnostic
inline std::optional<std::pair<std::size_t, std::size_t>> range_of(std::string const& region) {
    auto p = region.find("begin="), q = region.find("end=");
    if (p == std::string::npos || q == std::string::npos) return {};
    return std::make_pair<std::size_t, std::size_t>(std::stoul(region.substr(p + 6)), std::stoul(region.substr(q + 4)));
}
// the result must be an error with this code, which points into the culprit
inline void rejected(pbt::context& ctx, mana::sql_analyzer_result const& r, std::vector<sql_analyzer_code> codes, std::size_t begin, std::size_t end) {
    ctx.require(!r.is_valid(), "invalid statement is accepted", "");
    auto&& ds = r.element<mana::sql_analyzer_result_kind::diagnostics>();
    ctx.require(!ds.empty(), "rejected without a reason", "");
    bool code = false, at = false;
    for (auto&& d : ds) if (std::count(codes.begin(), codes.end(), d.code())) {
        code = true;
        auto p = range_of(str(d.location()));
        at = at || (p && p->first >= begin && p->second <= end && p->first < p->second);
    }
    ctx.require(code, "different reason", "expected " + str(codes[0]) + ", but: " + diagnostics(r));
    ctx.require(at, "the location is out of the wrong part", "[" + std::to_string(begin) + ", " + std::to_string(end) + "), but: " + diagnostics(r));
}
} // namespace tg
