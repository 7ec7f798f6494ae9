// Generator of SQL texts together with the syntax tree they must be parsed into.
//
// The generator walks the documented grammar of the dialect (operator precedences and
// associativity included) and emits a token sequence and, in parallel, the expected tree (jv), whose
// nodes know which tokens they cover. It shares no code with the parser under test.
#pragma once

#include <array>
#include <functional>
#include <map>
#include <string>
#include <vector>

#include "jv.h"
#include "pbt.h"

namespace sqlgen {

enum class tk { keyword, ident, raw, symbol, number, string_ };

struct tok {
    std::string text;
    tk kind;
};

// one growth step of a syntactic list, for the element limits
struct list_step {
    std::string kind;
    std::size_t size;      // size after this step
    long loc_b, loc_e;     // the blamed token range
    long end;              // end token of the element
    std::size_t seq;       // creation order
};

struct config {
    bool placeholders { true };
    bool host_parameters { true };
    bool delimited { true };
    bool contextual { true };
    bool exotic { true };       // rarely used constructs
    int depth { 5 };
    int max_statements { 3 };
    int list_max { 4 };
    std::vector<std::string> names {}; // usual names, if not empty
};

inline std::vector<std::string> const& contextual_keywords() {
    static std::vector<std::string> const v { "asc", "continue", "desc", "key", "ignore", "schema", "sequence", "restart",
        "restrict", "rename", "first", "last", "ordinality", "value" };
    return v;
}

// reserved words: may not be used as an identifier without quoting
inline std::vector<std::string> const& reserved_words() {
    static std::vector<std::string> const v = [] {
        std::vector<std::string> r;
        std::string all =
            "ABS ASYMMETRIC AVG BETWEEN CARDINALITY CEIL CHAR_LENGTH CHARACTER_LENGTH COALESCE CONVERT COUNT EXISTS "
            "EXTRACT FLOOR GENERATED LENGTH LOWER MAX MIN MOD NULLIF OCTET_LENGTH OVERLAPS OVERLAY POSITION SIMILAR SUBLIST "
            "SUBSTRING SUM SYMMETRIC TRANSLATE TRIM UPPER ABSOLUTE ACTION ADD ADMIN AFTER ALIAS ALL ALTER AND ANY ARE ARRAY AS "
            "ASSERTION AT AUTHORIZATION BEFORE BEGIN BINARY BLOB BOOLEAN BOTH BY CALL CASCADE CASCADED CASE CAST CHAR CHARACTER "
            "CHECK CLASS CLOB CLOSE COLLATE COLUMN COMMIT CONNECT CONSTRAINT CONSTRAINTS CORRESPONDING CREATE CROSS CUBE CURRENT "
            "CURRENT_DATE CURRENT_PATH CURRENT_ROLE CURRENT_TIME CURRENT_TIMESTAMP CURRENT_USER CURSOR CYCLE DATE DAY DEALLOCATE "
            "DEC DECIMAL DECLARE DEFAULT DELETE DEREF DESCRIBE DETERMINISTIC DISCONNECT DISTINCT DOUBLE DROP DYNAMIC EACH ELSE "
            "END ESCAPE EVERY EXCEPT EXEC EXECUTE EXTERNAL FALSE FETCH FLOAT FOR FOREIGN FROM FULL FUNCTION GET GLOBAL GRANT "
            "GROUP GROUPING HAVING HOUR IDENTITY IN INDICATOR INNER INOUT INSERT INT INTEGER INTERSECT INTERVAL INTO IS JOIN "
            "LANGUAGE LARGE LATERAL LEADING LEFT LIKE LIMIT LOCAL LOCALTIME LOCALTIMESTAMP MATCH MINUTE MODIFIES MODULE MONTH "
            "NATIONAL NATURAL NCHAR NCLOB NEW NEXT NO NONE NOT NULL NUMERIC OBJECT OF OLD ON ONLY OPEN OR ORDER OUT OUTER "
            "PARAMETER PRECISION PREPARE PRIMARY PRIVILEGES PROCEDURE PUBLIC REAL RECURSIVE REF REFERENCES REFERENCING RESULT "
            "RETURN RETURNS REVOKE RIGHT ROLE ROLLBACK ROLLUP ROW ROWS SAVEPOINT SCOPE SEARCH SECOND SELECT SESSION_USER SET "
            "SMALLINT SOME SPECIFIC SQL SQLEXCEPTION SQLSTATE SQLWARNING START STATIC SYSTEM_USER TABLE TEMPORARY THEN TIME "
            "TIMESTAMP TIMEZONE_HOUR TIMEZONE_MINUTE TO TRAILING TRANSLATION TREAT TRIGGER TRUE UNION UNIQUE UNKNOWN UNNEST "
            "UPDATE USER USING VALUES VARCHAR VARYING VIEW WHEN WHENEVER WHERE WITH WITHOUT YEAR ZONE ALWAYS MAXVALUE MINVALUE "
            "INCREMENT NULLS REPLACE OWNED TRUNCATE INCLUDE IF INDEX VARBINARY PLACING TINYINT BIGINT BIT_AND BIT_OR BOOL_AND "
            "BOOL_OR APPLY";
        std::size_t p = 0;
        while (p < all.size()) {
            auto q = all.find(' ', p);
            if (q == std::string::npos) q = all.size();
            r.push_back(all.substr(p, q - p));
            p = q + 1;
        }
        return r;
    }();
    return v;
}

inline std::string lower(std::string s) {
    for (auto& c : s) if (c >= 'A' && c <= 'Z') c = static_cast<char>(c - 'A' + 'a');
    return s;
}
inline std::string upper(std::string s) {
    for (auto& c : s) if (c >= 'a' && c <= 'z') c = static_cast<char>(c - 'a' + 'A');
    return s;
}

class gen {
public:
    explicit gen(pbt::source& src, config cfg = {}) : c { src }, conf { cfg } {}

    pbt::source& c;
    config conf;
    std::vector<tok> toks;
    std::vector<list_step> steps;
    std::vector<long> doc_anchors;     // tokens where a description comment attaches
    std::map<std::string, int> used;   // construct coverage
    std::size_t placeholders { 0 };

    // ---- document ----
    // returns the expected statements; the source is toks
    jv document() {
        jv list = jv::arr();
        int n = c.weighted({ 8, 2, 1 }) + 1;
        if (n > conf.max_statements) n = conf.max_statements;
        for (int i = 0; i < n; ++i) {
            if (i > 0) {
                long sep = pos();
                sym(";");
                list.add(statement());
                step("statement", list, sep);
            } else {
                list.add(statement());
            }
        }
        if (c.chance(1, 5)) {
            long sep = pos();
            sym(";");
            list.add(jv::obj("empty_statement"));
            step("statement", list, sep);
        }
        // note: the last empty statement stands for nothing after the last semicolon
        if (list.a.back().find("node_kind")->s == "empty_statement") list.a.pop_back();
        return list;
    }

    jv statement() {
        if (conf.exotic && c.chance(1, 60)) {
            use("empty");
            auto r = jv::obj("empty_statement");
            return r;
        }
        switch (c.weighted({ 10, 4, 3, 3, 5, 2, 2, 2, 1, 2, 2, 1, 2 })) {
            case 0: return select_statement();
            case 1: return insert_statement();
            case 2: return update_statement();
            case 3: return delete_statement();
            case 4: return create_table();
            case 5: return create_index();
            case 6: return create_view();
            case 7: return create_sequence();
            case 8: return create_schema();
            case 9: return drop();
            case 10: return alter();
            case 11: return truncate();
            default: return privilege();
        }
    }

    // ---- helpers ----
    long pos() const { return static_cast<long>(toks.size()); }
    void kw(std::string_view words) {
        std::size_t p = 0;
        while (p < words.size()) {
            auto q = words.find(' ', p);
            if (q == std::string_view::npos) q = words.size();
            toks.push_back({ std::string { words.substr(p, q - p) }, tk::keyword });
            p = q + 1;
        }
    }
    void multi(std::string_view words) { toks.push_back({ std::string { words }, tk::keyword }); }
    void sym(std::string_view s) { toks.push_back({ std::string { s }, tk::symbol }); }
    jv at(long b, jv v) {
        v.tb = b;
        v.te = pos();
        return v;
    }
    void use(std::string const& s) { used[s]++; }

    // registers the last element of the list
    void step(std::string kind, jv const& list, long loc_b, long loc_e = -1) {
        steps.push_back({ std::move(kind), list.a.size(), loc_b, loc_e < 0 ? loc_b + 1 : loc_e, pos(), steps.size() });
    }
    // comma separated list; blames separators
    template<class F>
    jv comma_list(std::string const& kind, int min, int max, F&& f) {
        jv list = jv::arr();
        int n = min + c.size(max - min);
        for (int i = 0; i < n; ++i) {
            long s = pos();
            if (i > 0) sym(",");
            list.add(f());
            if (i > 0) step(kind, list, s);
        }
        return list;
    }
    struct depth_guard {
        int& d;
        explicit depth_guard(int& x) : d { x } { ++d; }
        ~depth_guard() { --d; }
    };
    bool deep() const { return depth_ >= conf.depth; }

    // ---- names ----
    std::string plain_identifier() {
        static std::vector<std::string> const names { "a", "b", "c", "t", "x", "T0", "C1", "foo", "Bar", "v1", "k_1", "_x", "x__", "n9_", "e1", "x1f" };
        switch (c.weighted({ 20, 2 })) {
            case 0: return c.pick(conf.names.empty() ? names : conf.names);
            default: {
                static std::string const start = "abcxyzABCXYZ_";
                static std::string const part = "abcxyzABCXYZ019_";
                std::string s;
                s += start[c.draw(static_cast<std::uint32_t>(start.size()))];
                int n = c.range(1, 6);
                for (int i = 0; i < n; ++i) s += part[c.draw(static_cast<std::uint32_t>(part.size()))];
                if (s.size() >= 2 && s[0] == '_' && s[1] == '_') s[0] = 'u';
                auto u = upper(s);
                for (auto& r : reserved_words()) if (r == u) return "zz";
                return s;
            }
        }
    }
    std::string delimited_text(std::string& value) {
        static std::vector<std::string> const parts { "a", "B", " ", "\"", "select", ".", "'", "--", "/*", "1", "\xe3\x81\x82", "_", ";", "\\" };
        value.clear();
        int n = 1 + c.size(4);
        for (int i = 0; i < n; ++i) value += c.pick(parts);
        if (value.size() >= 2 && value[0] == '_' && value[1] == '_') value[0] = 'q';
        std::string r = "\"";
        for (char ch : value) {
            if (ch == '"') r += '"';
            r += ch;
        }
        return r + "\"";
    }
    jv identifier() {
        long b = pos();
        auto simple = [&](std::string_view v, std::string_view k) {
            auto o = jv::obj("simple");
            o.set("identifier", jv::str(v));
            o.set("identifier_kind", jv::str(k));
            return at(b, std::move(o));
        };
        int k = c.weighted({ 16, conf.delimited ? 2 : 0, conf.contextual ? 2 : 0 });
        if (k == 1) {
            std::string value;
            auto text = delimited_text(value);
            toks.push_back({ text, tk::raw });
            use("delimited-identifier");
            return simple(value, "delimited");
        }
        if (k == 2) {
            auto s = c.pick(contextual_keywords());
            if (c.flip()) s = upper(s);
            toks.push_back({ s, tk::ident });
            use("contextual-identifier");
            return simple(s, "regular");
        }
        auto s = plain_identifier();
        toks.push_back({ s, tk::ident });
        return simple(s, "regular");
    }
    jv qualified(jv q, jv last, long b) {
        auto o = jv::obj("qualified");
        o.set("qualifier", std::move(q));
        o.set("last", std::move(last));
        return at(b, std::move(o));
    }
    jv chain(int max = 3) {
        long b = pos();
        auto n = identifier();
        int k = c.size(max - 1);
        for (int i = 0; i < k; ++i) {
            sym(".");
            auto l = identifier();
            n = qualified(std::move(n), std::move(l), b);
        }
        return n;
    }
    jv column_names(int min = 1) {
        return comma_list("column_reference", min, conf.list_max, [&] { return identifier(); });
    }
    jv column_names_opt() {
        if (c.chance(1, 3)) {
            sym("(");
            auto r = column_names();
            sym(")");
            return r;
        }
        return jv::arr();
    }

    // ---- literals ----
    std::string digits(int max = 6) {
        std::string s;
        int n = 1 + c.size(max);
        for (int i = 0; i < n; ++i) s += static_cast<char>('0' + c.draw(10));
        return s;
    }
    std::string quoted() {
        static std::vector<std::string> const parts { "a", "B", " ", "''", "%", "\"", "--", "/*", "*/", "\n", "\\", ";", "\xe3\x81\x82", "1", "?", "\t" };
        std::string s = "'";
        int n = c.size(5);
        for (int i = 0; i < n; ++i) s += c.pick(parts);
        return s + "'";
    }
    std::string hexed() {
        static std::string const hex = "0123456789abcdefABCDEF";
        std::string s = "'";
        int n = c.size(4) * 2;
        for (int i = 0; i < n; ++i) s += hex[c.draw(static_cast<std::uint32_t>(hex.size()))];
        return s + "'";
    }
    jv numeric() {
        long b = pos();
        switch (c.weighted({ 8, 3, 2 })) {
            case 0: {
                auto d = digits(12);
                toks.push_back({ d, tk::number });
                return at(b, jv::obj("exact_numeric").set("unsigned_value", jv::str(d)));
            }
            case 1: {
                auto d = digits() + "." + digits();
                toks.push_back({ d, tk::number });
                use("decimal-literal");
                return at(b, jv::obj("exact_numeric").set("unsigned_value", jv::str(d)));
            }
            default: {
                auto d = digits();
                if (c.flip()) d += "." + digits();
                d += c.flip() ? "E" : "e";
                int s = c.range(0, 2);
                d += s == 1 ? "+" : s == 2 ? "-" : "";
                d += digits(2);
                toks.push_back({ d, tk::number });
                use("approximate-literal");
                return at(b, jv::obj("approximate_numeric").set("unsigned_value", jv::str(d)));
            }
        }
    }
    jv truth() {
        long b = pos();
        switch (c.draw(4)) {
            case 0: kw("NULL"); return at(b, jv::obj("null"));
            case 1: kw("TRUE"); return at(b, jv::obj("boolean").set("value", jv::str("TRUE")));
            case 2: kw("FALSE"); return at(b, jv::obj("boolean").set("value", jv::str("FALSE")));
            default: kw("UNKNOWN"); return at(b, jv::obj("boolean").set("value", jv::str("UNKNOWN")));
        }
    }
    jv literal() {
        long b = pos();
        switch (c.weighted({ 10, 6, 2, conf.exotic ? 2 : 1, conf.exotic ? 3 : 0, conf.exotic ? 1 : 0, conf.exotic ? 1 : 0, 2 })) {
            case 0: return numeric();
            case 1:
            case 2: {
                bool hex = c.chance(1, 4);
                auto s = hex ? hexed() : quoted();
                if (hex) {
                    toks.push_back({ std::string { c.flip() ? "X" : "x" } + s, tk::string_ });
                    use("hex-literal");
                } else {
                    toks.push_back({ s, tk::string_ });
                }
                jv conc = jv::arr();
                int n = c.chance(1, 8) ? 1 + c.size(3) : 0;
                for (int i = 0; i < n; ++i) {
                    long p = pos();
                    auto t = quoted();
                    toks.push_back({ t, tk::string_ });
                    conc.add(jv::str(t));
                    step("string_literal_concatenation", conc, p);
                    use("string-concatenation");
                }
                auto o = jv::obj(hex ? "hex_string" : "character_string");
                o.set("value", jv::str(s));
                o.set("concatenations", std::move(conc));
                return at(b, std::move(o));
            }
            case 3: {
                kw("DATE");
                auto s = quoted();
                toks.push_back({ s, tk::string_ });
                use("temporal-literal");
                return at(b, jv::obj("date").set("value", jv::str(s)));
            }
            case 4: {
                bool ts = c.flip();
                kw(ts ? "TIMESTAMP" : "TIME");
                int z = c.range(0, 2);
                if (z == 1) kw("WITH TIME ZONE");
                if (z == 2) kw("WITHOUT TIME ZONE");
                auto s = quoted();
                toks.push_back({ s, tk::string_ });
                use("temporal-literal");
                std::string k = ts ? "timestamp" : "time";
                if (z == 1) k += "_with_time_zone";
                return at(b, jv::obj(k).set("value", jv::str(s)));
            }
            case 5: {
                kw("INTERVAL");
                auto o = jv::obj("interval");
                int g = c.range(0, 2);
                if (g == 1) { sym("+"); o.set("sign", jv::str("plus")); }
                if (g == 2) { sym("-"); o.set("sign", jv::str("minus")); }
                auto s = quoted();
                toks.push_back({ s, tk::string_ });
                use("interval-literal");
                return at(b, std::move(o.set("value", jv::str(s))));
            }
            case 6: {
                if (c.flip()) {
                    kw("ARRAY");
                    sym("[");
                    sym("]");
                    return at(b, jv::obj("empty"));
                }
                kw("DEFAULT");
                use("default-literal");
                return at(b, jv::obj("default"));
            }
            default: return truth();
        }
    }

    // ---- value expressions ----
    // level: 0 OR, 1 AND, 2 NOT, 3 IS, 4 predicate, 5 row value
    jv value(int level = 0) {
        depth_guard g { depth_ };
        long b = pos();
        if (deep()) return scalar(0);
        int k = c.weighted({ 12, level <= 4 ? 6 : 0, level <= 0 ? 2 : 0, level <= 1 ? 2 : 0, level <= 2 ? 2 : 0, level <= 3 ? 2 : 0,
                level <= 5 && conf.exotic ? 1 : 0 });
        switch (k) {
            case 0: return scalar(0);
            case 1: return predicate();
            case 2: {
                auto l = value(0);
                kw("OR");
                auto r = value(1);
                use("or");
                return binary(b, std::move(l), "or", std::move(r));
            }
            case 3: {
                auto l = value(1);
                kw("AND");
                auto r = value(2);
                use("and");
                return binary(b, std::move(l), "and", std::move(r));
            }
            case 4: {
                kw("NOT");
                auto e = value(2);
                use("not");
                return at(b, jv::obj("unary_expression").set("operator_kind", jv::str("not")).set("operand", std::move(e)));
            }
            case 5: {
                auto l = value(4);
                kw("IS");
                bool n = c.flip();
                if (n) kw("NOT");
                long lb = pos();
                auto t = truth();
                auto r = at(lb, jv::obj("literal_expression").set("value", std::move(t)));
                use("is");
                return binary(b, std::move(l), n ? "is_not" : "is", std::move(r));
            }
            default: return row_value();
        }
    }
    jv row_value() {
        if (conf.exotic && c.chance(1, 12) && !deep()) {
            long b = pos();
            kw("ROW");
            sym("(");
            auto l = value_list(1);
            sym(")");
            use("row-constructor");
            return at(b, jv::obj("value_constructor").set("operator_kind", jv::str("row")).set("elements", std::move(l)));
        }
        return scalar(0);
    }
    jv binary(long b, jv l, std::string_view op, jv r) {
        auto o = jv::obj("binary_expression");
        o.set("left", std::move(l));
        o.set("operator_kind", jv::str(op));
        o.set("right", std::move(r));
        return at(b, std::move(o));
    }
    jv value_list(int min) {
        return comma_list("scalar_expression", min, conf.list_max, [&] { return value(); });
    }
    struct op { char const* text; char const* name; };
    op comparison() {
        static std::array<op, 7> const ops { { { "=", "equals" }, { "<>", "not_equals" }, { "!=", "not_equals_alternative" },
            { "<", "less_than" }, { ">", "greater_than" }, { "<=", "less_than_or_equals" }, { ">=", "greater_than_or_equals" } } };
        return c.pick(ops);
    }
    jv predicate() {
        long b = pos();
        switch (c.weighted({ 10, 2, 3, 3, 3, 3, 1, 2 })) {
            case 0: {
                auto l = row_value();
                auto o = comparison();
                sym(o.text);
                auto r = row_value();
                use("comparison");
                return at(b, jv::obj("comparison_predicate").set("left", std::move(l)).set("operator_kind", jv::str(o.name)).set("right", std::move(r)));
            }
            case 1: {
                if (!conf.exotic) { return scalar(0); }
                static std::array<op, 4> const ops { { { "<@", "contains" }, { "@>", "is_contained_by" }, { "&&", "have_elements_in_common" }, { "OVERLAPS", "overlaps" } } };
                auto l = row_value();
                auto o = c.pick(ops);
                if (o.text[0] == 'O') kw(o.text); else sym(o.text);
                auto r = row_value();
                use("extended-comparison");
                return binary(b, std::move(l), o.name, std::move(r));
            }
            case 2: {
                static std::array<op, 3> const qs { { { "ALL", "all" }, { "SOME", "some" }, { "ANY", "any" } } };
                auto l = row_value();
                auto o = comparison();
                sym(o.text);
                auto q = c.pick(qs);
                kw(q.text);
                auto r = subquery();
                use("quantified-comparison");
                return at(b, jv::obj("quantified_comparison_predicate").set("left", std::move(l)).set("operator_kind", jv::str(o.name))
                        .set("quantifier", jv::str(q.name)).set("right", std::move(r)));
            }
            case 3: {
                auto t = row_value();
                bool n = c.flip();
                if (n) kw("NOT");
                kw("BETWEEN");
                auto o = jv::obj("between_predicate");
                int s = c.range(0, 2);
                if (s == 1) { kw("ASYMMETRIC"); o.set("operator_kind", jv::str("asymmetric")); }
                if (s == 2) { kw("SYMMETRIC"); o.set("operator_kind", jv::str("symmetric")); }
                auto l = row_value();
                kw("AND");
                auto r = row_value();
                use("between");
                o.set("target", std::move(t)).set("is_not", jv::boo(n)).set("left", std::move(l)).set("right", std::move(r));
                return at(b, std::move(o));
            }
            case 4: {
                auto l = row_value();
                bool n = c.flip();
                if (n) kw("NOT");
                kw("IN");
                jv r;
                if (c.flip() && !deep()) {
                    r = subquery();
                    use("in-subquery");
                } else {
                    long rb = pos();
                    sym("(");
                    auto list = value_list(1);
                    sym(")");
                    r = at(rb, jv::obj("table_value_constructor").set("elements", std::move(list)));
                    use("in-list");
                }
                return at(b, jv::obj("in_predicate").set("left", std::move(l)).set("is_not", jv::boo(n)).set("right", std::move(r)));
            }
            case 5: {
                auto m = row_value();
                bool n = c.flip();
                if (n) kw("NOT");
                bool like = !c.chance(1, 3);
                kw(like ? "LIKE" : "SIMILAR TO");
                auto p = row_value();
                auto o = jv::obj("pattern_match_predicate");
                o.set("match_value", std::move(m)).set("is_not", jv::boo(n)).set("operator_kind", jv::str(like ? "like" : "similar_to")).set("pattern", std::move(p));
                if (c.chance(1, 3)) {
                    kw("ESCAPE");
                    o.set("escape", row_value());
                }
                use("like");
                return at(b, std::move(o));
            }
            case 6: {
                kw("UNIQUE");
                auto e = subquery();
                return at(b, jv::obj("table_predicate").set("operator_kind", jv::str("unique")).set("operand", std::move(e)));
            }
            default: {
                kw("EXISTS");
                auto e = subquery();
                use("exists");
                return at(b, jv::obj("table_predicate").set("operator_kind", jv::str("exists")).set("operand", std::move(e)));
            }
        }
    }

    // level: 0 additive, 1 multiplicative, 2 unary and below
    jv scalar(int level) {
        depth_guard g { depth_ };
        long b = pos();
        if (depth_ > conf.depth + 4) return leaf();
        switch (c.weighted({ 20, level <= 0 ? 4 : 0, level <= 1 ? 4 : 0, 3, conf.exotic ? 1 : 0, conf.exotic ? 1 : 0, 2 })) {
            case 0: return primary();
            case 1: {
                static std::array<op, 3> const ops { { { "+", "plus" }, { "-", "minus" }, { "||", "concatenation" } } };
                auto l = scalar(0);
                auto o = c.pick(ops);
                sym(o.text);
                auto r = scalar(1);
                use("additive");
                return binary(b, std::move(l), o.name, std::move(r));
            }
            case 2: {
                static std::array<op, 3> const ops { { { "*", "asterisk" }, { "/", "solidus" }, { "%", "percent" } } };
                auto l = scalar(1);
                auto o = c.pick(ops);
                sym(o.text);
                auto r = scalar(2);
                use("multiplicative");
                return binary(b, std::move(l), o.name, std::move(r));
            }
            case 3: {
                bool minus = c.flip();
                sym(minus ? "-" : "+");
                return sign(b, minus, scalar(2));
            }
            case 4: {
                auto e = primary();
                kw("AT LOCAL");
                use("at-local");
                return at(b, jv::obj("unary_expression").set("operator_kind", jv::str("at_local")).set("operand", std::move(e)));
            }
            case 5: {
                auto l = primary();
                kw("AT TIME ZONE");
                long rb = pos();
                jv r;
                int s = c.range(0, 2);
                if (s == 0) {
                    r = primary();
                } else {
                    sym(s == 1 ? "+" : "-");
                    r = sign(rb, s == 2, primary());
                }
                use("at-time-zone");
                return binary(b, std::move(l), "at_time_zone", std::move(r));
            }
            default: {
                auto e = primary();
                sym("::");
                auto t = type();
                use("cast-operator");
                return at(b, jv::obj("cast_expression").set("operator_kind", jv::str("cast")).set("operand", std::move(e)).set("type", std::move(t)));
            }
        }
    }
    jv sign(long b, bool minus, jv e) {
        // an unsigned numeric literal absorbs the sign
        if (e.text("node_kind") == "literal_expression") {
            auto* l = e.find("value");
            auto k = l->text("node_kind");
            if ((k == "exact_numeric" || k == "approximate_numeric") && !l->find("sign")) {
                l->set("sign", jv::str(minus ? "minus" : "plus"));
                l->tb = b;
                l->te = pos();
                use("signed-literal");
                return at(b, std::move(e));
            }
        }
        use("unary-sign");
        return at(b, jv::obj("unary_expression").set("operator_kind", jv::str(minus ? "minus" : "plus")).set("operand", std::move(e)));
    }
    jv leaf() {
        long b = pos();
        switch (c.weighted({ 4, 4, conf.placeholders ? 1 : 0, conf.host_parameters ? 1 : 0 })) {
            case 0: {
                auto n = identifier();
                return at(b, jv::obj("variable_reference").set("name", std::move(n)));
            }
            case 1: {
                auto l = literal();
                return at(b, jv::obj("literal_expression").set("value", std::move(l)));
            }
            case 2: {
                sym("?");
                use("placeholder");
                return at(b, jv::obj("placeholder_reference").set("index", jv::num(++placeholders)));
            }
            default: {
                auto s = ":" + plain_identifier();
                toks.push_back({ s, tk::raw });
                auto n = at(b, jv::obj("simple").set("identifier", jv::str(s)).set("identifier_kind", jv::str("regular")));
                use("host-parameter");
                return at(b, jv::obj("host_parameter_reference").set("name", std::move(n)));
            }
        }
    }
    jv paren_value() {
        sym("(");
        auto e = value();
        sym(")");
        use("parentheses");
        return e;
    }
    static bool is_var(jv const& e) { return e.text("node_kind") == "variable_reference"; }
    jv arguments() {
        sym("(");
        jv list = jv::arr();
        int n = c.size(conf.list_max);
        for (int i = 0; i < n; ++i) {
            long s = pos();
            if (i > 0) sym(",");
            long b = pos();
            auto e = value();
            if (conf.exotic && c.chance(1, 12)) {
                kw("AS");
                auto t = type();
                e = at(b, jv::obj("cast_expression").set("operator_kind", jv::str("generalize")).set("operand", std::move(e)).set("type", std::move(t)));
            }
            list.add(std::move(e));
            if (i > 0) step("scalar_expression", list, s);
        }
        sym(")");
        return list;
    }
    jv primary() {
        depth_guard g { depth_ };
        long b = pos();
        if (deep()) return leaf();
        int x = conf.exotic ? 1 : 0;
        switch (c.weighted({ 16, 4, 4, 3, 4, 3, 3, 2, 2 * x, x, x, x, x, x, 2 * x, 3 })) {
            case 0: return leaf();
            case 1: return paren_value();
            case 2: return postfix(b, c.flip() ? leaf_variable() : primary());
            case 3: {
                auto n = identifier();
                auto l = arguments();
                use("function-call");
                return at(b, jv::obj("function_invocation").set("name", std::move(n)).set("arguments", std::move(l)));
            }
            case 4: return system_function();
            case 5: return set_function();
            case 6: return case_expression();
            case 7: {
                kw("CAST");
                return cast_tail(b, "cast");
            }
            case 8: {
                auto q = subquery();
                use("scalar-subquery");
                return at(b, jv::obj("subquery").set("query", std::move(q)).set("context_kind", jv::str("scalar")));
            }
            case 9: {
                kw("TREAT");
                return cast_tail(b, "treat");
            }
            case 10: {
                use("generalize");
                return cast_tail(b, "generalize");
            }
            case 11: {
                kw("NEW");
                long tb = pos();
                auto n = chain();
                auto t = jv::obj("user_defined").set("name", std::move(n));
                t = at(tb, std::move(t));
                auto l = arguments();
                use("new");
                return at(b, jv::obj("new_invocation").set("type", std::move(t)).set("arguments", std::move(l)));
            }
            case 12: {
                kw("ARRAY");
                sym("[");
                auto l = value_list(1);
                sym("]");
                use("array-constructor");
                return at(b, jv::obj("value_constructor").set("operator_kind", jv::str("array")).set("elements", std::move(l)));
            }
            case 13: {
                kw("DEREF");
                sym("(");
                auto e = value();
                sym(")");
                return at(b, jv::obj("unary_expression").set("operator_kind", jv::str("reference_resolution")).set("operand", std::move(e)));
            }
            case 14: {
                // implicit row constructor: at least two elements
                sym("(");
                auto l = value_list(2);
                sym(")");
                use("implicit-row");
                return at(b, jv::obj("value_constructor").set("operator_kind", jv::str("row")).set("elements", std::move(l)));
            }
            default: {
                kw("NEXT VALUE FOR");
                long nb = pos();
                auto n = identifier();
                auto v = at(nb, jv::obj("variable_reference").set("name", std::move(n)));
                int k = c.size(2);
                for (int i = 0; i < k; ++i) {
                    sym(".");
                    auto l = identifier();
                    auto q = std::move(*v.find("name"));
                    v = at(nb, jv::obj("variable_reference").set("name", qualified(std::move(q), std::move(l), nb)));
                }
                auto args = jv::arr();
                args.add(std::move(v));
                use("next-value");
                return at(b, jv::obj("builtin_function_invocation").set("function", jv::str("next_value_for")).set("arguments", std::move(args)));
            }
        }
    }
    jv leaf_variable() {
        long b = pos();
        auto n = identifier();
        return at(b, jv::obj("variable_reference").set("name", std::move(n)));
    }
    jv cast_tail(long b, char const* opname) {
        sym("(");
        auto e = value();
        kw("AS");
        auto t = type();
        sym(")");
        use("cast");
        return at(b, jv::obj("cast_expression").set("operator_kind", jv::str(opname)).set("operand", std::move(e)).set("type", std::move(t)));
    }
    static bool is_next_value_name(jv const& e) {
        return e.text("node_kind") == "builtin_function_invocation" && e.text("function") == "next_value_for";
    }
    jv postfix(long b, jv q) {
        switch (c.weighted({ 8, 2, conf.exotic ? 2 : 0, conf.exotic ? 2 : 0, conf.exotic ? 2 : 0, conf.exotic ? 1 : 0 })) {
            case 0: {
                if (is_next_value_name(q)) return q; // would extend the sequence name
                sym(".");
                auto n = identifier();
                if (is_var(q)) {
                    long qb = q.tb;
                    auto qn = std::move(*q.find("name"));
                    use("identifier-chain");
                    auto nm = qualified(std::move(qn), std::move(n), qb);
                    return at(qb, jv::obj("variable_reference").set("name", std::move(nm)));
                }
                use("field-reference");
                return at(b, jv::obj("field_reference").set("value", std::move(q)).set("operator_kind", jv::str("period")).set("name", std::move(n)));
            }
            case 1: {
                sym(".");
                auto n = identifier();
                long nend = pos();
                if (is_var(q)) {
                    long qb = q.tb;
                    auto qn = std::move(*q.find("name"));
                    auto nm = qualified(std::move(qn), std::move(n), qb);
                    nm.te = nend;
                    auto l = arguments();
                    use("qualified-function-call");
                    return at(b, jv::obj("function_invocation").set("name", std::move(nm)).set("arguments", std::move(l)));
                }
                auto l = arguments();
                use("method-call");
                return at(b, jv::obj("method_invocation").set("value", std::move(q)).set("operator_kind", jv::str("period")).set("name", std::move(n)).set("arguments", std::move(l)));
            }
            case 2: {
                sym("->");
                auto n = identifier();
                use("dereference");
                return at(b, jv::obj("field_reference").set("value", std::move(q)).set("operator_kind", jv::str("arrow")).set("name", std::move(n)));
            }
            case 3: {
                sym("->");
                auto n = identifier();
                auto l = arguments();
                use("method-call");
                return at(b, jv::obj("method_invocation").set("value", std::move(q)).set("operator_kind", jv::str("arrow")).set("name", std::move(n)).set("arguments", std::move(l)));
            }
            case 4: {
                sym("[");
                auto i = value();
                sym("]");
                use("element-reference");
                return binary(b, std::move(q), "element_reference", std::move(i));
            }
            default: {
                if (!is_var(q)) return q;
                sym("::");
                auto n = identifier();
                auto l = arguments();
                auto t = jv::obj("user_defined").set("name", *q.find("name"));
                t.tb = q.tb;
                t.te = q.te;
                use("static-method");
                return at(b, jv::obj("static_method_invocation").set("type", std::move(t)).set("name", std::move(n)).set("arguments", std::move(l)));
            }
        }
    }
    jv builtin(long b, char const* name, std::initializer_list<jv*> args) {
        auto l = jv::arr();
        for (auto* a : args) l.add(std::move(*a));
        use(std::string { "fn-" } + name);
        return at(b, jv::obj("builtin_function_invocation").set("function", jv::str(name)).set("arguments", std::move(l)));
    }
    jv system_function() {
        long b = pos();
        int x = conf.exotic ? 1 : 0;
        switch (c.weighted({ 6, 2, 2 * x, 2, x, x, 3 * x, 2 * x, 3, 2, 2 })) {
            case 0: {
                static std::array<op, 11> const fs { { { "ABS", "abs" }, { "CHAR_LENGTH", "character_length" }, { "CHARACTER_LENGTH", "character_length" },
                    { "OCTET_LENGTH", "octet_length" }, { "CARDINALITY", "cardinality" }, { "CEIL", "ceil" }, { "FLOOR", "floor" }, { "MOD", "mod" },
                    { "UPPER", "upper" }, { "LOWER", "lower" }, { "LENGTH", "length" } } };
                auto f = c.pick(fs);
                kw(f.text);
                sym("(");
                auto l = value_list(1);
                sym(")");
                use(std::string { "fn-" } + f.name);
                return at(b, jv::obj("builtin_function_invocation").set("function", jv::str(f.name)).set("arguments", std::move(l)));
            }
            case 1: {
                kw("POSITION");
                sym("(");
                auto l = scalar(0);
                kw("IN");
                auto r = scalar(0);
                sym(")");
                return builtin(b, "position", { &l, &r });
            }
            case 2: return extract();
            case 3: {
                kw("SUBSTRING");
                sym("(");
                auto l = scalar(0);
                kw("FROM");
                auto r = scalar(0);
                if (c.flip()) {
                    kw("FOR");
                    auto e = scalar(0);
                    sym(")");
                    return builtin(b, "substring", { &l, &r, &e });
                }
                sym(")");
                return builtin(b, "substring", { &l, &r });
            }
            case 4:
            case 5: {
                bool conv = c.flip();
                kw(conv ? "CONVERT" : "TRANSLATE");
                sym("(");
                auto e = scalar(0);
                kw("USING");
                long nb = pos();
                auto n = chain();
                auto v = at(nb, jv::obj("variable_reference").set("name", std::move(n)));
                sym(")");
                return builtin(b, conv ? "convert" : "translate", { &e, &v });
            }
            case 6: {
                kw("TRIM");
                sym("(");
                auto o = jv::obj("trim_expression");
                int s = c.range(0, 3);
                if (s == 1) { kw("LEADING"); o.set("specification", jv::str("leading")); }
                if (s == 2) { kw("TRAILING"); o.set("specification", jv::str("trailing")); }
                if (s == 3) { kw("BOTH"); o.set("specification", jv::str("both")); }
                bool ch = c.flip();
                bool from = ch || s != 0 || c.chance(1, 4);
                if (ch) o.set("character", scalar(0));
                if (from) kw("FROM");
                o.set("source", scalar(0));
                sym(")");
                use("trim");
                return at(b, std::move(o));
            }
            case 7: {
                kw("OVERLAY");
                sym("(");
                auto e = scalar(0);
                kw("PLACING");
                auto p = scalar(0);
                kw("FROM");
                auto u = scalar(0);
                if (c.flip()) {
                    kw("FOR");
                    auto v = scalar(0);
                    sym(")");
                    return builtin(b, "overlay", { &e, &p, &u, &v });
                }
                sym(")");
                return builtin(b, "overlay", { &e, &p, &u });
            }
            case 8: {
                static std::array<op, 5> const fs { { { "CURRENT_DATE", "current_date" }, { "CURRENT_TIME", "current_time" }, { "LOCALTIME", "localtime" },
                    { "CURRENT_TIMESTAMP", "current_timestamp" }, { "LOCALTIMESTAMP", "localtimestamp" } } };
                auto i = c.draw(5);
                auto f = fs[i];
                kw(f.text);
                if (i != 0 && conf.exotic && c.chance(1, 4)) {
                    sym("(");
                    auto e = value();
                    sym(")");
                    return builtin(b, f.name, { &e });
                }
                return builtin(b, f.name, {});
            }
            case 9: {
                kw("NULLIF");
                sym("(");
                auto l = value();
                sym(",");
                auto r = value();
                sym(")");
                return builtin(b, "nullif", { &l, &r });
            }
            default: {
                kw("COALESCE");
                sym("(");
                auto l = value_list(1);
                sym(")");
                use("fn-coalesce");
                return at(b, jv::obj("builtin_function_invocation").set("function", jv::str("coalesce")).set("arguments", std::move(l)));
            }
        }
    }
    jv extract() {
        long b = pos();
        kw("EXTRACT");
        sym("(");
        auto o = jv::obj("extract_expression");
        static std::array<op, 14> const fs { { { "YEAR", "year" }, { "MONTH", "month" }, { "DAY", "day" }, { "HOUR", "hour" }, { "MINUTE", "minute" },
            { "SECOND", "second" }, { "TIMEZONE_HOUR", "timezone_hour" }, { "TIMEZONE_MINUTE", "timezone_minute" }, { "DATE", "date" },
            { "YEAR TO MONTH", "year to month" }, { "YEAR TO DAY", "year to day" }, { "YEAR TO HOUR", "year to hour" },
            { "YEAR TO MINUTE", "year to minute" }, { "YEAR TO SECOND", "year to second" } } };
        int i = static_cast<int>(c.draw(14));
        kw(fs[static_cast<std::size_t>(i)].text);
        o.set("field", jv::str(fs[static_cast<std::size_t>(i)].name));
        if ((i == 5 || i == 13) && c.flip()) {
            sym("(");
            o.set("subsecond_digits", flexible());
            sym(")");
        }
        kw("FROM");
        o.set("operand", scalar(0));
        sym(")");
        use("extract");
        return at(b, std::move(o));
    }
    jv set_function() {
        long b = pos();
        auto args = jv::arr();
        auto o = jv::obj("builtin_set_function_invocation");
        if (c.chance(1, 4)) {
            kw("COUNT");
            sym("(");
            sym("*");
            sym(")");
            use("count-star");
            o.set("function", jv::str("count"));
            o.set("arguments", std::move(args));
            return at(b, std::move(o));
        }
        static std::array<op, 10> const fs { { { "COUNT", "count" }, { "AVG", "avg" }, { "MAX", "max" }, { "MIN", "min" }, { "SUM", "sum" }, { "EVERY", "every" },
            { "BIT_AND", "bit_and" }, { "BIT_OR", "bit_or" }, { "BOOL_AND", "bool_and" }, { "BOOL_OR", "bool_or" } } };
        auto f = c.pick(fs);
        kw(f.text);
        sym("(");
        auto q = set_quantifier();
        if (q) o.set("quantifier", std::move(q));
        args.add(value());
        sym(")");
        use(std::string { "set-" } + f.name);
        o.set("function", jv::str(f.name));
        o.set("arguments", std::move(args));
        return at(b, std::move(o));
    }
    jv set_quantifier() {
        switch (c.weighted({ 4, 1, 1 })) {
            case 1: kw("ALL"); return jv::str("all");
            case 2: kw("DISTINCT"); return jv::str("distinct");
            default: return {};
        }
    }
    jv case_expression() {
        long b = pos();
        auto o = jv::obj("case_expression");
        kw("CASE");
        if (c.flip()) o.set("operand", value());
        int n = 1 + c.size(conf.list_max);
        auto list = jv::arr();
        for (int i = 0; i < n; ++i) {
            long wb = pos();
            kw("WHEN");
            auto w = value();
            kw("THEN");
            auto r = value();
            list.add(at(wb, jv::obj().set("when", std::move(w)).set("result", std::move(r))));
            if (i > 0) step("when_clause", list, wb, pos());
        }
        o.set("when_clauses", std::move(list));
        if (c.flip()) {
            kw("ELSE");
            o.set("default_result", value());
        }
        kw("END");
        use("case");
        return at(b, std::move(o));
    }

    // ---- types ----
    jv size_value() {
        int k = c.weighted({ 8, 1 });
        std::uint64_t v = k == 0 ? static_cast<std::uint64_t>(c.range(0, 70)) : c.bits(40);
        std::string s = std::to_string(v);
        if (c.chance(1, 10)) s = "0" + s;
        toks.push_back({ s, tk::number });
        return jv::num(v);
    }
    jv flexible() {
        if (c.chance(1, 4)) {
            sym("*");
            return jv::str("*");
        }
        return size_value();
    }
    jv type() {
        long b = pos();
        auto t = type_base();
        int n = conf.exotic && c.chance(1, 8) ? 1 + c.size(1) : 0;
        for (int i = 0; i < n; ++i) {
            auto o = jv::obj("collection");
            if (c.flip()) kw("ARRAY");
            sym("[");
            if (c.flip()) o.set("length", flexible());
            sym("]");
            o.set("element", std::move(t));
            use("collection-type");
            t = at(b, std::move(o));
        }
        return t;
    }
    jv type_base() {
        long b = pos();
        auto sized = [&](jv o, char const* prop, bool flex) {
            if (c.chance(2, 3)) {
                sym("(");
                o.set(prop, flex ? flexible() : size_value());
                sym(")");
            }
            return at(b, std::move(o));
        };
        auto simple = [&](char const* words, char const* kind) {
            kw(words);
            return at(b, jv::obj(kind));
        };
        int x = conf.exotic ? 1 : 0;
        int k = c.weighted({ 6, 3, 3, 2, 2, 4, 2, 2, 1, 2, 2, 1, 2, 2, 3, x, x, 2 * x, 2 * x });
        use("type-" + std::to_string(k));
        switch (k) {
            case 0: return c.flip() ? simple("INT", "integer") : simple("INTEGER", "integer");
            case 1: kw(c.flip() ? "CHAR" : "CHARACTER"); return sized(jv::obj("character"), "length", false);
            case 2: {
                static std::array<char const*, 3> const v { "VARCHAR", "CHAR VARYING", "CHARACTER VARYING" };
                kw(c.pick(v));
                return sized(jv::obj("character_varying"), "length", true);
            }
            case 3: kw("BINARY"); return sized(jv::obj("octet").set("type_kind", jv::str("octet")), "length", false);
            case 4: kw(c.flip() ? "VARBINARY" : "BINARY VARYING"); return sized(jv::obj("octet_varying").set("type_kind", jv::str("octet_varying")), "length", true);
            case 5: {
                static std::array<op, 3> const v { { { "DECIMAL", "decimal" }, { "DEC", "decimal" }, { "NUMERIC", "numeric" } } };
                auto d = c.pick(v);
                kw(d.text);
                auto o = jv::obj(d.name);
                int n = c.range(0, 2);
                if (n > 0) {
                    sym("(");
                    o.set("precision", flexible());
                    if (n > 1) {
                        sym(",");
                        o.set("scale", flexible());
                    }
                    sym(")");
                }
                return at(b, std::move(o));
            }
            case 6: return simple("BIGINT", "big_integer");
            case 7: return simple("SMALLINT", "small_integer");
            case 8: return simple("TINYINT", "tiny_integer");
            case 9: return simple("FLOAT", "float");
            case 10: return c.flip() ? simple("DOUBLE PRECISION", "double_precision") : simple("DOUBLE", "double_precision");
            case 11: return simple("REAL", "real");
            case 12: return simple("BOOLEAN", "boolean");
            case 13: return simple("DATE", "date");
            case 14: {
                bool ts = c.flip();
                kw(ts ? "TIMESTAMP" : "TIME");
                auto o = jv::obj(ts ? "timestamp" : "time");
                int z = c.range(0, 2);
                bool tz = z == 1;
                if (z == 1) kw("WITH TIME ZONE");
                if (z == 2) kw("WITHOUT TIME ZONE");
                if (z != 0) o.set("has_time_zone", jv::boo(tz));
                return at(b, std::move(o));
            }
            case 15: {
                // a size on an integer or a float
                bool f = c.flip();
                kw(f ? "FLOAT" : c.flip() ? "INT" : "INTEGER");
                sym("(");
                auto s = size_value();
                sym(")");
                return at(b, jv::obj(f ? "binary_float" : "binary_integer").set("precision", std::move(s)));
            }
            case 16: {
                switch (c.draw(6)) {
                    case 0: return simple("INTERVAL", "interval");
                    case 1: return simple("BLOB", "binary_large_object");
                    case 2: return simple("CLOB", "character_large_object");
                    case 3: return simple("BINARY LARGE OBJECT", "binary_large_object");
                    case 4: return simple("CHAR LARGE OBJECT", "character_large_object");
                    default: return simple("CHARACTER LARGE OBJECT", "character_large_object");
                }
            }
            case 17: {
                auto n = chain();
                return at(b, jv::obj("user_defined").set("name", std::move(n)));
            }
            default: {
                if (deep()) return simple("INT", "integer");
                depth_guard g { depth_ };
                kw("ROW");
                sym("(");
                auto l = comma_list("field_definition", 1, conf.list_max, [&] {
                    long fb = pos();
                    auto o = jv::obj();
                    o.set("name", identifier());
                    o.set("type", type());
                    if (c.chance(1, 4)) {
                        kw("COLLATE");
                        o.set("collation", chain());
                    }
                    return at(fb, std::move(o));
                });
                sym(")");
                return at(b, jv::obj("row").set("elements", std::move(l)));
            }
        }
    }

    // ---- queries ----
    jv subquery() {
        depth_guard g { depth_ };
        sym("(");
        auto q = query_expression();
        sym(")");
        use("subquery");
        return q;
    }
    jv query_expression() {
        long b = pos();
        if (conf.exotic && !deep() && c.chance(1, 10)) {
            kw("WITH");
            bool rec = c.chance(1, 4);
            if (rec) kw("RECURSIVE");
            auto l = comma_list("with_element", 1, conf.list_max, [&] {
                long wb = pos();
                auto o = jv::obj();
                o.set("name", identifier());
                o.set("column_names", column_names_opt());
                kw("AS");
                o.set("expression", subquery());
                return at(wb, std::move(o));
            });
            auto q = query_body(0, false);
            use("with");
            return at(b, jv::obj("with_expression").set("is_recursive", jv::boo(rec)).set("elements", std::move(l)).set("expression", std::move(q)));
        }
        return query_body(0, true);
    }
    // level: 0 UNION/EXCEPT, 1 INTERSECT, 2 primary; root: no parentheses are allowed around the whole
    jv query_body(int level, bool root) {
        depth_guard g { depth_ };
        long b = pos();
        int k = deep() ? 0 : c.weighted({ 12, level <= 0 ? 2 : 0, level <= 1 ? 1 : 0, root ? 0 : 2 });
        auto tail = [&](jv l, char const* name, bool right_primary) {
            auto o = jv::obj("binary_expression");
            o.set("left", std::move(l));
            o.set("operator_kind", jv::str(name));
            auto q = set_quantifier();
            if (q) o.set("quantifier", std::move(q));
            if (c.chance(1, 8)) {
                long cb = pos();
                kw("CORRESPONDING");
                auto names = jv::arr();
                if (c.flip()) {
                    kw("BY");
                    sym("(");
                    names = column_names();
                    sym(")");
                }
                o.set("corresponding", at(cb, jv::obj().set("column_names", std::move(names))));
                use("corresponding");
            }
            o.set("right", query_body(right_primary ? 2 : 1, false));
            use(std::string { "set-operation-" } + name);
            return at(b, std::move(o));
        };
        switch (k) {
            case 1: {
                static std::array<op, 3> const ops { { { "UNION", "union" }, { "EXCEPT", "except" }, { "OUTER UNION", "outer_union" } } };
                auto l = query_body(0, false);
                auto o = c.pick(ops);
                kw(o.text);
                return tail(std::move(l), o.name, false);
            }
            case 2: {
                auto l = query_body(1, false);
                kw("INTERSECT");
                return tail(std::move(l), "intersect", true);
            }
            case 3: {
                sym("(");
                auto q = query_body(0, true);
                sym(")");
                use("query-parentheses");
                return q;
            }
            default: return query_primary();
        }
    }
    jv query_primary() {
        long b = pos();
        switch (c.weighted({ 16, 1, 2 })) {
            case 0: return query_specification();
            case 1: {
                kw("TABLE");
                auto n = chain();
                use("table-query");
                return at(b, jv::obj("table_reference").set("name", std::move(n)));
            }
            default: {
                kw("VALUES");
                auto l = comma_list("row_expression", 1, conf.list_max, [&] {
                    long rb = pos();
                    int k = c.weighted({ 8, 2, conf.exotic && !deep() ? 1 : 0 });
                    if (k == 2) {
                        auto q = subquery();
                        return at(rb, jv::obj("subquery").set("query", std::move(q)).set("context_kind", jv::str("row")));
                    }
                    if (k == 1) kw("ROW");
                    sym("(");
                    auto e = value_list(1);
                    sym(")");
                    return at(rb, jv::obj("value_constructor").set("operator_kind", jv::str("row")).set("elements", std::move(e)));
                });
                use("values");
                return at(b, jv::obj("table_value_constructor").set("elements", std::move(l)));
            }
        }
    }
    jv sort_list() {
        return comma_list("ordering_element", 1, conf.list_max, [&] {
            long sb = pos();
            auto o = jv::obj();
            o.set("key", value());
            if (conf.exotic && c.chance(1, 8)) {
                kw("COLLATE");
                o.set("collation", chain());
            }
            int d = c.range(0, 2);
            if (d == 1) { kw("ASC"); o.set("direction", jv::str("asc")); }
            if (d == 2) { kw("DESC"); o.set("direction", jv::str("desc")); }
            int n = c.weighted({ 3, 1, 1 });
            if (n == 1) { kw("NULLS FIRST"); o.set("null_location", jv::str("first")); }
            if (n == 2) { kw("NULLS LAST"); o.set("null_location", jv::str("last")); }
            return at(sb, std::move(o));
        });
    }
    jv query_specification() {
        long b = pos();
        auto o = jv::obj("query");
        kw("SELECT");
        auto q = set_quantifier();
        if (q) o.set("quantifier", std::move(q));
        o.set("elements", comma_list("select_element", 1, conf.list_max, [&] {
            long eb = pos();
            int k = c.weighted({ 12, 2, 2 });
            if (k == 1) {
                sym("*");
                use("asterisk");
                return at(eb, jv::obj("asterisk"));
            }
            if (k == 2) {
                // the qualifier is any value expression; mostly a name
                jv v;
                if (c.chance(1, 6)) {
                    v = value();
                } else {
                    auto n = chain();
                    v = at(eb, jv::obj("variable_reference").set("name", std::move(n)));
                }
                multi(".*");
                use("qualified-asterisk");
                return at(eb, jv::obj("asterisk").set("qualifier", std::move(v)));
            }
            auto e = jv::obj("column");
            e.set("value", value());
            int a = c.weighted({ 3, 2, 1 });
            if (a == 1) kw("AS");
            if (a > 0) e.set("name", identifier());
            return at(eb, std::move(e));
        }));
        if (c.chance(4, 5)) {
            kw("FROM");
            o.set("from", comma_list("table_reference", 1, conf.list_max, [&] { return table(); }));
            if (c.chance(2, 5)) {
                kw("WHERE");
                o.set("where", value());
            }
            if (c.chance(1, 5)) {
                long gb = pos();
                kw("GROUP BY");
                auto l = jv::arr();
                if (c.chance(1, 6)) {
                    sym("(");
                    sym(")");
                } else {
                    l = comma_list("grouping_element", 1, conf.list_max, [&] {
                        long eb = pos();
                        auto e = jv::obj("column");
                        e.set("column", value());
                        if (conf.exotic && c.chance(1, 8)) {
                            kw("COLLATE");
                            e.set("collation", chain());
                        }
                        return at(eb, std::move(e));
                    });
                }
                o.set("group_by", at(gb, jv::obj().set("elements", std::move(l))));
                use("group-by");
            }
            if (c.chance(1, 6)) {
                kw("HAVING");
                o.set("having", value());
                use("having");
            }
            auto ob = jv::arr();
            if (c.chance(1, 4)) {
                kw("ORDER BY");
                ob = sort_list();
                use("order-by");
            }
            o.set("order_by", std::move(ob));
            if (c.chance(1, 5)) {
                kw("LIMIT");
                o.set("limit", value());
                use("limit");
            }
        } else {
            o.set("from", jv::arr());
            o.set("order_by", jv::arr());
        }
        return at(b, std::move(o));
    }

    // ---- tables ----
    jv correlation(bool force_column_list = false) {
        long b = pos();
        auto o = jv::obj();
        if (c.flip()) kw("AS");
        o.set("correlation_name", identifier());
        (void) force_column_list;
        o.set("column_names", column_names_opt());
        return at(b, std::move(o));
    }
    // a table reference, joins included
    jv table() {
        depth_guard g { depth_ };
        if (deep() || !c.chance(1, 3)) return table_primary();
        return joined();
    }
    jv joined() {
        depth_guard g { depth_ };
        long b = pos();
        auto l = table();
        auto o = jv::obj("join");
        o.set("left", std::move(l));
        switch (c.weighted({ 8, 2, 2, conf.exotic ? 1 : 0, conf.exotic ? 2 : 0 })) {
            case 0: {
                static std::array<op, 8> const js { { { "JOIN", "inner" }, { "INNER JOIN", "inner" }, { "LEFT JOIN", "left_outer" }, { "LEFT OUTER JOIN", "left_outer" },
                    { "RIGHT JOIN", "right_outer" }, { "RIGHT OUTER JOIN", "right_outer" }, { "FULL JOIN", "full_outer" }, { "FULL OUTER JOIN", "full_outer" } } };
                auto j = c.pick(js);
                kw(j.text);
                o.set("operator_kind", jv::str(j.name));
                o.set("right", table());
                long sb = pos();
                if (c.chance(2, 3)) {
                    kw("ON");
                    auto e = value();
                    o.set("specification", at(sb, jv::obj("condition").set("expression", std::move(e))));
                    use("join-on");
                } else {
                    kw("USING");
                    sym("(");
                    auto n = column_names();
                    sym(")");
                    o.set("specification", at(sb, jv::obj("columns").set("columns", std::move(n))));
                    use("join-using");
                }
                return at(b, std::move(o));
            }
            case 1:
                kw("CROSS JOIN");
                o.set("operator_kind", jv::str("cross"));
                o.set("right", table_primary());
                use("cross-join");
                return at(b, std::move(o));
            case 2: {
                static std::array<op, 8> const js { { { "NATURAL JOIN", "natural_inner" }, { "NATURAL INNER JOIN", "natural_inner" },
                    { "NATURAL LEFT JOIN", "natural_left_outer" }, { "NATURAL LEFT OUTER JOIN", "natural_left_outer" },
                    { "NATURAL RIGHT JOIN", "natural_right_outer" }, { "NATURAL RIGHT OUTER JOIN", "natural_right_outer" },
                    { "NATURAL FULL JOIN", "natural_full_outer" }, { "NATURAL FULL OUTER JOIN", "natural_full_outer" } } };
                auto j = c.pick(js);
                kw(j.text);
                o.set("operator_kind", jv::str(j.name));
                o.set("right", table_primary());
                use("natural-join");
                return at(b, std::move(o));
            }
            case 3:
                multi("UNION JOIN");
                o.set("operator_kind", jv::str("union"));
                o.set("right", table_primary());
                use("union-join");
                return at(b, std::move(o));
            default: {
                auto l2 = std::move(*o.find("left"));
                auto a = jv::obj("apply");
                a.set("operand", std::move(l2));
                switch (c.draw(3)) {
                    case 0: kw("APPLY"); break;
                    case 1: kw("CROSS APPLY"); a.set("operator_kind", jv::str("cross")); break;
                    default: multi("OUTER APPLY"); a.set("operator_kind", jv::str("outer")); break;
                }
                a.set("name", chain());
                a.set("arguments", arguments());
                a.set("correlation", correlation());
                use("apply");
                return at(b, std::move(a));
            }
        }
    }
    jv table_primary() {
        long b = pos();
        int x = conf.exotic && !deep() ? 1 : 0;
        switch (c.weighted({ 12, deep() ? 0 : 3, x, x, x, x * 2 })) {
            case 0: {
                auto o = jv::obj("table_reference");
                o.set("is_only", jv::boo(false));
                o.set("name", chain());
                if (c.flip()) o.set("correlation", correlation());
                return at(b, std::move(o));
            }
            case 1:
            case 2: {
                bool lat = conf.exotic && c.chance(1, 4);
                if (lat) kw("LATERAL");
                auto q = subquery();
                auto o = jv::obj("subquery");
                o.set("is_lateral", jv::boo(lat));
                o.set("expression", std::move(q));
                o.set("correlation", correlation());
                use("table-subquery");
                return at(b, std::move(o));
            }
            case 3: {
                kw("UNNEST");
                sym("(");
                auto e = value();
                sym(")");
                bool ord = c.flip();
                if (ord) kw("WITH ORDINALITY");
                auto o = jv::obj("unnest");
                o.set("expression", std::move(e));
                o.set("with_ordinality", jv::boo(ord));
                o.set("correlation", correlation());
                use("unnest");
                return at(b, std::move(o));
            }
            case 4: {
                kw("ONLY");
                sym("(");
                auto o = jv::obj("table_reference");
                o.set("is_only", jv::boo(true));
                o.set("name", chain());
                sym(")");
                if (c.flip()) o.set("correlation", correlation());
                use("only");
                return at(b, std::move(o));
            }
            default: {
                sym("(");
                auto j = joined();
                sym(")");
                use("table-parentheses");
                return j;
            }
        }
    }

    // ---- statements ----
    jv select_statement() {
        long b = pos();
        auto q = query_expression();
        use("select-statement");
        return at(b, jv::obj("select_statement").set("expression", std::move(q)).set("targets", jv::arr()));
    }
    jv insert_statement() {
        long b = pos();
        auto o = jv::obj("insert_statement");
        auto opts = jv::arr();
        switch (c.weighted({ 6, 1, 1, 1, 1 })) {
            case 0: kw("INSERT"); break;
            case 1: kw("INSERT OR REPLACE"); opts.add(jv::str("or_replace")); break;
            case 2: kw("INSERT OR IGNORE"); opts.add(jv::str("or_ignore")); break;
            case 3: kw("INSERT IF NOT EXISTS"); opts.add(jv::str("or_ignore")); break;
            default: kw("UPDATE OR INSERT"); opts.add(jv::str("or_replace")); break;
        }
        kw("INTO");
        o.set("table_name", chain());
        auto cols = jv::arr();
        if (c.flip()) {
            sym("(");
            cols = column_names();
            sym(")");
        }
        o.set("columns", std::move(cols));
        if (c.chance(1, 8)) {
            kw("DEFAULT VALUES");
        } else {
            o.set("expression", query_expression());
        }
        o.set("options", std::move(opts));
        use("insert-statement");
        return at(b, std::move(o));
    }
    void where_opt(jv& o) {
        if (c.chance(1, 2)) {
            kw("WHERE");
            if (conf.exotic && c.chance(1, 8)) {
                long b = pos();
                kw("CURRENT OF");
                auto n = identifier();
                auto e = at(b, jv::obj("current_of_cursor").set("name", std::move(n)));
                o.set("where", std::move(e));
                use("current-of");
            } else {
                o.set("where", value());
            }
        }
    }
    void alias_opt(jv& o) {
        int k = c.weighted({ 3, 1, 1 });
        if (k == 1) kw("AS");
        if (k > 0) o.set("alias_name", identifier());
    }
    jv update_statement() {
        long b = pos();
        auto o = jv::obj("update_statement");
        kw("UPDATE");
        o.set("table_name", chain());
        alias_opt(o);
        kw("SET");
        o.set("elements", comma_list("set_clause", 1, conf.list_max, [&] {
            long eb = pos();
            auto e = jv::obj();
            e.set("target", chain());
            sym("=");
            e.set("value", value());
            return at(eb, std::move(e));
        }));
        where_opt(o);
        use("update-statement");
        return at(b, std::move(o));
    }
    jv delete_statement() {
        long b = pos();
        auto o = jv::obj("delete_statement");
        kw("DELETE FROM");
        o.set("table_name", chain());
        alias_opt(o);
        where_opt(o);
        use("delete-statement");
        return at(b, std::move(o));
    }
    jv storage_parameters() {
        auto l = jv::arr();
        if (c.chance(1, 5)) {
            kw("WITH");
            sym("(");
            l = comma_list("storage_parameter", 0, conf.list_max, [&] {
                long b = pos();
                auto o = jv::obj();
                o.set("name", chain());
                if (c.flip()) {
                    sym("=");
                    o.set("value", scalar(0));
                }
                return at(b, std::move(o));
            });
            sym(")");
            use("storage-parameters");
        }
        return l;
    }
    jv include_list() {
        auto l = jv::arr();
        if (c.chance(1, 5)) {
            kw("INCLUDE");
            sym("(");
            l = comma_list("scalar_expression", 0, conf.list_max, [&] { return scalar(0); });
            sym(")");
            use("include");
        }
        return l;
    }
    // a description anchor: the token about to be emitted
    jv description() {
        doc_anchors.push_back(pos());
        auto d = jv::obj();
        d.set("anchor", jv::num(static_cast<std::uint64_t>(pos())));
        return d;
    }
    jv create_table() {
        long b = pos();
        auto o = jv::obj("table_definition");
        auto desc = description();
        auto opts = jv::arr();
        kw("CREATE");
        bool temp = c.chance(1, 6);
        if (temp) kw("TEMPORARY");
        kw("TABLE");
        if (c.chance(1, 4)) {
            kw("IF NOT EXISTS");
            opts.add(jv::str("if_not_exists"));
        }
        if (temp) opts.add(jv::str("temporary"));
        o.set("name", chain());
        sym("(");
        o.set("elements", comma_list("table_element_definition", 0, conf.list_max, [&] { return table_element(); }));
        sym(")");
        o.set("options", std::move(opts));
        o.set("parameters", storage_parameters());
        o.set("description", std::move(desc));
        use("create-table");
        return at(b, std::move(o));
    }
    jv table_element() {
        long b = pos();
        if (c.chance(1, 5)) {
            auto o = jv::obj("constraint_definition");
            if (c.chance(1, 3)) {
                kw("CONSTRAINT");
                o.set("name", chain());
            }
            o.set("body", table_constraint());
            use("table-constraint");
            return at(b, std::move(o));
        }
        auto o = jv::obj("column_definition");
        auto desc = description();
        o.set("name", identifier());
        o.set("type", type());
        auto l = jv::arr();
        int n = c.size(3);
        for (int i = 0; i < n; ++i) {
            long eb = pos();
            auto e = jv::obj();
            if (c.chance(1, 5)) {
                kw("CONSTRAINT");
                e.set("name", chain());
            }
            e.set("body", column_constraint());
            l.add(at(eb, std::move(e)));
            step("column_constraint_definition", l, eb, pos());
        }
        o.set("constraints", std::move(l));
        o.set("description", std::move(desc));
        return at(b, std::move(o));
    }
    jv table_constraint() {
        long b = pos();
        switch (c.weighted({ 3, 2, 2, 1 })) {
            case 0: {
                kw("PRIMARY KEY");
                auto o = jv::obj("primary_key");
                o.set("constraint_kind", jv::str("primary_key"));
                sym("(");
                o.set("key", sort_list());
                sym(")");
                o.set("values", include_list());
                o.set("parameters", storage_parameters());
                return at(b, std::move(o));
            }
            case 1: {
                kw("UNIQUE");
                auto o = jv::obj("unique");
                o.set("constraint_kind", jv::str("unique"));
                sym("(");
                o.set("key", sort_list());
                sym(")");
                o.set("values", include_list());
                o.set("parameters", storage_parameters());
                return at(b, std::move(o));
            }
            case 2: {
                kw("CHECK");
                sym("(");
                auto e = scalar(0);
                sym(")");
                return at(b, jv::obj("check").set("expression", std::move(e)));
            }
            default: {
                kw("FOREIGN KEY");
                sym("(");
                auto cols = column_names();
                sym(")");
                kw("REFERENCES");
                auto o = jv::obj("referential");
                o.set("columns", std::move(cols));
                o.set("target", chain());
                o.set("target_columns", column_names_opt());
                referential_actions(o);
                use("referential");
                return at(b, std::move(o));
            }
        }
    }
    void referential_actions(jv& o) {
        static std::array<op, 5> const as { { { "CASCADE", "cascade" }, { "SET NULL", "set_null" }, { "SET DEFAULT", "set_default" }, { "RESTRICT", "restrict" }, { "NO ACTION", "no_action" } } };
        int k = c.range(0, 4);
        auto one = [&](bool update) {
            kw(update ? "ON UPDATE" : "ON DELETE");
            auto a = c.pick(as);
            kw(a.text);
            o.set(update ? "on_update" : "on_delete", jv::str(a.name));
        };
        if (k == 1 || k == 3) one(true);
        if (k == 2 || k == 4) one(false);
        if (k == 3) one(false);
        if (k == 4) one(true);
    }
    jv column_constraint() {
        long b = pos();
        switch (c.weighted({ 4, 2, 3, 2, 2, 1, 1, 2, 1 })) {
            case 0: kw("NOT NULL"); return at(b, jv::obj("not_null"));
            case 1: kw("NULL"); return at(b, jv::obj("null"));
            case 2: {
                kw("DEFAULT");
                auto e = scalar(0);
                use("default-clause");
                return at(b, jv::obj("default_clause").set("expression", std::move(e)));
            }
            case 3: {
                bool u = c.flip();
                kw(u ? "UNIQUE" : "PRIMARY KEY");
                auto o = jv::obj(u ? "unique" : "primary_key");
                o.set("constraint_kind", jv::str(u ? "unique" : "primary_key"));
                o.set("key", jv::arr());
                o.set("values", include_list());
                o.set("parameters", storage_parameters());
                return at(b, std::move(o));
            }
            case 4: {
                kw("GENERATED");
                auto o = jv::obj("identity_column");
                if (c.flip()) {
                    kw("ALWAYS");
                    o.set("generation", jv::str("always"));
                } else {
                    kw("BY DEFAULT");
                    o.set("generation", jv::str("by_default"));
                }
                kw("AS IDENTITY");
                if (c.flip()) {
                    sym("(");
                    auto cy = sequence_options(o, false);
                    if (cy) o.set("cycle", std::move(cy));
                    sym(")");
                }
                use("identity");
                return at(b, std::move(o));
            }
            case 5: {
                kw("GENERATED ALWAYS AS");
                sym("(");
                auto e = scalar(0);
                sym(")");
                return at(b, jv::obj("generation_clause").set("expression", std::move(e)));
            }
            case 6: {
                kw("CHECK");
                sym("(");
                auto e = scalar(0);
                sym(")");
                return at(b, jv::obj("check").set("expression", std::move(e)));
            }
            default: {
                kw("REFERENCES");
                auto o = jv::obj("referential");
                o.set("columns", jv::arr());
                o.set("target", chain());
                o.set("target_columns", column_names_opt());
                referential_actions(o);
                use("referential");
                return at(b, std::move(o));
            }
        }
    }
    // returns cycle (boolean) or null
    jv sequence_options(jv& o, bool full) {
        jv cycle;
        bool seen[7] {};
        int n = c.size(5);
        for (int i = 0; i < n; ++i) {
            int k = static_cast<int>(c.draw(full ? 7 : 5));
            if (seen[k]) continue;
            seen[k] = true;
            switch (k) {
                case 0:
                    kw(c.flip() ? "START WITH" : "START");
                    o.set("initial_value", scalar(0));
                    break;
                case 1:
                    kw(c.flip() ? "INCREMENT BY" : "INCREMENT");
                    o.set("increment_value", scalar(0));
                    break;
                case 2:
                    if (c.chance(1, 3)) {
                        kw("NO MAXVALUE");
                    } else {
                        kw("MAXVALUE");
                        o.set("max_value", scalar(0));
                    }
                    break;
                case 3:
                    if (c.chance(1, 3)) {
                        kw("NO MINVALUE");
                    } else {
                        kw("MINVALUE");
                        o.set("min_value", scalar(0));
                    }
                    break;
                case 4: {
                    bool no = c.flip();
                    kw(no ? "NO CYCLE" : "CYCLE");
                    cycle = jv::boo(!no);
                    break;
                }
                case 5:
                    kw("AS");
                    o.set("type", type());
                    break;
                default:
                    kw("OWNED BY");
                    o.set("owner", chain());
                    break;
            }
        }
        return cycle;
    }
    jv create_index() {
        long b = pos();
        auto o = jv::obj("index_definition");
        auto desc = description();
        auto opts = jv::arr();
        kw("CREATE");
        if (c.chance(1, 4)) {
            kw("UNIQUE");
            opts.add(jv::str("unique"));
        }
        kw("INDEX");
        if (c.chance(1, 4)) {
            kw("IF NOT EXISTS");
            opts.add(jv::str("if_not_exists"));
        }
        if (c.chance(3, 4)) o.set("name", chain());
        kw("ON");
        o.set("table_name", chain());
        sym("(");
        o.set("keys", sort_list());
        sym(")");
        o.set("values", include_list());
        o.set("parameters", storage_parameters());
        if (c.chance(1, 5)) {
            kw("WHERE");
            if (conf.exotic && c.chance(1, 8)) {
                long cb = pos();
                kw("CURRENT OF");
                auto n = identifier();
                o.set("predicate", at(cb, jv::obj("current_of_cursor").set("name", std::move(n))));
            } else {
                o.set("predicate", value());
            }
        }
        o.set("options", std::move(opts));
        o.set("description", std::move(desc));
        use("create-index");
        return at(b, std::move(o));
    }
    jv create_view() {
        long b = pos();
        auto o = jv::obj("view_definition");
        auto desc = description();
        auto opts = jv::arr();
        kw("CREATE");
        if (c.chance(1, 4)) {
            kw("OR REPLACE");
            opts.add(jv::str("or_replace"));
        }
        if (c.chance(1, 5)) {
            kw("TEMPORARY");
            opts.add(jv::str("temporary"));
        }
        if (c.chance(1, 5)) {
            kw("RECURSIVE");
            opts.add(jv::str("recursive"));
        }
        kw("VIEW");
        if (c.chance(1, 4)) {
            kw("IF NOT EXISTS");
            opts.add(jv::str("if_not_exists"));
        }
        o.set("name", chain());
        o.set("columns", column_names_opt());
        o.set("parameters", storage_parameters());
        kw("AS");
        o.set("query", query_expression());
        o.set("options", std::move(opts));
        o.set("description", std::move(desc));
        use("create-view");
        return at(b, std::move(o));
    }
    jv create_sequence() {
        long b = pos();
        auto o = jv::obj("sequence_definition");
        auto desc = description();
        auto opts = jv::arr();
        kw("CREATE");
        if (c.chance(1, 5)) {
            kw("TEMPORARY");
            opts.add(jv::str("temporary"));
        }
        kw("SEQUENCE");
        if (c.chance(1, 4)) {
            kw("IF NOT EXISTS");
            opts.add(jv::str("if_not_exists"));
        }
        o.set("name", chain());
        auto cy = sequence_options(o, true);
        if (cy) opts.add(jv::str(cy.b ? "cycle" : "no_cycle"));
        o.set("options", std::move(opts));
        o.set("description", std::move(desc));
        use("create-sequence");
        return at(b, std::move(o));
    }
    jv create_schema() {
        long b = pos();
        auto o = jv::obj("schema_definition");
        auto desc = description();
        auto opts = jv::arr();
        kw("CREATE SCHEMA");
        if (c.chance(1, 4)) {
            kw("IF NOT EXISTS");
            opts.add(jv::str("if_not_exists"));
        }
        if (c.chance(4, 5)) o.set("name", chain());
        if (c.chance(1, 4)) {
            kw("AUTHORIZATION");
            long ub = pos();
            static std::array<op, 3> const us { { { "CURRENT_ROLE", "current_role" }, { "CURRENT_USER", "current_user" }, { "SESSION_USER", "session_user" } } };
            int k = c.range(0, 3);
            if (k == 0) {
                o.set("user_name", identifier());
            } else {
                auto u = us[static_cast<std::size_t>(k - 1)];
                kw(u.text);
                o.set("user_name", at(ub, jv::obj("simple").set("identifier", jv::str(u.name)).set("identifier_kind", jv::str("regular"))));
            }
        }
        auto l = jv::arr();
        int n = c.size(3);
        for (int i = 0; i < n; ++i) {
            long eb = pos();
            switch (c.range(0, 3)) {
                case 0: l.add(create_table()); break;
                case 1: l.add(create_index()); break;
                case 2: l.add(create_view()); break;
                default: l.add(create_sequence()); break;
            }
            step("schema_element_definition", l, eb, pos());
            use("schema-element");
        }
        o.set("elements", std::move(l));
        o.set("options", std::move(opts));
        o.set("description", std::move(desc));
        use("create-schema");
        return at(b, std::move(o));
    }
    jv drop() {
        long b = pos();
        static std::array<op, 5> const ds { { { "TABLE", "drop_table_statement" }, { "INDEX", "drop_index_statement" }, { "VIEW", "drop_view_statement" },
            { "SEQUENCE", "drop_sequence_statement" }, { "SCHEMA", "drop_schema_statement" } } };
        auto d = c.pick(ds);
        kw("DROP");
        kw(d.text);
        auto o = jv::obj(d.name);
        auto opts = jv::arr();
        if (c.chance(1, 3)) {
            kw("IF EXISTS");
            opts.add(jv::str("if_exists"));
        }
        o.set("name", chain());
        int k = c.weighted({ 3, 1, 1 });
        if (k == 1) { kw("CASCADE"); opts.add(jv::str("cascade")); }
        if (k == 2) { kw("RESTRICT"); opts.add(jv::str("restrict")); }
        o.set("options", std::move(opts));
        use("drop");
        return at(b, std::move(o));
    }
    jv alter() {
        long b = pos();
        bool table = c.flip();
        auto o = jv::obj(table ? "alter_table_statement" : "alter_index_statement");
        kw(table ? "ALTER TABLE" : "ALTER INDEX");
        bool e = c.chance(1, 3);
        if (e) kw("IF EXISTS");
        o.set("if_exists", jv::boo(e));
        o.set("name", chain());
        long ab = pos();
        if (table && c.flip()) {
            auto a = jv::obj("rename_column");
            kw("RENAME COLUMN");
            bool ce = c.chance(1, 3);
            if (ce) kw("IF EXISTS");
            a.set("if_exists", jv::boo(ce));
            a.set("column_name", identifier());
            kw("TO");
            a.set("replacement", identifier());
            o.set("action", at(ab, std::move(a)));
        } else {
            auto a = jv::obj(table ? "rename_table" : "rename_index");
            kw("RENAME TO");
            a.set("replacement", identifier());
            o.set("action", at(ab, std::move(a)));
        }
        use("alter");
        return at(b, std::move(o));
    }
    jv truncate() {
        long b = pos();
        auto o = jv::obj("truncate_table_statement");
        kw("TRUNCATE TABLE");
        o.set("name", chain());
        int k = c.range(0, 2);
        if (k == 1) { kw("RESTART IDENTITY"); o.set("identity_column_option", jv::str("restart_identity")); }
        if (k == 2) { kw("CONTINUE IDENTITY"); o.set("identity_column_option", jv::str("continue_identity")); }
        use("truncate");
        return at(b, std::move(o));
    }
    jv privilege() {
        long b = pos();
        bool grant = c.flip();
        auto o = jv::obj(grant ? "grant_privilege_statement" : "revoke_privilege_statement");
        kw(grant ? "GRANT" : "REVOKE");
        if (c.chance(1, 4)) {
            long ab = pos();
            kw("ALL PRIVILEGES");
            auto l = jv::arr();
            l.add(at(ab, jv::obj().set("action_kind", jv::str("all_privileges"))));
            o.set("actions", std::move(l));
        } else {
            static std::array<op, 4> const as { { { "SELECT", "select" }, { "INSERT", "insert" }, { "UPDATE", "update" }, { "DELETE", "delete" } } };
            o.set("actions", comma_list("privilege_action", 1, conf.list_max, [&] {
                long ab = pos();
                auto a = c.pick(as);
                kw(a.text);
                return at(ab, jv::obj().set("action_kind", jv::str(a.name)));
            }));
        }
        kw("ON");
        o.set("objects", comma_list("privilege_object", 1, conf.list_max, [&] {
            long ob = pos();
            auto p = jv::obj();
            if (c.flip()) {
                kw("TABLE");
                p.set("object_kind", jv::str("table"));
            }
            p.set("object_name", chain());
            return at(ob, std::move(p));
        }));
        kw(grant ? "TO" : "FROM");
        o.set("users", comma_list("privilege_user", 1, conf.list_max, [&] {
            long ub = pos();
            auto p = jv::obj();
            switch (c.weighted({ 4, 1, 1, 1 })) {
                case 0:
                    p.set("user_kind", jv::str("identifier"));
                    p.set("authorization_identifier", identifier());
                    break;
                case 1: kw("PUBLIC"); p.set("user_kind", jv::str("public")); break;
                case 2: kw("CURRENT_USER"); p.set("user_kind", jv::str("current_user")); break;
                default: sym("*"); p.set("user_kind", jv::str("all_users")); break;
            }
            return at(ub, std::move(p));
        }));
        use("privilege");
        return at(b, std::move(o));
    }

private:
    int depth_ { 0 };
};

// ---- layout: tokens to text ----
struct layout {
    std::string text;
    std::vector<std::pair<std::size_t, std::size_t>> span;  // of each token
    std::vector<std::pair<std::size_t, std::size_t>> comments;
    std::vector<std::pair<long, long>> doc_before;          // last description comment in the gap before each token
};

inline bool word_char(char ch) {
    return (ch >= 'a' && ch <= 'z') || (ch >= 'A' && ch <= 'Z') || (ch >= '0' && ch <= '9') || ch == '_';
}

// may the two tokens be written without a separator?
inline bool need_space(std::string const& a, std::string const& b) {
    if (a.empty() || b.empty()) return false;
    char x = a.back(), y = b.front();
    if (word_char(x) && word_char(y)) return true;
    static std::string const ops = "<>=!|&-:.*/@+";
    if (ops.find(x) != std::string::npos && ops.find(y) != std::string::npos) return true;
    if ((x == '\'' && y == '\'') || (x == '"' && y == '"')) return true;
    if (word_char(x) && (y == '\'' || y == '"')) return true; // x'..' is a hexadecimal string
    if (x == '.' && word_char(y) && y >= '0' && y <= '9') return true;
    if (word_char(x) && y == '.' && a.front() >= '0' && a.front() <= '9') return true;
    if (x == ':' && word_char(y)) return false == true ? true : a != "::";
    return false;
}

enum class gap_style { plain, random, random_docs };

class layouter {
public:
    layouter(pbt::source& src, gap_style style, bool recase) : c { src }, style_ { style }, recase_ { recase } {}

    layout operator()(std::vector<tok> const& toks) {
        layout r;
        for (std::size_t i = 0; i <= toks.size(); ++i) {
            std::string prev = i == 0 ? "" : last_;
            std::string cur = i < toks.size() ? image(toks[i]) : "";
            bool need = i > 0 && i < toks.size() && need_space(prev, cur);
            auto doc = gap(r, need, i > 0, i == toks.size(), prev, cur);
            r.doc_before.push_back(doc);
            if (i < toks.size()) {
                auto b = r.text.size();
                r.text += cur;
                r.span.emplace_back(b, r.text.size());
                last_ = cur;
            }
        }
        return r;
    }

private:
    pbt::source& c;
    gap_style style_;
    bool recase_;
    std::string last_;

    std::string image(tok const& t) {
        std::string s = t.text;
        if (t.kind == tk::keyword) {
            if (recase_) {
                switch (c.range(0, 3)) {
                    case 1: s = lower(s); break;
                    case 2: s = upper(s); break;
                    case 3:
                        for (auto& ch : s) {
                            if (c.flip()) ch = static_cast<char>(ch >= 'A' && ch <= 'Z' ? ch - 'A' + 'a' : ch);
                        }
                        break;
                    default: break;
                }
                // phrases: any white space between their words
                std::string o;
                for (char ch : s) {
                    if (ch == ' ') o += white(1);
                    else o += ch;
                }
                if (s == ".*" && style_ != gap_style::plain) o = "." + white(0) + "*";
                s = o;
            }
        }
        return s;
    }
    std::string white(int min) {
        static std::array<std::string, 6> const ws { " ", "\n", "\t", "\r\n", "\f", "\v" };
        std::string s;
        int n = min + c.size(2);
        for (int i = 0; i < n; ++i) s += ws[static_cast<std::size_t>(c.weighted({ 10, 3, 2, 1, 1, 1 }))];
        return s;
    }
    std::pair<long, long> gap(layout& r, bool need, bool, bool last, std::string const& prev, std::string const& cur) {
        std::pair<long, long> doc { -1, -1 };
        if (style_ == gap_style::plain) {
            // one space between tokens, except in the usual places
            if (!r.text.empty() && !last) r.text += ' ';
            return doc;
        }
        std::string g;
        if (need || c.flip()) g += white(1);
        r.text += g;
        int n = c.weighted({ 12, 2, 1 });
        if (style_ == gap_style::random_docs && n == 0 && c.chance(1, 3)) n = 1;
        if (n > 0 && g.empty() && !prev.empty() && (prev.back() == '/' || prev.back() == '-' || prev.back() == '*')) {
            r.text += ' ';
        }
        for (int i = 0; i < n; ++i) {
            auto b = r.text.size();
            auto kind = c.weighted({ 4, 3, style_ == gap_style::random_docs ? 6 : 0, 1 });
            static std::array<std::string, 16> const parts { "x", " ", "'", "\"", "--", ";", "?", "/*", "\xe3\x81\x82", "\xff", "*", "/", "\n", "SELECT", "$", "\\" };
            auto body = [&](bool line) {
                std::string s;
                int k = c.size(4);
                for (int j = 0; j < k; ++j) {
                    auto p = c.pick(parts);
                    if (line && p == "\n") continue;
                    s += p;
                    // never close the comment early
                    auto q = s.find("*/");
                    if (!line && q != std::string::npos) s.erase(q + 1, 1);
                }
                return s;
            };
            if (kind == 1) {
                r.text += "--" + body(true);
                auto e = r.text.size();
                r.comments.emplace_back(b, e);
                if (last && i + 1 == n && c.flip()) {
                    // a line comment may also be ended by the end of the document
                    return doc;
                }
                r.text += c.chance(1, 4) ? "\r\n" : "\n";
            } else if (kind == 2) {
                auto s = body(false);
                while (!s.empty() && s.front() == '/') s.erase(0, 1);
                if (!s.empty() && s.back() == '*' && false) s.pop_back();
                r.text += "/**" + s + "*/";
                r.comments.emplace_back(b, r.text.size());
                doc = { static_cast<long>(b), static_cast<long>(r.text.size()) };
            } else if (kind == 3) {
                // looks like a description, but is too short to be one
                r.text += "/**/";
                r.comments.emplace_back(b, r.text.size());
            } else {
                auto s = body(false);
                while (!s.empty() && (s.front() == '*' || s.front() == '/')) s.erase(0, 1);
                r.text += "/*" + s + "*/";
                r.comments.emplace_back(b, r.text.size());
            }
            if (c.chance(1, 2)) r.text += white(1);
        }
        if (n > 0 && r.text.size() && !cur.empty() && (r.text.back() == '/') && (cur.front() == '*' || cur.front() == '/')) {
            r.text += ' ';
        }
        return doc;
    }
};

// replaces token positions by byte positions; resolves description anchors
inline void resolve(jv& v, layout const& l, bool descriptions) {
    if (v.tb >= 0) {
        if (v.te <= v.tb) {
            v.tb = v.te = -1;
        } else {
            v.tb = static_cast<long>(l.span[static_cast<std::size_t>(v.tb)].first);
            v.te = static_cast<long>(l.span[static_cast<std::size_t>(v.te - 1)].second);
        }
    }
    for (auto& e : v.a) resolve(e, l, descriptions);
    for (auto& [k, e] : v.o) {
        if (k == "description") {
            if (auto* a = e.find("anchor")) {
                auto d = l.doc_before[a->i];
                if (d.first < 0 || !descriptions) {
                    e = jv {};
                } else {
                    e = jv::obj();
                    e.set("begin", jv::num(static_cast<std::uint64_t>(d.first)));
                    e.set("end", jv::num(static_cast<std::uint64_t>(d.second)));
                }
            }
            continue;
        }
        resolve(e, l, descriptions);
    }
}

} // namespace sqlgen
