#include <cerrno>
#include "doc_check.h"

using namespace sqlgen;

namespace {

std::string show_bytes(std::string const& s) {
    std::string o;
    for (unsigned char ch : s.substr(0, 4000)) {
        if (ch >= 0x20 && ch < 0x7f) o += static_cast<char>(ch);
        else { char b[8]; snprintf(b, sizeof b, "\\x%02x", ch); o += b; }
    }
    return o;
}

void configure(pbt::source& c, sql_parser& p) {
    if (c.chance(1, 3)) {
        p.options().max_expected_candidates() = static_cast<std::size_t>(c.range(0, 8));
    } else if (c.chance(1, 8)) {
        p.options().max_expected_candidates() = 100000;
    }
    if (c.chance(1, 8)) p.options().tree_node_limit() = static_cast<std::size_t>(c.range(1, 60));
    if (c.chance(1, 8)) p.options().tree_depth_limit() = static_cast<std::size_t>(c.range(1, 12));
    if (c.chance(1, 4)) p.options().enable_description_comments() = false;
    if (c.chance(1, 6)) {
        auto k = static_cast<sql_parser_element_kind>(c.range(static_cast<int>(sql_parser_element_kind::statement), static_cast<int>(sql_parser_element_kind::privilege_user)));
        p.options().element_limits()[k] = static_cast<std::size_t>(c.range(1, 3));
    }
}

bool within(mizugaki::ast::node_region r, std::size_t size) {
    return r.begin <= r.end && r.end <= size;
}

// every node of an accepted tree lies in the document, and inside its parent
void nested(jv const& v, long b, long e, pbt::context& ctx) {
    if (v.kind == jv::object && v.tb >= 0) {
        ++ctx.checks;
        if (!(v.tb <= v.te && v.tb >= b && v.te <= e)) ctx.fail("node-region",
                "region [" + std::to_string(v.tb) + "," + std::to_string(v.te) + ") is out of [" + std::to_string(b) + "," + std::to_string(e) + "): " + jv_text(v).substr(0, 300));
    }
    for (auto const& x : v.a) nested(x, b, e, ctx);
    for (auto const& [k, x] : v.o) nested(x, b, e, ctx);
}

void check(pbt::source& c, pbt::context& ctx, std::string const& text, bool known_valid = false) {
    ctx.show(show_bytes(text));
    sql_parser p;
    configure(c, p);
    errno = 0;
    auto r = p("-", text);
    ctx.require(r.has_value() != r.has_diagnostic(), "exclusive", "exactly one of a tree and a diagnostic is required");
    if (r.has_value()) {
        ctx.label("accepted");
        auto v = jv_of(*r.value());
        nested(v, 0, static_cast<long>(text.size()), ctx);
        for (auto&& s : r.value()->statements()) ctx.require(s != nullptr, "null-statement");
        for (auto&& x : r.value()->comments()) ctx.require(within(x, text.size()), "comment-region");
        ctx.require(static_cast<bool>(r.value()->document()), "document", "the tree does not refer its source document");
        std::ostringstream ss;
        ss << *r.value();
        ctx.require(!ss.str().empty(), "print");
    } else {
        auto&& d = r.diagnostic();
        ctx.label(code_text(d.code()));
        ctx.require(d.code() != sql_parser_code::unknown && d.code() != sql_parser_code::system, "code", diag_text(r));
        ctx.require(!d.message().empty(), "message", "empty diagnostic message");
        ctx.require(within(d.region(), text.size()), "region", diag_text(r));
        if (known_valid) ctx.label("rejected-by-limit");
    }
    // deterministic: the same parser answers the same again, and leaves its options, whatever was parsed before
    if (c.chance(1, 2)) {
        static std::vector<std::string> const others { "CREATE TABLE t (c CHAR(99999999999999999999999))", "SELECT", "SELECT 'a", "SELECT 1; SELECT ((1", "/** x */ SELECT 1", "\"", "x\xff", "CREATE TABLE t (c DECIMAL(99999999999999999999, 1))", "SELECT 1.5E999 FROM t; -- x", "" };
        auto other = c.chance(1, 3) ? text.substr(0, c.draw(static_cast<std::uint32_t>(text.size() + 1))) : c.pick(others);
        if (c.flip()) (void) p("other", other); else { sql_parser q; (void) q("other", other); }
        if (c.flip()) errno = ERANGE;
        ctx.label("another text in between");
    }
    auto r2 = p("-", text);
    ctx.require(r2.has_value() == r.has_value(), "deterministic", "the second parse differs");
    if (r.has_value()) {
        ctx.require(*r.value() == *r2.value(), "deterministic", "the second tree differs");
        ctx.require(jv_text(jv_of(*r.value()), true) == jv_text(jv_of(*r2.value()), true), "deterministic", "the second tree differs");
        ctx.require(r.tree_node_count() == r2.tree_node_count() && r.max_tree_depth() == r2.max_tree_depth(), "deterministic");
    } else {
        ctx.require(diag_text(r) == diag_text(r2), "deterministic", diag_text(r) + " / " + diag_text(r2));
    }
    if (text.size() >= 12) ctx.nontrivial(text);
}

std::vector<std::string> const& fragments() {
    static std::vector<std::string> const v = [] {
        std::vector<std::string> r { "'", "\"", "''", "\"\"", "x'", "X'00'", "'a'", "\"a\"", "/*", "*/", "/**", "--", "\n", "\r", "\r\n", " ", "\t", "\v",
                "(", ")", "[", "]", "{", "}", ",", ";", ".", "*", "+", "-", "/", "%", "&", "&&", "|", "||", "^", "_", "__", "__a", "a", "a1", "_a", "\"__a\"",
                "=", "<", ">", "<=", ">=", "<>", "!=", "!", "<@", "@>", "@", "->", "::", ":", ":a", ":1", "?", "#", "$", "\\", "`", "~", "0", "1", "12", "1.", ".1", "1.5",
                "1e", "1e5", "1E+5", "1e-5", "1.5e3", "99999999999999999999999", "\x01", "\x7f", "\x80", "\xff", "\xe3\x81\x82", "\xe3\x81", "\xf0\x9f\x98\x80",
                "UNION  JOIN", "OUTER APPLY", ". *", "NOT NULL", "PRIMARY KEY", "ORDER BY", "GROUP BY", "IS NOT", "CREATE TABLE", "VALUES (1)" };
        for (auto& w : reserved_words()) r.push_back(w);
        for (auto& w : contextual_keywords()) r.push_back(w);
        return r;
    }();
    return v;
}

void bytes(pbt::source& c, pbt::context& ctx) {
    std::string s;
    int n = c.chance(1, 4) ? c.range(0, 300) : c.range(0, 30);
    int mode = c.range(0, 2);
    static std::string const likely = "selctfrom x'\"*,()-/\n;.?:_10e";
    for (int i = 0; i < n; ++i) {
        if (mode == 0) s += static_cast<char>(c.draw(256));
        else if (mode == 1) s += likely[c.draw(static_cast<std::uint32_t>(likely.size()))];
        else s += static_cast<char>(c.chance(1, 10) ? c.draw(256) : 0x20 + c.draw(0x60));
    }
    check(c, ctx, s);
}

void soup(pbt::source& c, pbt::context& ctx) {
    std::string s;
    int n = c.range(0, 40);
    bool glue = c.chance(1, 3);
    for (int i = 0; i < n; ++i) {
        s += c.pick(fragments());
        if (!glue || c.flip()) s += ' ';
    }
    check(c, ctx, s);
}

void mutated(pbt::source& c, pbt::context& ctx) {
    config conf;
    conf.max_statements = 2;
    conf.depth = 4;
    document d { c, conf, c.flip() ? gap_style::plain : gap_style::random_docs, true };
    // token level
    auto toks = d.g.toks;
    int n = c.range(0, 3);
    for (int i = 0; i < n && !toks.empty(); ++i) {
        auto at = c.draw(static_cast<std::uint32_t>(toks.size()));
        auto it = toks.begin() + at;
        switch (c.range(0, 5)) {
            case 0: toks.erase(it); break;
            case 1: toks.insert(it, *it); break;
            case 2: std::swap(*it, toks[c.draw(static_cast<std::uint32_t>(toks.size()))]); break;
            case 3: it->text = c.pick(fragments()); break;
            case 4: toks.insert(it, tok { c.pick(fragments()), tk::raw }); break;
            default: {
                auto to = std::min<std::size_t>(toks.size(), at + static_cast<std::size_t>(c.range(1, 6)));
                std::vector<tok> part(toks.begin() + at, toks.begin() + static_cast<long>(to));
                auto pos = c.draw(static_cast<std::uint32_t>(toks.size()));
                toks.insert(toks.begin() + pos, part.begin(), part.end());
                break;
            }
        }
    }
    std::string text = n == 0 ? d.lay.text : layouter { c, gap_style::plain, false }(toks).text;
    // byte level
    int m = c.weighted({ 4, 2, 1, 1 });
    for (int i = 0; i < m && !text.empty(); ++i) {
        auto at = c.draw(static_cast<std::uint32_t>(text.size()));
        switch (c.range(0, 3)) {
            case 0: text.erase(at, 1); break;
            case 1: text[at] = static_cast<char>(c.draw(256)); break;
            case 2: text.insert(at, c.pick(fragments())); break;
            default: text.resize(at); break;
        }
    }
    check(c, ctx, text);
}

void nesting(pbt::source& c, pbt::context& ctx) {
    static std::vector<std::array<std::string, 4>> const shapes {
        { "SELECT ", "(", "1", ")" }, { "SELECT ", "- ", "a", "" }, { "SELECT ", "NOT ", "a", "" }, { "SELECT 1", "+1", "", "" },
        { "SELECT ", "(SELECT ", "1", ")" }, { "SELECT ", "CASE WHEN a THEN 1 ELSE ", "1", " END" }, { "SELECT 1", " UNION SELECT 1", "", "" },
        { "SELECT 1 FROM a", " CROSS JOIN a", "", "" }, { "SELECT 1 FROM ", "(SELECT 1 FROM ", "a", ") a" }, { "SELECT a", ".a", "", "" },
        { "SELECT 1", ",1", "", "" }, { "SELECT 'a'", "\n'b'", "", "" }, { "SELECT ", "f(", "1", ")" }, { "SELECT a", "[1]", "", "" },
        { "SELECT ", "CAST(", "1", " AS INT)" }, { "SELECT ", "a IN (", "1", ")" }, { "", "WITH a AS (", "SELECT 1", ") SELECT 1" },
        { "", ";", "", "" }, { "SELECT ", "((", "1", ")" }, { "SELECT ", "(", "1", "))" }, { "SELECT ", "ROW(", "1", ")" }, { "CREATE TABLE t(c INT", " DEFAULT 1", "", ")" },
        { "SELECT 1 FROM a", " APPLY f() a", "", "" }, { "SELECT a", "->b()", "", "" }, { "SELECT a", "::INT", "", "" }, { "", "(", "SELECT 1", ")" }, { "", "/*", "", "" }, { "", "--\n", "", "" },
    };
    auto const& sh = c.pick(shapes);
    int n = c.range(0, 1500);
    std::string text = sh[0];
    for (int i = 0; i < n; ++i) text += sh[1];
    text += sh[2];
    for (int i = 0; i < n; ++i) text += sh[3];
    ctx.label("nesting-over-500", n > 500);
    check(c, ctx, text);
}

} // namespace

int main(int argc, char** argv) {
    pbt::suite s;
    s.property = "C01";
    s.rule = "random bytes, soups of SQL fragments, mutated (token and byte level) documents of the full grammar and deep/long nesting, parsed under random options with ASan+UBSan and internal assertions; non-trivial: a distinct text of 12 bytes or more";
    s.subs.push_back({ "mutated", 24000, 1500000, mutated });
    s.subs.push_back({ "soup", 20000, 1000000, soup });
    s.subs.push_back({ "bytes", 20000, 1000000, bytes });
    s.subs.push_back({ "nesting", 400, 8000, nesting });
    return pbt::run(s, argc, argv);
}
