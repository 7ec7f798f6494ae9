#include <set>
#include "doc_check.h"

using namespace sqlgen;

namespace {

// ---- reference lexer, written from the lexical grammar of the dialect ----
struct lexeme {
    std::size_t b, e;
    bool valid { true };
    std::string code; // expected code if invalid
};

bool sp(unsigned char c) { return c == ' ' || (c >= 9 && c <= 13); }
bool ident_start(unsigned char c) { return c == '_' || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
bool digit(unsigned char c) { return c >= '0' && c <= '9'; }
bool ident_part(unsigned char c) { return ident_start(c) || digit(c); }

std::vector<lexeme> lex(std::string const& s) {
    std::vector<lexeme> r;
    std::size_t i = 0, n = s.size();
    auto at = [&](std::size_t k) -> unsigned char { return k < n ? static_cast<unsigned char>(s[k]) : 0; };
    auto ident_end = [&](std::size_t k) { while (k < n && ident_part(at(k))) ++k; return k; };
    auto digits_end = [&](std::size_t k) { while (k < n && digit(at(k))) ++k; return k; };
    // end of a quoted string that starts at k, or 0; the longest closed one if the last quote is not closed
    auto quoted_end = [&](std::size_t k) -> std::size_t {
        std::size_t last = 0;
        for (std::size_t j = k + 1; j < n; ++j) {
            if (s[j] == '\'') {
                if (j + 1 < n && s[j + 1] == '\'') { last = j + 1; ++j; continue; }
                return j + 1;
            }
        }
        return last;
    };
    auto delimited_end = [&](std::size_t k) -> std::size_t {
        std::size_t last = 0;
        for (std::size_t j = k + 1; j < n; ++j) {
            unsigned char c = at(j);
            if (c == '"') {
                if (j + 1 < n && s[j + 1] == '"') {
                    if (j > k + 1) last = j + 1;
                    ++j;
                    continue;
                }
                return j > k + 1 ? j + 1 : 0;
            }
            if (c < 0x20 || c == 0x7f) return last;
        }
        return last;
    };
    auto word = [&](std::size_t k, std::size_t e, char const* w) { return upper(s.substr(k, e - k)) == w; };
    while (true) {
        while (i < n && sp(at(i))) ++i;
        if (i >= n) return r;
        unsigned char c = at(i);
        if (c == '-' && at(i + 1) == '-') {
            while (i < n && s[i] != '\n') ++i;
            continue;
        }
        if (c == '/' && at(i + 1) == '*') {
            auto q = s.find("*/", i + 2);
            if (q == std::string::npos) {
                r.push_back({ i, i + 2, false, "unexpected_eof" });
                return r;
            }
            i = q + 2;
            continue;
        }
        lexeme t { i, i + 1 };
        if (ident_start(c)) {
            t.e = ident_end(i);
            if ((c == 'x' || c == 'X') && at(i + 1) == '\'') {
                if (auto q = quoted_end(i + 1)) t.e = q;
            } else if (word(i, t.e, "UNION") || word(i, t.e, "OUTER")) {
                auto k = t.e;
                while (k < n && sp(at(k))) ++k;
                auto e2 = ident_end(k);
                // note: phrases are matched by letters only
                if (k > t.e && k + 4 <= n && word(i, t.e, "UNION") && e2 >= k + 4 && upper(s.substr(k, 4)) == "JOIN") t.e = k + 4;
                if (k > t.e && k + 5 <= n && word(i, t.e, "OUTER") && e2 >= k + 5 && upper(s.substr(k, 5)) == "APPLY") t.e = k + 5;
            } else if (t.e - i >= 2 && c == '_' && at(i + 1) == '_') {
                t.valid = false;
                t.code = "invalid_token";
            }
        } else if (digit(c)) {
            t.e = digits_end(i);
            if (at(t.e) == '.' && digit(at(t.e + 1))) t.e = digits_end(t.e + 1);
            if (at(t.e) == 'e' || at(t.e) == 'E') {
                auto k = t.e + 1;
                if (at(k) == '+' || at(k) == '-') ++k;
                if (digit(at(k))) t.e = digits_end(k);
            }
        } else if (c == '\'') {
            if (auto q = quoted_end(i)) t.e = q;
            else { t.valid = false; t.code = "unexpected_token"; }
        } else if (c == '"') {
            if (auto q = delimited_end(i)) {
                t.e = q;
                if (at(i + 1) == '_' && at(i + 2) == '_') {
                    t.valid = false;
                    t.code = "invalid_token";
                }
            } else { t.valid = false; t.code = "invalid_character"; }
        } else if (c == ':' && ident_start(at(i + 1))) {
            t.e = ident_end(i + 1);
        } else if (c == '.') {
            auto k = i + 1;
            while (k < n && sp(at(k))) ++k;
            if (at(k) == '*') t.e = k + 1;
        } else {
            static std::vector<std::string> const two { "<>", "!=", ">=", "<=", "||", "->", "::", "<@", "@>", "&&" };
            static std::string const one = "%&()*+,-/:;<=>?[]^|{}";
            auto p = s.substr(i, 2);
            if (std::find(two.begin(), two.end(), p) != two.end()) t.e = i + 2;
            else if (one.find(static_cast<char>(c)) == std::string::npos) {
                t.valid = false;
                t.code = "invalid_character";
                // the whole character is blamed
                auto cont = [&](std::size_t k) { return (at(k) & 0xC0U) == 0x80U && k < n; };
                if (c >= 0xc2 && c <= 0xdf && cont(i + 1)) t.e = i + 2;
                else if (c >= 0xe0 && c <= 0xef && cont(i + 1) && cont(i + 2)) t.e = i + 3;
                else if (c >= 0xf0 && c <= 0xf4 && cont(i + 1) && cont(i + 2) && cont(i + 3)) t.e = i + 4;
            }
        }
        r.push_back(t);
        i = t.e;
    }
}

std::string bytes(std::string const& s) {
    std::string o;
    for (unsigned char ch : s) {
        if (ch >= 0x20 && ch < 0x7f) o += static_cast<char>(ch);
        else { char b[8]; snprintf(b, sizeof b, "\\x%02x", ch); o += b; }
    }
    return o;
}

long index_of(std::vector<lexeme> const& l, std::size_t offset) {
    for (std::size_t i = 0; i < l.size(); ++i) if (l[i].b == offset) return static_cast<long>(i);
    return -1;
}

void munch(pbt::source& c, pbt::context& ctx) {
    static std::vector<std::string> const parts { "a", "x", "X", "_", "__", "1", "0", "12", ".", "e", "E", "+", "-", "*", "/", "'", "''", "\"", "\"\"", ":", "::", "<", ">", "=", "!", "|", "&", "@",
        "(", ")", ",", ";", "?", "[", "]", "^", "%", " ", " ", "\n", "\t", "\r", "\v", "\f", "--", "/*", "*/", "union", "join", "outer", "apply", "SELECT", "FROM", "AS", "a b", "'a'", "x'0'", "\"a\"",
        "1.5", "1e5", "#", "$", "\\", "`", "~", "{", "}", std::string("\0", 1), "\x01", "\x1f", "\x7f", "\x80", "\xc3\xa9", "\xe3\x81\x82", "\xf0\x9f\x98\x80", "\xff" };
    std::string s;
    int start = c.range(0, 3);
    if (start == 1) s = "SELECT ";
    if (start == 2) s = "SELECT a FROM t WHERE a ";
    if (start == 3) s = "SELECT a,";
    int n = c.range(1, 12);
    bool rare = c.chance(1, 3);
    for (int i = 0; i < n; ++i) {
        s += rare ? c.pick(parts) : parts[c.draw(60)];
    }
    ctx.show(bytes(s));
    auto ls = lex(s);
    sql_parser p;
    auto r = p("-", s);
    // the same tokens, each separated by a space
    std::string t;
    std::vector<lexeme> lt;
    std::size_t limit = 0;
    bool invalid = false, joins = false;
    for (auto& l : ls) {
        if (!l.valid) { invalid = true; break; }
        // "UNION JOIN", "OUTER APPLY" and ". *" are single tokens if only spaces are between them
        if (!t.empty()) t += joins ? " /**/ " : " ";
        auto last = upper(s.substr(l.b, l.e - l.b));
        joins = last == "." || last == "UNION" || last == "OUTER";
        auto b = t.size();
        t += s.substr(l.b, l.e - l.b);
        lt.push_back({ b, t.size() });
        ++limit;
    }
    if (invalid) {
        t += " $";
        lt.push_back({ t.size() - 1, t.size() });
    }
    auto u = p("-", t);
    std::string both = bytes(t) + "\n";
    if (r.has_value()) {
        ctx.require(!invalid, "accepted-invalid", "accepted though it has an invalid token at " + (invalid ? std::to_string(ls[limit].b) : ""));
        ctx.require(u.has_value(), "separated", both + (u.has_value() ? "" : diag_text(u)));
        auto x = jv_of(*r.value()), y = jv_of(*u.value());
        auto diff = jv_diff(*y.find("statements"), *x.find("statements"), false, "statements");
        ctx.require(diff.empty(), "tree", both + diff);
        ctx.label("accepted");
    } else {
        auto rb = r.diagnostic().region().begin;
        bool eof = r.diagnostic().code() == sql_parser_code::unexpected_eof && rb >= (ls.empty() ? 0 : ls.back().e) && !invalid;
        long k = eof ? static_cast<long>(ls.size()) : index_of(ls, rb);
        if (invalid && k == static_cast<long>(limit)) {
            ctx.require(code_text(r.diagnostic().code()) == ls[limit].code, "invalid-code", "expected " + ls[limit].code + ", but was " + diag_text(r));
            ctx.require(r.diagnostic().region().end == ls[limit].e, "invalid-region", diag_text(r) + ", expected end " + std::to_string(ls[limit].e));
            ctx.label("invalid-" + ls[limit].code);
        } else {
            ctx.label("syntax-error");
        }
        ctx.require(k >= 0 && (!invalid || k <= static_cast<long>(limit)), "location", "not at a token, or after an invalid token: " + diag_text(r));
        ctx.require(!u.has_value(), "separated", both + "rejected only when tokens are adjacent: " + diag_text(r));
        auto ub = u.diagnostic().region().begin;
        bool ueof = u.diagnostic().code() == sql_parser_code::unexpected_eof && ub >= t.size();
        long k2 = ueof ? static_cast<long>(ls.size()) : index_of(lt, ub);
        ctx.require(k == k2, "location", both + diag_text(r) + " / " + diag_text(u));
        if (!eof && k < static_cast<long>(limit)) {
            ctx.require(r.diagnostic().region().end == ls[static_cast<std::size_t>(k)].e, "region", diag_text(r));
            ctx.require(r.diagnostic().code() == u.diagnostic().code(), "code", both + diag_text(r) + " / " + diag_text(u));
        }
    }
    if (ls.size() >= 4) ctx.nontrivial(s);
}

// a literal or an identifier is kept exactly
void fidelity(pbt::source& c, pbt::context& ctx) {
    std::string token;
    jv expect;
    auto content = [&](bool control, bool nul) {
        std::string s;
        int n = c.chance(1, 10) ? c.range(0, 300) : c.range(0, 8);
        for (int i = 0; i < n; ++i) {
            unsigned v = c.flip() ? 0x20 + c.draw(0x5f) : c.draw(256);
            if (v == 0 && !nul) v = 'a';
            if (!control && (v < 0x20 || v == 0x7f)) v = 'b';
            s += static_cast<char>(v);
        }
        return s;
    };
    auto escape = [](std::string const& s, char q) {
        std::string o;
        for (char ch : s) { o += ch; if (ch == q) o += ch; }
        return o;
    };
    auto digits = [&](int max) {
        std::string s;
        int n = c.chance(1, 12) ? c.range(1, 60) : c.range(1, max);
        for (int i = 0; i < n; ++i) s += static_cast<char>('0' + c.draw(10));
        return s;
    };
    auto literal = [&](std::string const& kind, std::string const& value) {
        return jv::obj("literal_expression").set("value", jv::obj(kind).set("value", jv::str(value)).set("concatenations", jv::arr()));
    };
    auto variable = [&](std::string const& id, std::string const& kind) {
        return jv::obj("variable_reference").set("name", jv::obj("simple").set("identifier", jv::str(id)).set("identifier_kind", jv::str(kind)));
    };
    bool ident = false;
    int kind = c.range(0, 7);
    switch (kind) {
        case 0: { // regular identifier
            static std::string const start = "abcxyzABCXYZ_", part = start + "0123456789";
            token += start[c.draw(static_cast<std::uint32_t>(start.size()))];
            int n = c.chance(1, 10) ? c.range(0, 200) : c.range(token == "_" ? 1 : 0, 8);
            for (int i = 0; i < n; ++i) token += part[c.draw(static_cast<std::uint32_t>(part.size()))];
            if (token == "_") token += "1";
            if (token.size() >= 2 && token[0] == '_' && token[1] == '_') token[1] = 'u';
            static std::set<std::string> const res = [] { std::set<std::string> r; for (auto& w : reserved_words()) r.insert(w); return r; }();
            if (res.count(upper(token))) token += "_";
            expect = variable(token, "regular");
            ident = true;
            break;
        }
        case 1: {
            auto s = content(false, false);
            if (s.empty()) s = " ";
            if (s.size() >= 2 && s[0] == '_' && s[1] == '_') s[0] = 'd';
            token = "\"" + escape(s, '"') + "\"";
            expect = variable(s, "delimited");
            ident = true;
            break;
        }
        case 2: {
            token = "'" + escape(content(true, true), '\'') + "'";
            expect = literal("character_string", token);
            break;
        }
        case 3: {
            auto s = "'" + escape(content(true, true), '\'') + "'";
            token = (c.flip() ? "x" : "X") + s;
            expect = literal("hex_string", s);
            break;
        }
        case 4: token = digits(6); expect = jv::obj("literal_expression").set("value", jv::obj("exact_numeric").set("unsigned_value", jv::str(token))); break;
        case 5: token = digits(6) + "." + digits(6); expect = jv::obj("literal_expression").set("value", jv::obj("exact_numeric").set("unsigned_value", jv::str(token))); break;
        case 6: {
            token = digits(4) + (c.flip() ? "." + digits(4) : "") + (c.flip() ? "e" : "E") + (c.range(0, 2) == 0 ? "" : c.flip() ? "+" : "-") + digits(3);
            expect = jv::obj("literal_expression").set("value", jv::obj("approximate_numeric").set("unsigned_value", jv::str(token)));
            break;
        }
        default: {
            static std::string const start = "abcxyzABCXYZ_", part = start + "0123456789";
            std::string s;
            s += start[c.draw(static_cast<std::uint32_t>(start.size()))];
            int n = c.range(0, 10);
            for (int i = 0; i < n; ++i) s += part[c.draw(static_cast<std::uint32_t>(part.size()))];
            token = ":" + s;
            expect = jv::obj("host_parameter_reference").set("name", jv::obj("simple").set("identifier", jv::str(token)).set("identifier_kind", jv::str("regular")));
            break;
        }
    }
    (void) ident;
    std::string text = "SELECT " + token + (c.flip() ? "" : ",1");
    ctx.show(bytes(text));
    sql_parser p;
    auto r = p("-", text);
    if (!r.has_value()) ctx.fail("rejected", diag_text(r));
    auto v = jv_of(*r.value());
    auto& got = v.find("statements")->a.at(0);
    auto* e = got.find("expression")->find("elements");
    auto diff = jv_diff(expect, *e->a.at(0).find("value"), false, "value");
    static std::array<char const*, 8> const names { "identifier", "delimited", "string", "hex", "integer", "decimal", "approximate", "host-parameter" };
    ctx.require(diff.empty(), "value", std::string(names[static_cast<std::size_t>(kind)]) + " " + diff);
    ctx.label(names[static_cast<std::size_t>(kind)]);
    ctx.nontrivial(token);
}

// reserved words are not identifiers, any other word is
void words(pbt::source& c, pbt::context& ctx) {
    static std::set<std::string> const res = [] { std::set<std::string> r; for (auto& w : reserved_words()) r.insert(w); return r; }();
    static std::vector<std::string> const res_list(res.begin(), res.end());
    std::string w;
    int kind = c.range(0, 3);
    if (kind == 0) w = c.pick(res_list);
    else if (kind == 1) w = upper(c.pick(contextual_keywords()));
    else {
        // near misses
        w = c.pick(res_list);
        switch (c.range(0, 3)) {
            case 0: w += static_cast<char>('A' + c.draw(26)); break;
            case 1: w.erase(c.draw(static_cast<std::uint32_t>(w.size())), 1); break;
            case 2: w = "_" + w; break;
            default: w[c.draw(static_cast<std::uint32_t>(w.size()))] = static_cast<char>('A' + c.draw(26)); break;
        }
        if (w.empty() || w == "_" || !ident_start(static_cast<unsigned char>(w[0])) || (w.size() > 1 && w[0] == '_' && w[1] == '_')) w = "zz";
    }
    std::string t;
    for (char ch : w) t += c.flip() ? static_cast<char>(std::tolower(ch)) : ch;
    bool ok = res.count(w) == 0;
    static std::vector<std::array<std::string, 2>> const frames {
        { "DROP TABLE ", "" }, { "DROP TABLE a.", "" }, { "CREATE TABLE ", " (a INT)" }, { "CREATE TABLE t (", " INT)" }, { "SELECT a AS ", " FROM t" },
        { "SELECT * FROM t AS ", "" }, { "INSERT INTO t (", ") VALUES (1)" }, { "UPDATE t SET ", " = 1" }, { "CREATE INDEX i ON ", " (a)" }, { "ALTER TABLE a RENAME TO ", "" },
        { "CREATE SEQUENCE ", "" }, { "SELECT * FROM ", "" }, { "DELETE FROM ", "" }, { "SELECT a FROM t JOIN u USING (", ")" }, { "DROP TABLE ", ".a" },
    };
    auto& f = c.pick(frames);
    std::string text = f[0] + t + f[1];
    ctx.show(text);
    sql_parser p;
    auto r = p("-", text);
    if (ok) {
        if (!r.has_value()) ctx.fail("rejected", "not a reserved word: " + diag_text(r));
        auto all = jv_text(jv_of(*r.value()));
        ctx.require(all.find("identifier: '" + t + "'") != std::string::npos, "identifier", all);
        ctx.label(kind == 1 ? "contextual" : "near-miss");
    } else {
        ctx.require(!r.has_value(), "accepted", "a reserved word is accepted as an identifier");
        ctx.require(r.diagnostic().code() == sql_parser_code::unexpected_token || r.diagnostic().code() == sql_parser_code::unexpected_eof, "code", diag_text(r));
        ctx.label("reserved");
    }
    ctx.nontrivial(text);
}

// restricted and malformed identifiers
void restricted(pbt::source& c, pbt::context& ctx) {
    std::string tail;
    int n = c.range(0, 6);
    static std::string const part = "abcxyzABC_0123456789";
    for (int i = 0; i < n; ++i) tail += part[c.draw(static_cast<std::uint32_t>(part.size()))];
    std::string token;
    std::string code;
    switch (c.range(0, 3)) {
        case 0: token = "__" + tail; code = "invalid_token"; break;
        case 1: token = "\"__" + tail + (c.flip() ? " \"\"" : "") + "\""; code = "invalid_token"; break;
        case 2: { // never closed
            bool dq = c.flip();
            token = (dq ? "\"" : "'") + tail;
            code = dq ? "invalid_character" : "unexpected_token";
            break;
        }
        default: {
            token = "\"a" + tail + std::string(1, static_cast<char>(c.flip() ? 0x7f : 1 + c.draw(31))) + "\"";
            code = "invalid_character";
            break;
        }
    }
    std::string prefix = c.flip() ? "SELECT a, " : "SELECT a FROM ";
    std::string text = prefix + token;
    ctx.show(bytes(text));
    sql_parser p;
    auto r = p("-", text);
    ctx.require(!r.has_value(), "accepted", "an invalid token is accepted");
    ctx.require(code_text(r.diagnostic().code()) == code, "code", diag_text(r));
    ctx.require(r.diagnostic().region().begin == prefix.size(), "location", diag_text(r));
    if (code == "invalid_token") ctx.require(r.diagnostic().region().end == text.size(), "location", diag_text(r));
    ctx.label(code);
    ctx.nontrivial(text);
}

} // namespace

int main(int argc, char** argv) {
    pbt::suite s;
    s.property = "C05";
    s.rule = "glued fragments against a reference lexer (and the same tokens separated by spaces), identifiers/literals with arbitrary content, all reserved and contextual words and their near misses in 15 positions, restricted and malformed tokens; non-trivial: a distinct text (of 4 tokens or more for the glued ones)";
    s.subs.push_back({ "munch", 200000, 10000000, munch });
    s.subs.push_back({ "fidelity", 60000, 3000000, fidelity });
    s.subs.push_back({ "words", 60000, 3000000, words });
    s.subs.push_back({ "restricted", 20000, 1000000, restricted });
    return pbt::run(s, argc, argv);
}
