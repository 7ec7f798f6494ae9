#include <set>
#include "doc_check.h"

using namespace sqlgen;

namespace {

// a token of the dialect: its name in messages, and an example
struct vocab_entry { std::string name, text; };

std::vector<vocab_entry> const& vocabulary() {
    static std::vector<vocab_entry> const v = [] {
        std::vector<vocab_entry> r {
            { "<identifier>", "zz9" }, { "<delimited-identifier>", "\"Q q\"" }, { "<unsigned-integer>", "7" }, { "<exact-numeric-literal>", "7.5" },
            { "<approximate-numeric-literal>", "7E1" }, { "<character-string-literal>", "'s'" }, { "<hex-string-literal>", "X'00'" },
            { "<host-parameter-name>", ":h" }, { ". *", ".*" }, { "UNION JOIN", "UNION JOIN" }, { "OUTER APPLY", "OUTER APPLY" },
        };
        for (auto s : { "%", "&", "(", ")", "*", "+", ",", "-", ".", "/", ":", ";", "<", "=", ">", "?", "[", "]", "^", "_", "|", "{", "}", "<>", "!=", ">=", "<=", "||", "->", "::", "<@", "@>", "&&" }) r.push_back({ s, s });
        for (auto& w : reserved_words()) r.push_back({ w, w });
        for (auto& w : contextual_keywords()) r.push_back({ upper(w), upper(w) });
        return r;
    }();
    return v;
}
bool contextual(std::string const& name) {
    static std::set<std::string> const s = [] { std::set<std::string> r; for (auto& w : contextual_keywords()) r.insert(upper(w)); return r; }();
    return s.count(name) != 0;
}

std::string append(std::string const& prefix, std::string const& token) {
    // a comment keeps the scanner from joining the tokens ("UNION JOIN", "OUTER APPLY", ". *")
    return prefix.empty() ? token : prefix + " /**/ " + token;
}

// splits the list of the candidates
bool candidates(std::string const& msg, std::vector<std::string>& out, bool& more) {
    out.clear();
    more = false;
    static std::string const head = "expected one of {";
    auto p = msg.rfind(head);
    if (p == std::string::npos) return false;
    p += head.size();
    auto e = msg.rfind('}');
    if (e == std::string::npos || e < p) return false;
    auto list = msg.substr(p, e - p);
    if (list.empty()) return true;
    std::size_t i = 0;
    while (true) {
        auto q = list.find(", ", i + 1);
        auto item = list.substr(i, q == std::string::npos ? std::string::npos : q - i);
        if (item == "...") more = true;
        else out.push_back(item);
        if (q == std::string::npos) break;
        i = q + 2;
    }
    return true;
}

std::string visible(std::string const& s) { return s.size() > 800 ? "..." + s.substr(s.size() - 800) : s; }

// what may follow the prefix, according to the parser
std::vector<std::string> expected_after(pbt::context& ctx, std::string const& prefix) {
    sql_parser p;
    p.options().max_expected_candidates() = 100000;
    // a lone quote is never a valid token
    auto text = append(prefix, "'");
    auto r = p("-", text);
    if (r.has_value()) ctx.fail("accepted", "accepted with a lone quote: " + visible(text));
    if (r.diagnostic().region().begin != text.size() - 1 || r.diagnostic().region().end != text.size()) {
        ctx.fail("blames-viable-prefix", "a valid prefix, followed by a lone quote: " + diag_text(r));
    }
    if (r.diagnostic().code() != sql_parser_code::unexpected_token) ctx.fail("code", diag_text(r));
    std::vector<std::string> out;
    bool more;
    if (!candidates(r.diagnostic().message(), out, more)) ctx.fail("message", "no candidates: " + diag_text(r));
    if (more) ctx.fail("message", "truncated below the limit: " + diag_text(r));
    std::set<std::string> uniq(out.begin(), out.end());
    if (uniq.size() != out.size()) ctx.fail("message", "duplicated candidates: " + diag_text(r));
    ++ctx.checks;
    return out;
}

bool listed(std::vector<std::string> const& cands, std::string const& name) {
    auto has = [&](std::string const& n) { return std::find(cands.begin(), cands.end(), n) != cands.end(); };
    // names of identifiers stand for any form of identifiers
    return has(name) || (has("<identifier>") && (name == "<delimited-identifier>" || contextual(name)));
}

bool ident_like(std::string const& s) {
    for (char ch : s) if (!word_char(ch)) return false;
    return !s.empty();
}

void check_message(pbt::context& ctx, std::string const& msg, std::string const& head, std::string const& sep, std::size_t limit, std::vector<std::string> const& cands) {
    ++ctx.checks;
    std::string expect = head;
    if (limit > 0) {
        expect += sep + "expected one of {";
        for (std::size_t i = 0; i < cands.size() && i < limit; ++i) expect += (i ? ", " : "") + cands[i];
        if (cands.size() > limit) expect += ", ...";
        expect += "}";
    }
    if (msg != expect) ctx.fail("message", "message: " + msg + "\n  expected: " + expect);
}

void frontier(pbt::source& c, pbt::context& ctx) {
    config conf;
    conf.max_statements = 2;
    document d { c, conf, gap_style::plain };
    auto n = d.lay.span.size();
    auto i = n == 0 ? 0 : c.draw(static_cast<std::uint32_t>(n + 1));
    auto prefix = i == 0 ? std::string {} : d.lay.text.substr(0, d.lay.span[i - 1].second);
    ctx.show(prefix);
    auto cands = expected_after(ctx, prefix);
    // the token which really follows is expected
    if (i < n) {
        auto image = d.lay.text.substr(d.lay.span[i].first, d.lay.span[i].second - d.lay.span[i].first);
        std::string name;
        auto up = upper(image);
        static std::set<std::string> const words = [] { std::set<std::string> r; for (auto& e : vocabulary()) r.insert(e.name); return r; }();
        char ch = image[0];
        auto has = [&](char x) { return image.find(x) != std::string::npos; };
        if (words.count(up)) name = up;
        else if (image.size() >= 2 && (ch == 'x' || ch == 'X') && image[1] == '\'') name = "<hex-string-literal>";
        else if (ch == '\'') name = "<character-string-literal>";
        else if (ch == '"') name = "<delimited-identifier>";
        else if (ch == ':' && image.size() > 1) name = "<host-parameter-name>";
        else if (ch >= '0' && ch <= '9') name = has('e') || has('E') ? "<approximate-numeric-literal>" : has('.') ? "<exact-numeric-literal>" : "<unsigned-integer>";
        else if (ident_like(image)) name = "<identifier>";
        if (name == "*" && !prefix.empty() && prefix.back() == '.') name.clear();
        if (!name.empty()) {
            if (!listed(cands, name)) {
                std::string l;
                for (auto& x : cands) l += x + " ";
                ctx.fail("missing-candidate", "after: " + visible(prefix) + "\n  the next token " + image + " (" + name + ") is not expected: " + l);
            }
            ++ctx.checks;
        }
    } else {
        ctx.require(listed(cands, "<END_OF_FILE>"), "missing-candidate", "end of file");
    }
    // any token: viable if and only if it is expected
    int k = c.range(3, 8);
    for (int t = 0; t < k; ++t) {
        vocab_entry e;
        bool from_list = !cands.empty() && c.flip();
        if (from_list) {
            auto& name = c.pick(cands);
            for (auto& v : vocabulary()) if (v.name == name) e = v;
            if (e.name.empty()) {
                if (name != "<END_OF_FILE>") ctx.fail("unknown-candidate", name);
                e.name = name;
            }
        } else {
            e = c.pick(vocabulary());
        }
        bool expect = listed(cands, e.name);
        sql_parser p;
        auto m = p.options().max_expected_candidates() = c.flip() ? 100000 : c.draw(12);
        auto text = e.name == "<END_OF_FILE>" ? prefix : append(prefix, e.text);
        auto begin = e.name == "<END_OF_FILE>" ? text.size() : text.size() - e.text.size();
        auto r = p("-", text);
        ctx.show(visible(text));
        if (expect) {
            if (!r.has_value() && r.diagnostic().code() == sql_parser_code::unexpected_token) ctx.fail("false-candidate", "expected " + e.name + ", but rejected: " + diag_text(r));
            if (!r.has_value() && e.name == "<END_OF_FILE>") ctx.fail("false-candidate", "the end of file was expected: " + diag_text(r));
            if (!r.has_value() && r.diagnostic().region().begin < begin && r.diagnostic().code() == sql_parser_code::unexpected_eof) ctx.fail("location", diag_text(r));
            ctx.label("viable-token");
            ++ctx.checks;
            continue;
        }
        ctx.label("wrong-token");
        if (r.has_value()) ctx.fail("accepted", "an unexpected token " + e.name + " is accepted");
        auto& g = r.diagnostic();
        if (g.code() != sql_parser_code::unexpected_token) ctx.fail("code", diag_text(r));
        if (g.region().begin != begin || g.region().end != text.size()) ctx.fail("location", "expected at " + std::to_string(begin) + ": " + diag_text(r));
        check_message(ctx, g.message(), "appeared unexpected token: \"" + e.text + "\"", ", ", m, cands);
        // what follows the wrong token does not matter
        auto tail = text;
        int extra = c.range(0, 3);
        for (int x = 0; x < extra; ++x) tail += " /**/ " + c.pick(vocabulary()).text;
        if (extra == 3) tail += " ' $";
        auto u = p("-", tail);
        if (u.has_value()) ctx.fail("accepted", visible(tail));
        auto& h = u.diagnostic();
        if (h.code() != g.code() || h.message() != g.message() || !(h.region() == g.region())) ctx.fail("lookahead", diag_text(r) + "\n / " + diag_text(u) + " for " + visible(tail));
        ++ctx.checks;
    }
    // the end
    if (!listed(cands, "<END_OF_FILE>")) {
        sql_parser p;
        auto m = p.options().max_expected_candidates() = c.draw(12);
        auto text = prefix + (c.flip() ? " \n" : "");
        auto r = p("-", text);
        ctx.show(visible(text));
        if (r.has_value()) ctx.fail("accepted", "an unexpected end of file is accepted");
        if (r.diagnostic().code() != sql_parser_code::unexpected_eof) ctx.fail("code", diag_text(r));
        auto rg = r.diagnostic().region();
        if (rg.begin < prefix.size() || rg.begin > text.size() || rg.end < rg.begin || rg.end > text.size() + 1) ctx.fail("location", diag_text(r));
        check_message(ctx, r.diagnostic().message(), "reached end of file", ": ", m, cands);
        ctx.label("unexpected-end");
    }
    if (i >= 4) ctx.nontrivial(prefix);
}

// constructs which the grammar derives, but are not allowed
void restrictions(pbt::source& c, pbt::context& ctx) {
    config conf;
    conf.max_statements = 1;
    gen g { c, conf };
    if (c.chance(1, 3)) {
        g.statement();
        g.sym(";");
    }
    long tb = -1, te = -1;
    std::string message;
    bool valid = false;
    std::string kind;
    int k = c.range(0, 3);
    if (k == 0) {
        kind = "duplicated-option";
        bool identity = c.flip();
        if (identity) {
            g.kw("CREATE TABLE t ( c INT GENERATED");
            g.kw(c.flip() ? "ALWAYS" : "BY DEFAULT");
            g.kw("AS IDENTITY (");
        } else {
            g.kw("CREATE SEQUENCE");
            g.chain();
        }
        bool seen[7] {};
        static std::array<char const*, 7> const names { "initial_value", "increment_value", "max_value", "min_value", "cycle", "type", "owner" };
        int n = c.range(2, 6);
        for (int i = 0; i < n; ++i) {
            int o = static_cast<int>(c.draw(identity ? 5 : 7));
            bool expression = false;
            long at = g.pos();
            switch (o) {
                case 0: g.kw(c.flip() ? "START WITH" : "START"); expression = true; break;
                case 1: g.kw(c.flip() ? "INCREMENT BY" : "INCREMENT"); expression = true; break;
                case 2:
                case 3: {
                    bool no = c.chance(1, 3);
                    if (no) g.kw("NO");
                    at = g.pos();
                    g.kw(o == 2 ? "MAXVALUE" : "MINVALUE");
                    expression = !no;
                    break;
                }
                case 4: if (c.flip()) g.kw("NO"); at = g.pos(); g.kw("CYCLE"); break;
                case 5: g.kw("AS"); g.type(); break;
                default: g.kw("OWNED"); at = g.pos(); g.kw("BY"); g.chain(); break;
            }
            if (expression) g.scalar(0);
            if (seen[o] && tb < 0) {
                tb = at;
                te = at + 1;
                message = std::string("duplicate declaration of ") + names[static_cast<std::size_t>(o)];
            }
            seen[o] = true;
        }
        if (identity) g.kw(") )");
        valid = tb < 0;
    } else if (k == 1) {
        kind = "with-in-operand";
        int where = c.range(0, 2);
        if (where == 1) { g.kw("SELECT a FROM t"); g.kw(c.flip() ? "UNION" : c.flip() ? "EXCEPT" : "INTERSECT"); if (c.flip()) g.kw("ALL"); }
        if (where == 2) { g.kw("SELECT a FROM t WHERE EXISTS ("); }
        g.sym("(");
        tb = g.pos();
        g.kw("WITH");
        if (c.flip()) g.kw("RECURSIVE");
        g.identifier();
        g.kw("AS ( SELECT 1 FROM t )");
        g.query_body(0, false);
        te = g.pos();
        g.sym(")");
        if (where != 1) { g.kw(c.flip() ? "UNION" : c.flip() ? "EXCEPT" : "INTERSECT"); g.kw("SELECT 1 FROM t"); }
        if (where == 2) g.sym(")");
        message = "common table expressions declaration (WITH ...) is not allowed in query operand";
    } else if (k == 2) {
        kind = "static-method-qualifier";
        g.kw("SELECT");
        if (c.flip()) { g.scalar(0); g.sym(","); }
        tb = g.pos();
        switch (c.range(0, 4)) {
            case 0: g.toks.push_back({ "1", tk::number }); break;
            case 1: g.toks.push_back({ "'abc'", tk::string_ }); break;
            case 2: g.kw("f ( 1 )"); break;
            case 3: g.kw("CURRENT_DATE"); break;
            default: g.kw("( SELECT 1 FROM t )"); break;
        }
        te = g.pos();
        g.sym("::");
        g.kw("m (");
        if (c.flip()) g.scalar(0);
        g.sym(")");
        message = "qualifier of static method invocation must be a type";
    } else {
        kind = "size";
        static std::vector<std::string> const sizes { "0", "1", "4294967295", "4294967296", "9223372036854775807", "9223372036854775808", "18446744073709551614", "18446744073709551615", "18446744073709551616",
            "99999999999999999999", "00000000000000000000000000000007", "100000000000000000000000000000000" };
        static std::vector<std::string> const types { "CHAR (", "VARCHAR (", "CHARACTER VARYING (", "DECIMAL (", "DECIMAL ( 5 ,", "BINARY (", "VARBINARY (", "FLOAT (", "INT (" };
        auto sz = c.pick(sizes);
        auto ty = c.pick(types);
        g.kw("SELECT CAST ( a AS");
        g.kw(ty);
        long at = g.pos();
        g.toks.push_back({ sz, tk::number });
        g.kw(") )");
        auto digits = sz.substr(std::min(sz.find_first_not_of('0'), sz.size()));
        // the largest number is reserved for the flexible length
        bool over = digits.size() > 20 || (digits.size() == 20 && digits >= "18446744073709551615");
        if (over) {
            tb = at;
            te = at + 1;
            message = "the size is out of range";
        } else {
            valid = true;
        }
    }
    // whatever follows the construct
    if (!valid && c.flip()) {
        g.sym(";");
        g.statement();
    }
    auto lay = layouter { c, c.flip() ? gap_style::plain : gap_style::random, false }(g.toks);
    ctx.show(lay.text);
    sql_parser p;
    auto r = p("-", lay.text);
    if (valid) {
        if (!r.has_value()) ctx.fail("rejected", diag_text(r));
        if (k == 3) {
            // the size is kept
            auto text = jv_text(jv_of(*r.value()));
            auto sz = g.toks[g.toks.size() - 3].text;
            auto digits = sz.substr(std::min(sz.find_first_not_of('0'), sz.size() - 1));
            if (text.find(": " + digits) == std::string::npos) ctx.fail("size", "expected " + digits + " in " + text);
        }
        ctx.label("valid-" + kind);
        return;
    }
    if (r.has_value()) ctx.fail("accepted", kind + ": " + message);
    auto b = lay.span[static_cast<std::size_t>(tb)].first;
    auto e = lay.span[static_cast<std::size_t>(te) - 1].second;
    if (r.diagnostic().code() != sql_parser_code::syntax_error || r.diagnostic().message() != message || r.diagnostic().region().begin != b || r.diagnostic().region().end != e) {
        ctx.fail("diagnostic", "expected syntax_error: " + message + " at " + std::to_string(b) + "-" + std::to_string(e) + ", but was " + diag_text(r));
    }
    ctx.label(kind);
    ctx.nontrivial(lay.text);
}

} // namespace

int main(int argc, char** argv) {
    pbt::suite s;
    s.property = "C10";
    s.rule = "prefixes of generated documents, cut at every kind of place, each followed by expected and unexpected tokens drawn from the whole vocabulary (and by arbitrary tokens after those): listed tokens must be viable, others must be blamed exactly, with the same candidates; non-trivial: a distinct prefix of 4 tokens or more";
    s.subs.push_back({ "frontier", 30000, 2000000, frontier });
    s.subs.push_back({ "restrictions", 20000, 1000000, restrictions });
    return pbt::run(s, argc, argv);
}
