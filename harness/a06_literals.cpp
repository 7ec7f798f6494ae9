// A06: literals denote exactly the value which is written, as the type which the options and the context ask for.
#include "tygen.h"
using namespace tg;
namespace {
struct lit {
    std::string sql, value, type; // as printed; value is empty if it is compared by `check`
    std::optional<sql_analyzer_code> code {};
    std::function<bool(tvalue::data const&)> check {};
    bool null {}; // takes the type of the context
    std::string why {};
};
struct config { std::size_t precision { 38 }; bool small_int {}, small_char {}, small_dec {}, small_bin {}, null_ok {}, cast { true }; int offset {}; };
struct gen {
    pbt::source& c; config f;
    std::string digits(std::size_t n) { std::string r; for (std::size_t i = 0; i < n; ++i) r += static_cast<char>('0' + (c.chance(1, 3) ? 0 : c.draw(10))); return r; }
    std::string sep() { static std::vector<std::string> const p { "", "", " ", " /* */ ", "\n" }; return c.pick(p); }
    lit exact() {
        lit r;
        std::string ip, fp; bool dot = false;
        static std::vector<std::string> const edges { "0", "1", "127", "128", "129", "32767", "32768", "32769", "2147483647", "2147483648", "2147483649", "9223372036854775807", "9223372036854775808", "9223372036854775809", "18446744073709551615", "18446744073709551616",
            "99999999999999999999999999999999999999", "100000000000000000000000000000000000000", "170141183460469231731687303715884105728", "10", "100", "255", "256", "65536" };
        if (c.flip()) ip = c.pick(edges); else ip = digits(1 + c.size(45));
        if (c.chance(1, 8)) ip = std::string(1 + c.draw(3), '0') + ip;
        if (c.chance(1, 3)) { dot = true; fp = digits(1 + c.size(45)); if (c.chance(1, 6)) fp = std::string(1 + c.draw(42), '0'); }
        auto text = ip + (dot ? "." : "") + fp;
        int sign = c.weighted({ 4, 1, 3 });
        r.sql = (sign == 1 ? "+" + sep() : sign == 2 ? "-" + sep() : "") + text;
        if (sign == 2 && r.sql.rfind("--", 0) == 0) r.sql = "- " + text;
        auto coef = ip + fp; coef.erase(0, std::min(coef.find_first_not_of('0'), coef.size()));
        auto scale = fp.size();
        if (coef.size() > f.precision || scale > f.precision) { r.code = sql_analyzer_code::unsupported_decimal_value; return r; }
        bool neg = sign == 2 && !coef.empty();
        unsigned __int128 n = 0; for (char x : coef) n = n * 10 + static_cast<unsigned>(x - '0');
        if (scale == 0) {
            auto lim = (static_cast<unsigned __int128>(1) << 63);
            if (n < lim || (neg && n == lim)) {
                auto v = neg ? static_cast<std::int64_t>(0 - static_cast<std::uint64_t>(n)) : static_cast<std::int64_t>(n);
                r.type = "int8()"; r.value = "int8(" + std::to_string(v) + ")";
                if (f.small_int && v >= -2147483648LL && v <= 2147483647LL) {
                    r.value = "int4(" + std::to_string(v) + ")";
                    r.type = v >= -128 && v <= 127 ? "int1()" : v >= -32768 && v <= 32767 ? "int2()" : "int4()";
                }
                return r;
            }
        }
        auto prec = f.small_dec ? number(std::max(std::max<std::size_t>(coef.size(), 1), scale)) : std::string { "*" };
        r.type = "decimal(" + prec + "," + number(scale) + ")";
        r.check = [n, neg, scale](tvalue::data const& d) {
            if (d.kind() != tvalue::value_kind::decimal) return false;
            auto t = static_cast<tvalue::decimal const&>(d).get();
            auto m = (static_cast<unsigned __int128>(t.coefficient_high()) << 64) | t.coefficient_low();
            return m == n && t.exponent() == -static_cast<int>(scale) && t.sign() == (n == 0 ? 0 : neg ? -1 : 1);
        };
        return r;
    }
    lit approx() {
        lit r;
        std::string m = digits(1 + c.size(20)); if (c.flip()) m += "." + digits(1 + c.size(20));
        std::string e = c.pick(std::vector<std::string> { "0", "1", "2", "10", "300", "307", "308", "309", "310", "320", "323", "324", "325", "22", "23", "400", "99999" });
        int es = c.draw(3);
        auto text = m + (c.flip() ? "E" : "e") + (es == 0 ? "" : es == 1 ? "+" : "-") + e;
        int sign = c.weighted({ 4, 1, 3 });
        r.sql = (sign == 1 ? "+" + sep() : sign == 2 ? "- " : "") + text;
        errno = 0;
        auto v = std::strtod(text.c_str(), nullptr);
        if (errno == ERANGE) { r.code = sql_analyzer_code::unsupported_approximate_number; return r; }
        if (sign == 2) v = -v;
        r.type = "float8()";
        r.check = [v](tvalue::data const& d) { if (d.kind() != tvalue::value_kind::float8) return false; auto x = static_cast<tvalue::float8 const&>(d).get(); return std::memcmp(&x, &v, sizeof v) == 0; };
        return r;
    }
    std::string chars(std::string& raw) {
        static std::vector<std::string> const p { "a", "B", "''", " ", "\"", "%", "\\", "--", "/*", "\n", "\xe3\x81\x82", "0", ";", "\t", "''''" };
        std::string t;
        for (auto n = c.size(8); n > 0; --n) { auto& x = c.pick(p); t += x; if (x == "''") raw += "'"; else if (x == "''''") raw += "''"; else raw += x; }
        return "'" + t + "'";
    }
    lit text() {
        lit r; std::string raw;
        r.sql = chars(raw);
        for (int n = c.weighted({ 3, 1, 1 }); n > 0; --n) r.sql += c.pick(std::vector<std::string> { "\n", " ", " /* */\n", "\n-- x\n", "\t" }) + chars(raw);
        r.type = "character varying(" + (f.small_char ? number(raw.size()) : "*") + ")";
        r.check = [raw](tvalue::data const& d) { return d.kind() == tvalue::value_kind::character && static_cast<tvalue::character const&>(d).get() == raw; };
        return r;
    }
    lit binary() {
        lit r; std::string raw; bool odd = false;
        auto one = [&] {
            std::string s = "'"; std::size_t k = 0;
            for (auto n = c.size(6); n > 0; --n) {
                auto b = c.draw(256);
                char buf[3]; std::snprintf(buf, sizeof buf, c.flip() ? "%02x" : "%02X", b);
                raw += static_cast<char>(b);
                if (c.chance(1, 5)) s += " ";
                s += buf; ++k;
            }
            if (c.chance(1, 5)) s += " ";
            if (c.chance(1, 12)) { s += c.pick(std::vector<std::string> { "0", "f", "A" }); odd = true; }
            return s + "'";
        };
        r.sql = (c.flip() ? "X" : "x") + one();
        for (int n = c.weighted({ 4, 1, 1 }); n > 0; --n) r.sql += c.pick(std::vector<std::string> { "\n", " ", "\n-- x\n" }) + one();
        if (odd) { r.code = sql_analyzer_code::malformed_quoted_string; return r; }
        r.type = "octet varying(" + number(raw.size()) + ")";
        r.check = [raw](tvalue::data const& d) { return d.kind() == tvalue::value_kind::octet && static_cast<tvalue::octet const&>(d).get() == raw; };
        return r;
    }
    lit temporal() {
        lit r;
        auto two = [](int n) { char b[16]; std::snprintf(b, sizeof b, "%02d", n); return std::string { b }; };
        int y = c.flip() ? c.range(1970, 2030) : c.range(1, 9999), m = c.range(1, 12), d = c.range(1, 28);
        if (c.chance(1, 5)) { y = c.pick(std::vector<int> { 1999, 2000, 2004, 1900 }); m = 2; d = c.range(27, 29); }
        if (c.chance(1, 15)) { m = c.pick(std::vector<int> { 0, 13, 12 }); d = c.pick(std::vector<int> { 0, 32, 31 }); }
        int h = c.range(0, 23), mi = c.range(0, 59), s = c.range(0, 59);
        bool bad_time = false;
        if (c.chance(1, 15)) { (c.flip() ? h : mi) = 60; bad_time = true; }
        static int const md[] { 31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31 };
        bool leap = y % 4 == 0 && (y % 100 != 0 || y % 400 == 0);
        bool bad_date = m < 1 || m > 12 || d < 1 || d > md[m - 1] + (m == 2 && leap ? 1 : 0);
        char yb[16]; std::snprintf(yb, sizeof yb, "%04d", y);
        auto date = std::string { yb } + "-" + two(m) + "-" + two(d);
        std::uint64_t ns = 0; std::string frac;
        if (c.flip()) { frac = digits(1 + c.draw(9)); auto x = frac; x.resize(9, '0'); ns = std::stoull(x); }
        auto time = two(h) + ":" + two(mi) + ":" + two(s) + (frac.empty() ? "" : "." + frac);
        // days by counting
        std::int64_t days = 0;
        if (!bad_date) {
            for (int k = 1970; k < y; ++k) days += 365 + (k % 4 == 0 && (k % 100 != 0 || k % 400 == 0));
            for (int k = y; k < 1970; ++k) days -= 365 + (k % 4 == 0 && (k % 100 != 0 || k % 400 == 0));
            for (int k = 1; k < m; ++k) days += md[k - 1] + (k == 2 && leap ? 1 : 0);
            days += d - 1;
        }
        std::int64_t sec = (h * 60 + mi) * 60 + s;
        auto bad = [&](bool b) { if (b) r.code = sql_analyzer_code::unsupported_string_value; };
        switch (c.draw(5)) {
            case 0: r.sql = "DATE '" + date + "'"; bad(bad_date); r.type = "date()"; r.value = "date(day:" + std::to_string(days) + ")"; break;
            case 1: r.sql = "TIME '" + time + "'"; bad(bad_time); r.type = "time_of_day()"; r.value = "time_of_day(ns:" + std::to_string(static_cast<std::uint64_t>(sec) * 1000000000ull + ns) + ")"; break;
            case 2: r.sql = "TIME WITH TIME ZONE '" + time + "'"; r.code = sql_analyzer_code::unsupported_feature; break;
            default: {
                int z = c.draw(3); // of the keyword: none, without, with
                bool with = z == 2;
                std::string off; std::int64_t om = 0;
                if (c.chance(1, with ? 2 : 5)) {
                    int oh = c.range(0, 13), mm = c.range(0, 59); bool plus = c.flip();
                    if (c.chance(1, 5)) { off = "Z"; om = 0; }
                    else { off = std::string { plus ? "+" : "-" } + two(oh) + ":" + two(mm); om = (oh * 60 + mm) * (plus ? 1 : -1); }
                } else if (with) om = f.offset;
                r.sql = std::string { "TIMESTAMP " } + (z == 0 ? "" : z == 1 ? "WITHOUT TIME ZONE " : "WITH TIME ZONE ") + "'" + date + " " + time + off + "'";
                bad(bad_date || bad_time || (!with && !off.empty()));
                auto t = days * 86400 + sec - (with ? om * 60 : 0);
                r.type = with ? "time_point(with_time_zone)" : "time_point()";
                r.value = "time_point(sec:" + std::to_string(t) + "." + std::to_string(ns) + ")";
            }
        }
        return r;
    }
    lit other() {
        lit r;
        auto word = [&](std::string s) { if (c.flip()) for (auto& x : s) if (c.flip()) x = static_cast<char>(std::tolower(x)); return s; };
        switch (c.draw(6)) {
            case 0: r.sql = word("TRUE"); r.type = "boolean()"; r.value = "true"; break;
            case 1: r.sql = word("FALSE"); r.type = "boolean()"; r.value = "false"; break;
            case 2: r.sql = word("UNKNOWN"); r.type = "boolean()"; r.value = "null"; break;
            case 3: r.sql = "INTERVAL '1'"; r.code = sql_analyzer_code::unsupported_feature; break;
            default: r.sql = word("NULL"); r.null = true; r.value = "null"; break;
        }
        return r;
    }
    lit any() {
        switch (c.weighted({ 8, 4, 4, 3, 4, 2 })) {
            case 0: return exact(); case 1: return approx(); case 2: return text(); case 3: return binary(); case 4: return temporal(); default: return other();
        }
    }
};
void options(config const& f, mana::sql_analyzer_options& o) {
    o.max_decimal_precision() = f.precision; o.prefer_small_integer_literals() = f.small_int; o.prefer_small_character_literals() = f.small_char;
    o.prefer_small_decimal_literals() = f.small_dec; o.prefer_small_binary_literals() = f.small_bin; o.allow_context_independent_null() = f.null_ok; o.cast_literals_in_context() = f.cast;
    o.system_zone_offset() = mana::sql_analyzer_options::zone_offset_type { f.offset };
}
void run(pbt::source& c, pbt::context& ctx, bool typed) {
    config f;
    if (c.flip()) f.precision = 1 + c.draw(38);
    f.small_int = c.flip(); f.small_char = c.flip(); f.small_dec = c.flip(); f.small_bin = c.flip(); f.null_ok = c.flip(); f.cast = !c.chance(1, 3);
    if (c.flip()) f.offset = c.range(-720, 720);
    gen g { c, f };
    auto l = g.any();
    fixture fx; fx.add_schema("main");
    std::string head, tail, expect_context;
    std::shared_ptr<ttype::data const> context;
    std::size_t ncols = 1, at = 0, row = 0, position = 0, branch = 0; int form = 0; bool wrapped = false;
    if (typed) {
        static std::vector<std::shared_ptr<ttype::data const>> const ts { shared_type(ttype::int4 {}), shared_type(ttype::int8 {}), shared_type(ttype::int1 {}), shared_type(ttype::float8 {}), shared_type(ttype::decimal { 10, 2 }), shared_type(ttype::decimal { std::nullopt, 0 }),
            shared_type(ttype::character { ttype::varying }), shared_type(ttype::character { ttype::varying, 3 }), shared_type(ttype::octet { ttype::varying }), shared_type(ttype::boolean {}), shared_type(ttype::date {}), shared_type(ttype::time_of_day {}), shared_type(ttype::time_point {}) };
        context = c.pick(ts);
        // the literal is for the column `at` of the statement
        ncols = c.chance(1, 2) ? 1 : static_cast<std::size_t>(c.range(2, 4));
        at = c.draw(static_cast<std::uint32_t>(ncols));
        form = c.weighted({ 4, 3, 2, 2, f.cast ? 2 : 0 });
        ::takatori::util::reference_vector<ystor::column> cols;
        auto nullable = ::yugawara::variable::criteria { ::yugawara::variable::nullable };
        cols.push_back(std::make_unique<ystor::column>("k", shared_type(ttype::int8 {}), nullable));
        for (std::size_t i = 0; i < ncols; ++i) cols.push_back(std::make_unique<ystor::column>("c" + std::to_string(i), i == at ? context : c.pick(ts), nullable));
        auto t = fx.schemas[0]->storages->add_table(std::make_shared<ystor::table>(std::nullopt, "t", std::move(cols)));
        std::vector<ystor::index::key> keys; keys.emplace_back(t->columns()[0]);
        fx.schemas[0]->storages->add_index(std::make_shared<ystor::index>(std::nullopt, t, "t", std::move(keys), std::vector<ystor::index::column_ref> {}, ystor::index_feature_set { ystor::index_feature::primary }));
        if (form == 3) {
            // UPDATE
            head = "UPDATE t SET ";
            for (std::size_t i = 0; i < ncols; ++i) if (i != at) { auto s = "c" + std::to_string(i) + " = NULL"; (i < at ? head : tail) += i < at ? s + ", " : ", " + s; }
            head += "c" + std::to_string(at) + " = ";
            if (c.flip()) tail += " WHERE k = 1";
        } else {
            // the columns in the order of the statement: the number of rows, the row of the literal, and where it is there
            std::vector<std::size_t> order; for (std::size_t i = 0; i < ncols; ++i) order.push_back(i);
            bool all = c.chance(1, 4);
            if (!all) for (std::size_t i = ncols; i > 1; --i) std::swap(order[i - 1], order[c.draw(static_cast<std::uint32_t>(i))]);
            head = "INSERT INTO t";
            if (!all) { head += " ("; for (std::size_t i = 0; i < ncols; ++i) head += (i ? ", c" : "c") + std::to_string(order[i]); head += ")"; }
            head += " VALUES ";
            auto rows = f.cast ? static_cast<std::size_t>(c.weighted({ 3, 2, 1, 1 })) + 1 : std::size_t { 1 }; // otherwise rows may be inconsistent
            row = c.draw(static_cast<std::uint32_t>(rows));
            std::string* s = &head;
            for (std::size_t r = 0; r < rows; ++r) {
                *s += r ? ", (" : "(";
                bool first = true;
                if (all) { *s += "NULL"; first = false; }
                for (std::size_t i = 0; i < ncols; ++i) {
                    if (!first) *s += ", ";
                    first = false;
                    if (r == row && order[i] == at) { position = i + (all ? 1 : 0); s = &tail; } else *s += "NULL";
                }
                *s += ")";
            }
            if (form == 4) {
                // a branch of CASE
                auto n = static_cast<std::size_t>(c.range(1, 3)); branch = c.draw(static_cast<std::uint32_t>(n) + 1);
                std::string before = c.flip() ? "CASE" : "CASE 1", after;
                bool simple = before.size() > 4;
                for (std::size_t i = 0; i < n; ++i) { auto& w = i <= branch ? before : after; w += simple ? " WHEN 2 THEN " : " WHEN 2 < 1 THEN "; if (i < branch) before += "NULL"; if (i > branch) after += "NULL"; if (i == branch) after = ""; }
                if (branch == n) before += " ELSE "; else if (c.flip()) after += " ELSE NULL";
                head += before; tail = after + " END" + tail; wrapped = simple;
            }
        }
    } else {
        switch (c.draw(3)) {
            case 0: head = "VALUES ("; tail = ")"; break;
            case 1: head = "VALUES (("; tail = "))"; break;
            default: head = "VALUES (1, "; tail = ", 'x')"; break;
        }
    }
    auto sql = head + l.sql + tail;
    if (l.null) {
        if (typed) l.type = str(*context);
        else if (f.null_ok) l.type = str(ttype::unknown {});
        else l.code = sql_analyzer_code::missing_context_of_null;
    }
    ctx.show(sql + "\n-- " + (l.code ? str(*l.code) : l.value + " " + l.type) + (typed ? ", for " + str(*context) : "") + "\n-- precision " + number(f.precision) + (f.small_int ? " small integers" : "") + (f.small_dec ? " small decimals" : "") + (f.small_char ? " small characters" : "")
        + (f.null_ok ? " nulls" : "") + (f.cast ? "" : " without cast") + " offset " + std::to_string(f.offset) + "\n");
    auto opt = fx.options();
    options(f, opt);
    bool prefer = !typed || c.flip();
    opt.prefer_write_statement() = prefer;
    session ss { sql };
    ctx.require(ss.unit != nullptr, "rejected by the parser", ss.error);
    auto r = ss.analyze(opt);
    if (l.code) { rejected(ctx, r, { *l.code }, head.size(), head.size() + l.sql.size()); ctx.label(str(*l.code)); ctx.nontrivial(sql); return; }
    if (!r.is_valid()) ctx.fail("valid literal is rejected", diagnostics(r));
    std::unique_ptr<tscalar::expression> e;
    if (typed) {
        if (form == 3) {
            auto p = r.release<mana::sql_analyzer_result_kind::execution_plan>();
            for (auto&& x : *p) if (x.kind() == trel::expression_kind::project) e.reset(static_cast<trel::project const&>(x).columns()[at].value().clone());
        } else if (!prefer) {
            auto p = r.release<mana::sql_analyzer_result_kind::execution_plan>();
            for (auto&& x : *p) if (x.kind() == trel::expression_kind::values) e.reset(static_cast<trel::values const&>(x).rows()[row].elements()[position].clone());
        } else {
            auto s = r.release<mana::sql_analyzer_result_kind::statement>();
            e.reset(static_cast<tstmt::write const&>(*s).tuples()[row].elements()[position].clone());
        }
        if (form == 4) {
            ctx.require(e != nullptr && e->kind() == (wrapped ? tscalar::expression_kind::let : tscalar::expression_kind::conditional), "not a CASE expression", e ? str(*e) : "");
            auto& k = static_cast<tscalar::conditional const&>(wrapped ? static_cast<tscalar::let const&>(*e).body() : *e);
            auto n = k.alternatives().size();
            ctx.require(branch < n || k.default_expression().has_value(), "the branch is lost", str(*e));
            auto v = branch < n ? static_cast<std::unique_ptr<tscalar::expression>>(k.alternatives()[branch].body().clone()) : static_cast<std::unique_ptr<tscalar::expression>>(k.default_expression()->clone());
            e = std::move(v);
        }
        static char const* const titles[] { "in INSERT", "in INSERT", "in INSERT", "in UPDATE", "in CASE" };
        ctx.label(titles[form]);
    } else {
        auto p = r.release<mana::sql_analyzer_result_kind::execution_plan>();
        for (auto&& x : *p) if (x.kind() == trel::expression_kind::values) e.reset(static_cast<trel::values const&>(x).rows()[0].elements()[head == "VALUES (1, " ? 1 : 0].clone());
    }
    ctx.require(e != nullptr, "the literal is lost", "");
    tscalar::expression const* x = e.get();
    if (typed && f.cast && l.type != str(*context)) {
        ctx.require(x->kind() == tscalar::expression_kind::cast, "not converted to the type of the context", str(*x));
        auto& k = static_cast<tscalar::cast const&>(*x);
        ctx.require(str(k.type()) == str(*context), "converted to a different type", str(*x));
        ctx.require(str(k.loss_policy()) == "error", "the conversion may lose values", str(*x));
        x = &k.operand(); ctx.label("converted");
    }
    ctx.require(x->kind() == tscalar::expression_kind::immediate, "not a constant", str(*x));
    auto& im = static_cast<tscalar::immediate const&>(*x);
    ctx.require(str(im.type()) == l.type, "different type", "expected " + l.type + ", but " + str(*x));
    if (l.check) ctx.require(l.check(im.value()), "different value", str(*x)); else ctx.require(str(im.value()) == l.value, "different value", "expected " + l.value + ", but " + str(*x));
    auto place = range_of(str(im.region()));
    ctx.require(place && place->first >= head.size() && place->first < place->second && place->second == head.size() + l.sql.size(), "different location", str(im.region()));
    ctx.label(l.type.substr(0, l.type.find('('))); ctx.nontrivial(sql);
}
} // namespace
int main(int argc, char** argv) {
    pbt::suite s { "A06", "every case; cases are told apart by the statement",
        {
            { "literal", 150000, 3000000, [](pbt::source& c, pbt::context& x) { run(c, x, false); } },
            { "literal-in-context", 200000, 3000000, [](pbt::source& c, pbt::context& x) { run(c, x, true); } },
        } };
    return pbt::run(s, argc, argv);
}
