// A07: data types.
#include "tygen.h"
using namespace tg;
static void run(pbt::source& c, pbt::context& ctx, int form) {
    auto l = some_limits(c);
    types g { c, l };
    auto t = g.any();
    std::string head, tail;
    switch (form) {
        case 0: head = "CREATE TABLE t (" + std::string { c.flip() ? "k INT, " : "" } + "c "; tail = c.pick(std::vector<std::string> { ")", " NOT NULL)", " PRIMARY KEY)", ", z BIGINT)" }); break;
        default: head = "VALUES (CAST(" + std::string { c.flip() ? "'x'" : "1" } + " AS "; tail = "))"; break;
    }
    auto sql = head + t.sql + tail;
    ctx.show(sql + "\n-- " + (t.code ? str(*t.code) + " at " + t.sql.substr(t.begin, t.end - t.begin) : t.type) + "\n-- decimal " + number(l.decimal) + "/" + (l.decimal_default ? number(*l.decimal_default) : "-")
        + ", integer " + number(l.i1) + "/" + number(l.i2) + "/" + number(l.i4) + "/" + number(l.i8) + ", float " + number(l.f4) + "/" + number(l.f8) + "\n");
    fixture fx; fx.add_schema("main");
    auto opt = fx.options();
    l.set(opt);
    session ss { sql };
    ctx.require(ss.unit != nullptr, "rejected by the parser", ss.error);
    auto r = ss.analyze(opt);
    if (t.code) {
        rejected(ctx, r, { *t.code }, head.size() + t.begin, head.size() + t.end);
        ctx.label(str(*t.code)); ctx.nontrivial(sql);
        return;
    }
    if (!r.is_valid()) ctx.fail("valid type is rejected", diagnostics(r));
    std::string got;
    if (form == 0) {
        auto s = r.release<mana::sql_analyzer_result_kind::statement>();
        ctx.require(s->kind() == tstmt::statement_kind::create_table, "unexpected statement", str(*s));
        auto&& table = ybind::extract<ystor::table>(static_cast<tstmt::create_table const&>(*s).definition());
        for (auto&& x : table.columns()) if (x.simple_name() == "c") got = str(x.type());
    } else {
        auto graph = r.release<mana::sql_analyzer_result_kind::execution_plan>();
        for (auto&& e : *graph)
            if (e.kind() == trel::expression_kind::values) {
                auto&& x = static_cast<trel::values const&>(e).rows()[0].elements()[0];
                ctx.require(x.kind() == tscalar::expression_kind::cast, "not a cast", str(x));
                got = str(static_cast<tscalar::cast const&>(x).type());
            }
    }
    ctx.require(got == t.type, "different type", "expected " + t.type + ", but " + got);
    ctx.label(t.type.substr(0, t.type.find('('))); ctx.nontrivial(sql);
}
int main(int argc, char** argv) {
    pbt::suite s { "A07", "every case; cases are told apart by the statement",
        {
            { "column", 60000, 3000000, [](pbt::source& c, pbt::context& x) { run(c, x, 0); } },
            { "cast", 40000, 3000000, [](pbt::source& c, pbt::context& x) { run(c, x, 1); } },
        } };
    return pbt::run(s, argc, argv);
}
