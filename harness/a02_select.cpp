// A02: a SELECT statement means what SQL says: the plan yields the rows which the text denotes.
#include "qgen.h"
#include "plancheck.h"
using namespace qg;

static void random_options(mana::sql_analyzer_options& opt, pbt::source& c, gen_options const& g) {
    opt.lowercase_regular_identifiers() = g.fold;
    opt.allow_context_independent_null() = g.allow_null;
    opt.validate_scalar_expressions() = c.flip();
    opt.prefer_small_integer_literals() = c.flip();
    opt.prefer_small_character_literals() = c.flip();
    opt.cast_literals_in_context() = c.flip();
}
static void select(pbt::source& c, pbt::context& ctx, int depth, bool outer_using = false) {
    fixture fx; gen_options g; g.outer_using = outer_using;
    g.fold = !c.chance(1, 4); g.allow_null = c.flip();
    generator gen { c, fx, g };
    gen.budget = 20 + depth * 25;
    gen.catalog();
    auto x = gen.query(nullptr, nullptr, depth, true);
    std::string text = x.sql;
    std::string shown;
    for (auto& t : fx.tables) {
        shown += "-- " + t->schema + "." + t->name + "(";
        for (auto& m : t->cols) shown += m.name + " " + what(m.type) + (m.hidden ? " hidden" : "") + (m.synthesized ? " synthesized" : "") + ", ";
        shown += ")\n";
        for (auto& r : t->rows) shown += "--   " + ana::show(r) + "\n";
    }
    ctx.show(shown + text + "\n");
    auto opt = fx.options();
    random_options(opt, c, g);
    session ss { text };
    ctx.require(ss.unit != nullptr, "rejected by the parser", ss.error);
    auto r = ss.analyze(opt);
    if (!r.is_valid()) ctx.fail("valid query is rejected", diagnostics(r));
    machine m { fx.db };
    output out;
    if (r.kind() != mana::sql_analyzer_result_kind::execution_plan) ctx.fail("not an execution plan", "");
    std::string fault; plan::text(r, &fault);
    ctx.require(fault.empty(), "malformed plan", fault);
    try { out = run_plan(r, m); } catch (plan_error const& e) { ctx.fail("malformed plan", e.what); }
    auto d = disagreement(x, out);
    if (!d.empty() && gen.used.count("outer using")) {
        *g.left_using = true;
        if (disagreement(x, out).empty()) ctx.fail("outer-using", "the column of USING is that of the left operand:\n" + d);
    }
    ctx.require(d.empty(), "different result", d);
    for (auto& [k, n] : gen.used) ctx.label(k);
    for (auto& [k, n] : m.used()) ctx.label("plan: " + k);
    ctx.label("result: " + std::string(out.rows.empty() ? "empty" : "rows"));
    if (!out.rows.empty()) ctx.nontrivial(text);
}

int main(int argc, char** argv) {
    pbt::suite s {
        "A02",
        "the query has a non-empty result; queries are told apart by their text",
        {
            { "shallow", 24000, 400000, [](pbt::source& c, pbt::context& x) { select(c, x, 1); } },
            { "nested", 16000, 300000, [](pbt::source& c, pbt::context& x) { select(c, x, 2); } },
            { "using", 6000, 100000, [](pbt::source& c, pbt::context& x) { select(c, x, 1, true); } },
            { "deep", 5000, 100000, [](pbt::source& c, pbt::context& x) { select(c, x, 3); } },
        },
    };
    return pbt::run(s, argc, argv);
}
