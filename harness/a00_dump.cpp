// For exploration: analyzes the statements of the standard input over a fixed catalog, and prints the outcome.
#include "ana.h"
#include <iterator>
using namespace ana;
int main(int argc, char** argv) {
    std::string sql { std::istreambuf_iterator<char>(std::cin), {} };
    fixture fx;
    fx.add_schema("main"); fx.add_schema("s0");
    auto n = [](std::int64_t v) { return val::of(v); };
    for (std::string t : { "t0", "t1", "t2" })
        fx.add_table({ "main", t, { { "a", ty::num }, { "b", ty::num }, { t == "t2" ? "e" : "c", ty::text } }, { 0 }, true, {}, {}, { { n(1), n(10), val::of("x") }, { n(2), n(20), val() }, { n(2), val(), val::of("y") } } });
    fx.add_table({ "main", "h", { { "a", ty::num, true }, { "b", ty::num }, { "y", ty::text, false, true } }, { 0 }, true, {}, {}, { { n(1), n(10), val::of("x") } } });
    fx.add_function({ "main", "f1", { ty::num }, ty::num, {} });
    fx.add_function({ "main", "tf1", { ty::num }, {}, { { "p", ty::num }, { "q", ty::text } } });
    fx.add_variable("main", "v0", ty::num, n(5));
    fx.standard_aggregates("main");
    auto opt = fx.options();
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        if (a == "null") opt.allow_context_independent_null() = true;
        if (a == "validate") opt.validate_scalar_expressions() = true;
        if (a == "nofold") opt.lowercase_regular_identifiers() = false;
    }
    session ss { sql };
    if (!ss.unit) { std::cout << ss.error << "\n"; return 1; }
    for (std::size_t i = 0; i < ss.unit->statements().size(); ++i) {
        auto r = ss.analyze(opt, i);
        if (!r.is_valid()) { std::cout << diagnostics(r) << "\n"; continue; }
        try {
            machine m { fx.db };
            if (r.kind() == mana::sql_analyzer_result_kind::statement) std::cout << r.element<mana::sql_analyzer_result_kind::statement>() << "\n";
            else for (auto&& e : r.element<mana::sql_analyzer_result_kind::execution_plan>()) std::cout << e << "\n";
            auto out = run_plan(r, m);
            for (auto& x : out.names) std::cout << "<" << x << "> ";
            std::cout << "\n" << show(out.rows) << out.effects.size() << " effects\n";
        } catch (plan_error const& e) { std::cout << "PLAN ERROR: " << e.what << "\n"; }
    }
}
