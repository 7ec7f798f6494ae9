#include "doc_check.h"

using namespace sqlgen;

namespace {

void check(pbt::source& c, pbt::context& ctx, config conf, gap_style style, bool recase) {
    document d { c, conf, style, recase };
    ctx.show(d.lay.text);
    sql_parser parser;
    parser.options().enable_description_comments() = false;
    auto r = parser("-", d.lay.text);
    if (!r.has_value()) {
        ctx.fail("rejected", "a valid document was rejected: " + diag_text(r) + "\nexpected: " + jv_text(d.statements).substr(0, 2000));
    }
    resolve(d.statements, d.lay, false);
    auto actual = jv_of(*r.value());
    auto diff = jv_diff(d.statements, *actual.find("statements"), false, "statements");
    ctx.require(diff.empty(), "tree", diff);
    for (auto& [k, n] : d.g.used) ctx.label(k);
    if (d.nontrivial()) ctx.nontrivial(jv_text(d.statements));
}

} // namespace

int main(int argc, char** argv) {
    pbt::suite s;
    s.property = "C02";
    s.rule = "documents derived from the full grammar (precedence, associativity, every statement/clause/predicate/function/literal/type form) with the expected tree built by the generator; labels count the constructs; non-trivial: a distinct expected tree of a document of 8 tokens or more";
    s.subs.push_back({ "plain", 80000, 6000000, [](pbt::source& c, pbt::context& ctx) { check(c, ctx, {}, gap_style::plain, false); } });
    s.subs.push_back({ "layout", 30000, 3000000, [](pbt::source& c, pbt::context& ctx) { check(c, ctx, {}, gap_style::random_docs, true); } });
    s.subs.push_back({ "deep", 15000, 1500000, [](pbt::source& c, pbt::context& ctx) { config f; f.depth = 8; f.max_statements = 1; f.list_max = 3; check(c, ctx, f, gap_style::plain, false); } });
    return pbt::run(s, argc, argv);
}
