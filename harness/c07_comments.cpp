#include "doc_check.h"

using namespace sqlgen;

namespace {

// all descriptions in the tree, by path
void collect(jv const& v, std::string const& path, std::map<std::string, std::string>& out) {
    for (std::size_t i = 0; i < v.a.size(); ++i) collect(v.a[i], path + "[" + std::to_string(i) + "]", out);
    for (auto const& [k, e] : v.o) {
        if (k == "description") {
            if (e.kind != jv::null) out[path + "." + k] = jv_text(e);
            continue;
        }
        collect(e, path + "." + k, out);
    }
}

void check(pbt::source& c, pbt::context& ctx) {
    document d { c, {}, c.chance(1, 4) ? gap_style::random : gap_style::random_docs, true };
    ctx.show(d.lay.text);
    bool enabled = !c.chance(1, 5);
    sql_parser parser;
    parser.options().enable_description_comments() = enabled;
    auto r = parser("-", d.lay.text);
    if (!r.has_value()) ctx.fail("rejected", "a valid document was rejected: " + diag_text(r));
    auto text = [](auto const& list) {
        std::ostringstream ss;
        for (auto const& x : list) ss << x << " ";
        return ss.str();
    };
    std::vector<mizugaki::ast::node_region> expect;
    for (auto [b, e] : d.lay.comments) expect.emplace_back(b, e);
    ctx.require(expect == r.value()->comments(), "comments", "expected " + text(expect) + " but was " + text(r.value()->comments()));
    resolve(d.statements, d.lay, enabled);
    auto actual = jv_of(*r.value());
    std::map<std::string, std::string> de, da;
    collect(d.statements, "statements", de);
    collect(*actual.find("statements"), "statements", da);
    if (de != da) {
        std::string m = "expected:";
        for (auto& [k, v] : de) m += " " + k + "=" + v;
        m += " but was:";
        for (auto& [k, v] : da) m += " " + k + "=" + v;
        ctx.fail("description", m);
    }
    ctx.label("descriptions", !de.empty());
    ctx.label("comments", !expect.empty());
    ctx.label("disabled", !enabled);
    if (!expect.empty()) ctx.nontrivial(d.lay.text);
}

} // namespace

int main(int argc, char** argv) {
    pbt::suite s;
    s.property = "C07";
    s.rule = "documents of the full grammar with generated line/block/description comments in every gap (including the ends of the document); non-trivial: a distinct text with at least one comment";
    s.subs.push_back({ "comments", 60000, 5000000, check });
    return pbt::run(s, argc, argv);
}
