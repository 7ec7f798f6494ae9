#include "doc_check.h"
#include "regwalk.h"
#include <algorithm>
#include <map>

using namespace sqlgen;

namespace {

void check(pbt::source& c, pbt::context& ctx) {
    document d { c, {}, gap_style::random_docs, true };
    ctx.show(d.lay.text);
    sql_parser parser;
    parser.options().enable_description_comments() = false;
    auto r = parser("-", d.lay.text);
    if (!r.has_value()) ctx.fail("rejected", "a valid document was rejected: " + diag_text(r));
    resolve(d.statements, d.lay, false);
    auto actual = jv_of(*r.value());
    auto diff = jv_diff(d.statements, *actual.find("statements"), true, "statements");
    ctx.require(diff.empty(), "region", diff);
    std::size_t n = 0;
    each_node(d.statements, 0, [&](jv const& v, std::size_t) { if (v.tb >= 0) ++n; });
    ctx.label("regions-compared", n > 0);
    if (d.nontrivial()) ctx.nontrivial(d.lay.text);
}

// the ways each kind of value is written
std::map<std::string, std::vector<std::string>> const& written() {
    static std::map<std::string, std::vector<std::string>> const m {
#include "regwalk_table.inc"
    };
    return m;
}

// values within nodes (operators, quantifiers, options, lengths, literal values, ...): reached by the
// accessors of the tree, since they are not in its serialized form
void values(pbt::source& c, pbt::context& ctx) {
    document d { c, {}, gap_style::random, true };
    ctx.show(d.lay.text);
    sql_parser parser;
    parser.options().enable_description_comments() = false;
    auto r = parser("-", d.lay.text);
    if (!r.has_value()) ctx.fail("rejected", "a valid document was rejected: " + diag_text(r));
    regwalk::walker w;
    for (auto& s : r.value()->statements()) w.statement(*s);
    auto const& text = d.lay.text;
    auto show = [&](regwalk::item const& it) {
        std::ostringstream ss;
        ss << it.owner << (it.field.empty() ? "" : ".") << it.field << (it.field.empty() ? "" : "=" + it.value) << " at " << it.region;
        if (it.region && it.region.end <= text.size() && it.region.begin <= it.region.end) ss << " '" << text.substr(it.region.begin, it.region.end - it.region.begin) << "'";
        if (it.parent) ss << " in " << it.parent;
        return ss.str();
    };
    std::map<std::size_t, std::size_t> starts, ends;
    for (std::size_t i = 0; i < d.lay.span.size(); ++i) {
        starts[d.lay.span[i].first] = i;
        ends[d.lay.span[i].second] = i;
    }
    std::size_t n = 0;
    std::vector<std::vector<regwalk::item const*>> children(w.items.size());
    for (auto const& it : w.items) {
        if (!it.region) {
            if (it.field.empty()) {
                ctx.require(it.owner == "statement::empty_statement", "undefined-node", [&] { return show(it); });
                continue;
            }
        } else {
            bool may_be_empty = it.owner == "statement::empty_statement";
            ctx.require((it.region.begin < it.region.end || (may_be_empty && it.region.begin == it.region.end)) && it.region.end <= text.size(), "out-of-text", [&] { return show(it); });
            if (it.parent) ctx.require(it.parent.begin <= it.region.begin && it.region.end <= it.parent.end, "out-of-parent", [&] { return show(it); });
            if (it.parent_index < children.size()) children[it.parent_index].push_back(&it);
        }
        if (it.field.empty()) continue;
        std::string actual;
        if (it.region) {
            auto b = it.region.begin, e = it.region.end;
            auto s = text.substr(b, e - b);
            auto bi = starts.find(b);
            auto ei = ends.find(e);
            if (bi != starts.end() && ei != ends.end()) {
                for (auto i = bi->second; i <= ei->second; ++i) {
                    auto const& t = d.g.toks[i];
                    actual += (actual.empty() ? "" : " ") + (t.kind == tk::keyword ? upper(t.text) : t.text);
                }
            } else {
                // a part of token
                actual = upper(s);
                if (it.owner == "literal::string") actual = s;
            }
        }
        ++n;
        auto key = it.owner + "." + it.field;
        bool ok = false;
        if (key == "literal::string.value_kind") {
            ok = it.value == "hex_string" ? (actual == "X" || actual == "x") : (it.value == "character_string" && actual.empty());
        } else if (key == "table::apply.operator_kind" && it.value == "outer") {
            ok = actual == "OUTER";
        } else if (it.field == "value" || it.field == "unsigned_value" || it.field == "concatenations") {
            ok = actual == it.value;
        } else if (it.field == "length" || it.field == "precision" || it.field == "scale" || it.field == "subsecond_digits") {
            auto bi = starts.find(it.region.begin);
            if (actual == "*") {
                ok = it.value == std::to_string(static_cast<std::size_t>(-1));
            } else if (it.region && bi != starts.end() && d.g.toks[bi->second].kind == tk::number) {
                auto z = actual.find_first_not_of('0');
                ok = it.value == (z == std::string::npos ? "0" : actual.substr(z));
            }
        } else {
            auto f = written().find(key + "=" + it.value);
            ctx.require(f != written().end(), "unknown-value", [&] { return show(it); });
            ok = std::find(f->second.begin(), f->second.end(), actual) != f->second.end();
        }
        ctx.require(ok, "text-of-value", [&] { return show(it) + ": '" + actual + "'"; });
    }
    // siblings are written apart
    for (auto& l : children) {
        std::sort(l.begin(), l.end(), [](auto* a, auto* b) { return a->region.begin < b->region.begin; });
        for (std::size_t i = 1; i < l.size(); ++i) {
            ctx.require(l[i - 1]->region.end <= l[i]->region.begin, "overlap", [&] { return show(*l[i - 1]) + " and " + show(*l[i]); });
        }
    }
    ctx.label("values-compared", n > 0);
    if (d.nontrivial()) ctx.nontrivial(text);
}

// regions as half-open ranges of positions
void algebra(pbt::source& c, pbt::context& ctx) {
    using mizugaki::ast::node_region;
    auto make = [&]() -> node_region {
        if (c.chance(1, 8)) {
            switch (c.range(0, 2)) {
                case 0: return {};
                case 1: return { node_region::npos, c.draw(100) };
                default: return { c.draw(100), node_region::npos };
            }
        }
        std::size_t scale = c.chance(1, 10) ? 1ULL << 40U : 1;
        std::size_t b = c.draw(40) * scale;
        return { b, b + c.draw(20) * scale };
    };
    auto a = make(), b = make(), d = make();
    std::ostringstream ss;
    ss << "(" << a.begin << "," << a.end << ") (" << b.begin << "," << b.end << ") (" << d.begin << "," << d.end << ")";
    ctx.show(ss.str());
    auto valid = [](node_region const& r) { return r.begin != node_region::npos && r.end != node_region::npos; };
    auto same = [](node_region const& x, node_region const& y) { return x.begin == y.begin && x.end == y.end; };
    ctx.require(static_cast<bool>(a) == valid(a), "valid");
    ctx.require(a.first() == a.begin && a.last() == a.end && a.size() == a.end - a.begin, "accessors");
    ctx.require((a == b) == same(a, b) && (a != b) == !same(a, b), "equality");
    auto r = a | b;
    if (valid(a) && valid(b)) {
        // the smallest region which covers both
        ctx.require(r.begin == std::min(a.begin, b.begin) && r.end == std::max(a.end, b.end), "union");
        ctx.label("valid");
    } else if (valid(a) || valid(b)) {
        ctx.require(same(r, valid(a) ? a : b), "union-with-invalid");
        ctx.label("one-invalid");
    } else {
        ctx.require(!valid(r), "union-of-invalid");
    }
    if (valid(a) && valid(b)) {
        ctx.require(same(a | b, b | a), "commutative");
        if (valid(d)) ctx.require(same((a | b) | d, a | (b | d)), "associative");
    }
    ctx.require(std::hash<node_region>{}(a) == std::hash<node_region>{}(node_region { a }), "hash");
    if (same(a, b)) ctx.require(std::hash<node_region>{}(a) == std::hash<node_region>{}(b), "hash");
    std::ostringstream o;
    o << a;
    std::string expect = valid(a) ? "region(begin=" + std::to_string(a.begin) + ", end=" + std::to_string(a.end) + ")" : "region()";
    ctx.require(o.str() == expect, "print", o.str());
    auto v = jv_of(a);
    if (valid(a)) {
        ctx.require(v.find("begin") && v.find("begin")->i == a.begin && v.find("end") && v.find("end")->i == a.end, "serialize", jv_text(v));
        // sub regions within the region
        auto off = c.draw(static_cast<std::uint32_t>(std::min<std::size_t>(a.size(), 1000) + 1));
        auto len = c.draw(static_cast<std::uint32_t>(std::min<std::size_t>(a.size() - off, 1000) + 1));
        auto s1 = a(off), s2 = a(off, len);
        ctx.require(s1.begin == a.begin + off && s1.end == a.end, "sub-region", o.str());
        ctx.require(s2.begin == a.begin + off && s2.end == a.begin + off + len, "sub-region", o.str());
    }
    ctx.nontrivial(ss.str());
}

} // namespace

int main(int argc, char** argv) {
    pbt::suite s;
    s.property = "C04";
    s.rule = "documents of the full grammar rendered with random white space, comments and keyword case; the byte range of every node and operator is computed from the token positions by the generator; every located value (operators, names, options) reached through accessors has the text of its tokens within its parent; triples of random regions against ranges; non-trivial: a distinct text of 8 tokens or more, or a distinct triple";
    s.subs.push_back({ "regions", 60000, 6000000, check });
    s.subs.push_back({ "values", 40000, 4000000, values });
    s.subs.push_back({ "algebra", 100000, 5000000, algebra });
    return pbt::run(s, argc, argv);
}
