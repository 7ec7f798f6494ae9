#include "doc_check.h"

using namespace sqlgen;

namespace {

struct outcome {
    bool ok {};
    jv tree;
    std::vector<std::pair<std::size_t, std::size_t>> placeholders; // offset, number
    std::string code;
    std::size_t begin {}, end {};
    std::string message;
    sql_parser_result raw;
};

outcome parse(sql_parser const& p, std::string const& text) {
    outcome o;
    o.raw = p("-", text);
    if (o.raw.has_value()) {
        o.ok = true;
        o.tree = std::move(*jv_of(*o.raw.value()).find("statements"));
        erase_key(o.tree, "description");
        each_node(o.tree, 0, [&](jv const& v, std::size_t) {
            if (v.find("node_kind")->s == "placeholder_reference") {
                o.placeholders.emplace_back(static_cast<std::size_t>(v.tb), static_cast<std::size_t>(v.find("index")->i));
            }
        });
        std::sort(o.placeholders.begin(), o.placeholders.end());
    } else {
        o.code = code_text(o.raw.diagnostic().code());
        o.begin = o.raw.diagnostic().region().begin;
        o.end = o.raw.diagnostic().region().end;
        o.message = diag_text(o.raw);
    }
    return o;
}

// the token the offset belongs to; n for the end of the document
std::size_t token_of(layout const& l, std::size_t offset) {
    for (std::size_t i = 0; i < l.span.size(); ++i) {
        if (l.span[i].first <= offset && offset < l.span[i].second) return i;
    }
    return offset >= (l.span.empty() ? 0 : l.span.back().second) ? l.span.size() : static_cast<std::size_t>(-1);
}

bool merges(std::string const& a, std::string const& b) {
    auto x = upper(a), y = upper(b);
    return (x == "." && y == "*") || (x == "UNION" && y == "JOIN") || (x == "OUTER" && y == "APPLY");
}

void same_tokens(pbt::source& c, pbt::context& ctx) {
    config conf;
    conf.max_statements = 2;
    gen g { c, conf };
    g.document();
    auto toks = g.toks;
    int n = c.weighted({ 5, 3, 2, 1 });
    for (int i = 0; i < n && !toks.empty(); ++i) {
        auto at = c.draw(static_cast<std::uint32_t>(toks.size()));
        switch (c.range(0, 3)) {
            case 0: toks.erase(toks.begin() + at); break;
            case 1: toks.insert(toks.begin() + at, toks[at]); break;
            case 2: std::swap(toks[at], toks[c.draw(static_cast<std::uint32_t>(toks.size()))]); break;
            default: toks.insert(toks.begin() + at, tok { c.pick(reserved_words()), tk::keyword }); break;
        }
    }
    for (std::size_t i = 0; i + 1 < toks.size(); ++i) {
        if (merges(toks[i].text, toks[i + 1].text)) {
            ctx.label("discarded-phrase");
            throw pbt::discard {};
        }
    }
    // note: words that may be read as an identifier keep their letters
    for (auto& t : toks) {
        auto& k = contextual_keywords();
        if (n > 0 && std::find(k.begin(), k.end(), lower(t.text)) != k.end()) t.kind = tk::raw;
    }
    auto a = layouter { c, gap_style::plain, false }(toks);
    auto b = layouter { c, c.flip() ? gap_style::random : gap_style::random_docs, true }(toks);
    ctx.show(a.text + "\n===\n" + b.text);
    sql_parser p;
    auto x = parse(p, a.text);
    auto y = parse(p, b.text);
    ctx.require(x.ok == y.ok, "acceptance", "accepted only in one of the layouts: " + x.message + y.message);
    if (x.ok) {
        ctx.label("accepted");
        auto diff = jv_diff(x.tree, y.tree, false, "statements");
        ctx.require(diff.empty(), "tree", diff);
        auto& u = x.raw.value()->statements();
        auto& v = y.raw.value()->statements();
        ctx.require(u.size() == v.size(), "tree");
        for (std::size_t i = 0; i < u.size(); ++i) ctx.require(*u[i] == *v[i], "equality", "equal trees do not compare equal");
    } else {
        ctx.label("rejected");
        ctx.require(x.code == y.code, "code", x.message + " / " + y.message);
        // note: the diagnostic message may quote the letters as they are written
        auto tx = token_of(a, x.begin), ty = token_of(b, y.begin);
        ctx.require(tx == ty, "location", "token " + std::to_string(tx) + " (" + x.message + ") / " + std::to_string(ty) + " (" + y.message + ")");
        if (tx < toks.size()) {
            auto ex = token_of(a, x.end - 1), ey = token_of(b, y.end - 1);
            ctx.require(ex == ey, "location", x.message + " / " + y.message);
        }
    }
    if (toks.size() >= 8) ctx.nontrivial(a.text);
}

void composition(pbt::source& c, pbt::context& ctx) {
    config conf;
    conf.max_statements = 2;
    int n = c.range(2, 4);
    std::vector<std::vector<tok>> parts;
    std::vector<tok> all;
    for (int i = 0; i < n; ++i) {
        gen g { c, conf };
        g.document();
        if (i > 0) all.push_back({ ";", tk::symbol });
        all.insert(all.end(), g.toks.begin(), g.toks.end());
        parts.push_back(g.toks);
    }
    auto whole = layouter { c, gap_style::random, true }(all);
    ctx.show(whole.text);
    sql_parser p; // note: one parser for the whole history
    auto w = parse(p, whole.text);
    jv expect = jv::arr();
    std::size_t marks = 0;
    std::vector<std::size_t> numbers;
    for (auto& t : parts) {
        auto text = layouter { c, gap_style::plain, false }(t).text;
        auto r = parse(p, text);
        if (!r.ok) ctx.fail("rejected", r.message + ": " + text);
        for (auto& s : r.tree.a) expect.add(s);
        std::size_t k = 0;
        for (auto& [off, num] : r.placeholders) {
            ctx.require(num == ++k, "placeholder", "placeholders must be numbered from 1 in order of appearance: " + text);
            numbers.push_back(marks + num);
        }
        marks += r.placeholders.size();
    }
    ctx.require(w.ok, "rejected", "each document is valid, but their sequence is not: " + w.message);
    auto clean = [](jv& list) {
        std::vector<jv> r;
        for (auto& s : list.a) if (s.find("node_kind")->s != "empty_statement") r.push_back(std::move(s));
        list.a = std::move(r);
        // the numbers of placeholders are compared separately
        erase_key(list, "index");
    };
    std::size_t semicolons = 0;
    for (auto& t : all) if (t.text == ";") ++semicolons;
    bool last_empty = all.back().text == ";";
    ctx.require(w.tree.a.size() == semicolons + (last_empty ? 0 : 1) || all.size() == 0, "count",
            std::to_string(semicolons) + " semicolons but " + std::to_string(w.tree.a.size()) + " statements");
    std::vector<std::size_t> got;
    for (auto& [off, num] : w.placeholders) got.push_back(num);
    ctx.require(got == numbers, "placeholder", "placeholders of the sequence are not numbered through the document");
    clean(w.tree);
    clean(expect);
    auto diff = jv_diff(expect, w.tree, false, "statements");
    ctx.require(diff.empty(), "composition", diff);
    ctx.label("with-placeholders", marks > 0);
    if (all.size() >= 12) ctx.nontrivial(whole.text);
}

} // namespace

int main(int argc, char** argv) {
    pbt::suite s;
    s.property = "C03";
    s.rule = "token sequences of the full grammar, as derived or mutated (delete/duplicate/swap/insert), each rendered in two layouts (spaces, line breaks, comments, letter case); and 2-4 documents joined by semicolons against each of them alone; non-trivial: a distinct sequence of 8 tokens or more";
    s.subs.push_back({ "layout", 60000, 5000000, same_tokens });
    s.subs.push_back({ "composition", 20000, 2000000, composition });
    return pbt::run(s, argc, argv);
}
