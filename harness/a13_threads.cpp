// A13: parsers and analyzers which are used in several threads at the same time, over settings which nobody changes,
// answer like one after another, and share no mutable state. Built with ThreadSanitizer.
#include "acat.h"
#include <atomic>
#include <thread>
namespace {
using namespace acat;

// runs f(0), ..., f(n - 1) at the same time
template<class F> void together(std::size_t n, F f) {
    std::atomic<std::size_t> waiting { n };
    std::vector<std::thread> ts;
    for (std::size_t i = 0; i < n; ++i) ts.emplace_back([&, i] { --waiting; while (waiting.load() != 0) std::this_thread::yield(); f(i); });
    for (auto& t : ts) t.join();
}
std::string parsed(::mizugaki::parser::sql_parser const& p, std::string const& name, std::string const& text) {
    auto r = p(name, text);
    if (!r.has_value()) return sqlgen::diag_text(r);
    auto&& u = *r.value();
    std::string s = jv_text(jv_of(u), true) + " nodes " + std::to_string(r.tree_node_count()) + " depth " + std::to_string(r.max_tree_depth()) + " comments";
    for (auto&& x : u.comments()) s += " " + std::to_string(x.begin) + "-" + std::to_string(x.end);
    return s;
}
void configure(pbt::source& c, ::mizugaki::parser::sql_parser& p) {
    if (c.chance(1, 3)) p.options().max_expected_candidates() = static_cast<std::size_t>(c.range(0, 300));
    if (c.chance(1, 8)) p.options().tree_node_limit() = static_cast<std::size_t>(c.range(1, 100));
    if (c.chance(1, 8)) p.options().tree_depth_limit() = static_cast<std::size_t>(c.range(1, 20));
    if (c.chance(1, 4)) p.options().enable_description_comments() = false;
}
std::string text_of(pbt::source& c, sqlgen::config conf, std::uint32_t broken = 4) {
    conf.depth = c.range(1, 4); conf.max_statements = 2;
    sqlgen::gen g { c, conf };
    g.document();
    auto toks = g.toks;
    if (!toks.empty() && c.chance(1, broken)) toks.erase(toks.begin() + c.draw(static_cast<std::uint32_t>(toks.size())));
    return sqlgen::layouter { c, c.flip() ? sqlgen::gap_style::plain : sqlgen::gap_style::random_docs, false }(toks).text;
}
void parse(pbt::source& c, pbt::context& ctx) {
    std::size_t n = 2 + c.draw(3);
    std::vector<std::string> texts;
    auto kinds = 1 + c.draw(static_cast<std::uint32_t>(n));
    for (std::size_t i = 0; i < kinds; ++i) texts.push_back(text_of(c, {}));
    std::string shown;
    for (auto& t : texts) shown += t + "\n-- and at the same time:\n";
    ctx.show(shown);
    ::mizugaki::parser::sql_parser shared;
    configure(c, shared);
    bool share = c.flip();
    std::vector<::mizugaki::parser::sql_parser> own(n);
    for (auto& p : own) configure(c, p);
    std::vector<std::vector<std::string>> got(n);
    auto work = [&](std::size_t i, std::vector<std::string>& out) {
        auto const& p = share ? shared : own[i];
        for (std::size_t k = 0; k < texts.size(); ++k) out.push_back(parsed(p, "-", texts[(i + k) % texts.size()]));
    };
    together(n, [&](std::size_t i) { work(i, got[i]); });
    for (std::size_t i = 0; i < n; ++i) {
        std::vector<std::string> alone;
        work(i, alone);
        for (std::size_t k = 0; k < alone.size(); ++k) ctx.require(alone[k] == got[i][k], "parsing differs in threads", [&] { return "alone: " + alone[k].substr(0, 1500) + "\nin threads: " + got[i][k].substr(0, 1500); });
    }
    ctx.label(share ? "one parser" : "a parser for each thread");
    ctx.label("threads: " + std::to_string(n));
    ctx.nontrivial(shown);
}
void analyze(pbt::source& c, pbt::context& ctx) {
    std::size_t n = 2 + c.draw(3);
    setting s;
    std::vector<std::string> texts;
    auto kinds = 1 + c.draw(static_cast<std::uint32_t>(n));
    if (c.flip()) {
        catalog(c, s);
        sqlgen::config conf;
        conf.names = names(); conf.delimited = false; conf.contextual = false; conf.exotic = c.chance(1, 6);
        for (std::size_t i = 0; i < kinds; ++i) texts.push_back(text_of(c, conf, 12));
    } else {
        qg::gen_options go; go.allow_null = c.flip();
        qg::generator gen { c, s.fx, go };
        gen.catalog();
        for (std::size_t i = 0; i < kinds; ++i) { gen.budget = 15; texts.push_back(gen.query(nullptr, nullptr, c.range(1, 2), true).sql); }
    }
    std::string shown;
    for (auto& t : texts) shown += t + "\n-- and at the same time:\n";
    ctx.show(shown);
    auto o = s.fx.options();
    options(c, o);
    std::vector<std::unique_ptr<session>> units;
    bool share_tree = c.flip(), share_analyzer = c.flip();
    if (share_tree) for (auto& t : texts) units.push_back(std::make_unique<session>(t));
    std::vector<std::vector<std::string>> got(n);
    auto work = [&](std::size_t i, std::vector<std::string>& out) {
        // each thread has its own analyzer, which it may use for everything
        mana::sql_analyzer mine;
        for (std::size_t k = 0; k < texts.size(); ++k) {
            auto at = (i + k) % texts.size();
            std::unique_ptr<session> own;
            if (!share_tree) own = std::make_unique<session>(texts[at]);
            auto& ss = share_tree ? *units[at] : *own;
            if (!ss.unit) { out.push_back(ss.error); continue; }
            for (auto&& x : ss.unit->statements()) {
                mana::sql_analyzer fresh;
                auto& a = share_analyzer ? mine : fresh;
                auto r = a(o, *x, *ss.unit, s.holders, *s.host);
                out.push_back(r.kind() == mana::sql_analyzer_result_kind::diagnostics ? diagnostics(r) : plan::text(r));
            }
        }
    };
    together(n, [&](std::size_t i) { work(i, got[i]); });
    bool good = false;
    for (std::size_t i = 0; i < n; ++i) {
        std::vector<std::string> alone;
        work(i, alone);
        ctx.require(alone.size() == got[i].size(), "parsing differs in threads", "");
        for (std::size_t k = 0; k < alone.size(); ++k) {
            ctx.require(alone[k] == got[i][k], "the analysis differs in threads", [&] { return "alone: " + alone[k].substr(0, 1500) + "\nin threads: " + got[i][k].substr(0, 1500); });
            bool g = alone[k].rfind("unsupported", 0) != 0;
            good = good || g;
            if (i == 0) ctx.label(alone[k].substr(0, alone[k].find_first_of(" \n:(")));
        }
    }
    ctx.label(share_tree ? "one tree" : "a tree for each thread");
    if (good) ctx.nontrivial(shown);
}
} // namespace
int main(int argc, char** argv) {
    pbt::suite s { "A13", "two to four threads parse or analyze at least one statement which is not merely unsupported; groups of texts are told apart by their contents",
        {
            { "parse", 4000, 200000, parse },
            { "analyze", 4000, 200000, analyze },
        } };
    return pbt::run(s, argc, argv);
}
