#include <cctype>
#include <iomanip>
#include <set>
#include <sstream>
#include "enum_headers.inc"
#if __has_include(<mizugaki/analyzer/details/value_context_kind.h>)
#include <mizugaki/analyzer/details/value_context_kind.h>
#endif
#if __has_include(<mizugaki/analyzer/details/find_element_result.h>)
#include <takatori/util/optional_ptr.h>
#include <mizugaki/analyzer/details/find_element_result.h>
#endif
#include "pbt.h"

namespace {

// "and_" names the text "and": names which collide with C++ keywords have a trailing underscore
std::string text_of(std::string name) {
    if (!name.empty() && name.back() == '_') name.pop_back();
    return name;
}
// case and the word separator are up to each enum
std::string fold(std::string_view s) {
    std::string r;
    for (char c : s) r += c == ' ' ? '_' : static_cast<char>(std::tolower(static_cast<unsigned char>(c)));
    return r;
}

struct enum_info {
    std::string name;
    std::vector<std::string> enumerators;
    // text and streamed text of the i-th enumerator
    std::function<std::string(std::size_t)> text;
    std::function<void(std::ostream&, std::size_t)> stream;
    std::function<std::size_t(std::size_t)> value;
    // exercises the set type; null if there is none
    std::function<void(pbt::source&, pbt::context&)> sets;
};

template<class E, class S>
enum_info make(std::string name, std::vector<std::pair<E, std::string>> list) {
    enum_info r;
    r.name = std::move(name);
    std::vector<E> es;
    for (auto& [e, n] : list) {
        es.push_back(e);
        r.enumerators.push_back(n);
    }
    r.text = [es](std::size_t i) { return std::string { to_string_view(es[i]) }; };
    r.stream = [es](std::ostream& o, std::size_t i) { o << es[i]; };
    r.value = [es](std::size_t i) { return static_cast<std::size_t>(es[i]); };
    if constexpr (!std::is_void_v<S>) {
        r.sets = [es](pbt::source& c, pbt::context& ctx) {
            S set {};
            std::set<E> model;
            int n = c.range(1, 20);
            for (int i = 0; i < n; ++i) {
                E e = es[c.draw(static_cast<std::uint32_t>(es.size()))];
                if (c.weighted({ 3, 1 }) == 0) {
                    set.insert(e);
                    model.insert(e);
                } else {
                    set.erase(e);
                    model.erase(e);
                }
                for (auto x : es) {
                    ctx.require(set.contains(x) == (model.count(x) != 0), "set-contains", std::string { to_string_view(x) });
                }
                ctx.require(set.size() == model.size() && set.empty() == model.empty(), "set-size", "");
                std::set<E> seen;
                for (E x : set) seen.insert(x);
                ctx.require(seen == model, "set-iteration", "");
            }
        };
    }
    return r;
}

std::vector<enum_info> const& enums() {
    static std::vector<enum_info> const all = [] {
        std::vector<enum_info> v;
#define ENUM(T, S, ...) { using enum_type = ::T; v.push_back(make<enum_type, S>(#T, { __VA_ARGS__ })); }
#define E(x) { enum_type::x, #x },
#include "enums.inc"
        // names used in debug output of the analyzer, if they are still there
#if __has_include(<mizugaki/analyzer/details/value_context_kind.h>)
ENUM(mizugaki::analyzer::details::value_context_kind, void, E(unspecified) E(scalar) E(row))
#endif
#if __has_include(<mizugaki/analyzer/details/find_element_result.h>)
ENUM(mizugaki::analyzer::details::find_element_result_kind, void, E(found) E(absent) E(ambiguous))
#endif
#undef E
#undef ENUM
        return v;
    }();
    return all;
}

void texts(pbt::source& c, pbt::context& ctx) {
    auto& en = c.pick(enums());
    auto i = c.draw(static_cast<std::uint32_t>(en.enumerators.size()));
    auto name = en.enumerators[i];
    ctx.show(en.name + "::" + name);
    auto text = en.text(i);
    ctx.require(fold(text) == text_of(name), "text", en.name + "::" + name + " has the text '" + text + "'");
    auto j = c.draw(static_cast<std::uint32_t>(en.enumerators.size()));
    if (i != j) {
        ctx.require(en.value(i) != en.value(j), "value", name + " and " + en.enumerators[j] + " have the same value");
        ctx.require(en.text(j) != text, "ambiguous", name + " and " + en.enumerators[j] + " have the same text " + text);
    }
    // printed just as a string is, whatever the state of the stream
    std::ostringstream a, b;
    for (auto* o : { &a, &b }) *o << "<";
    int w = c.range(0, 30);
    char fill = c.pick(std::string { " *0_" });
    int adj = c.range(0, 2);
    bool hex = c.flip(), upper = c.flip();
    for (auto* o : { &a, &b }) {
        *o << std::setw(w) << std::setfill(fill);
        if (adj == 1) *o << std::left;
        if (adj == 2) *o << std::internal;
        if (hex) *o << std::hex << std::showbase;
        if (upper) *o << std::uppercase;
    }
    en.stream(a, i);
    b << std::string_view { text };
    for (auto* o : { &a, &b }) *o << ">" << 10;
    ctx.require(a.str() == b.str(), "stream", "printed as '" + a.str() + "', expected '" + b.str() + "'");
    ctx.label(en.name);
    ctx.nontrivial(en.name + "::" + name + "/" + std::to_string(j) + "/" + std::to_string(w) + fill + std::to_string(adj));
}

void sets(pbt::source& c, pbt::context& ctx) {
    static std::vector<enum_info const*> const withs = [] {
        std::vector<enum_info const*> r;
        for (auto& e : enums()) if (e.sets) r.push_back(&e);
        return r;
    }();
    auto& en = *c.pick(withs);
    ctx.show("set of " + en.name);
    en.sets(c, ctx);
    ctx.label(en.name);
}

} // namespace

int main(int argc, char** argv) {
    pbt::suite s;
    s.property = "C08";
    s.rule = "random enumerators of all 55 public enums (the names are the interface), printed into streams of random state, and random histories of their set types against std::set; non-trivial: a distinct (enumerator, other enumerator, stream state)";
    s.subs.push_back({ "texts", 200000, 4000000, texts });
    s.subs.push_back({ "sets", 20000, 1000000, sets });
    return pbt::run(s, argc, argv);
}
