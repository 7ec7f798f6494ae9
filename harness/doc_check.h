// Common parts of the checks over generated documents.
#pragma once

#include <mizugaki/parser/sql_parser.h>
#include "sqlgen.h"

namespace sqlgen {

using mizugaki::parser::sql_parser;
using mizugaki::parser::sql_parser_code;
using mizugaki::parser::sql_parser_result;
using mizugaki::parser::sql_parser_element_kind;

inline std::string diag_text(sql_parser_result const& r) {
    std::ostringstream ss;
    ss << r.diagnostic().code() << ": " << r.diagnostic().message() << " at " << r.diagnostic().region();
    return ss.str();
}

inline std::string code_text(sql_parser_code c) {
    std::ostringstream ss;
    ss << c;
    return ss.str();
}

struct document {
    gen g;
    jv statements;
    layout lay;
    explicit document(pbt::source& c, config conf = {}, gap_style style = gap_style::plain, bool recase = false) :
        g { c, conf }
    {
        statements = g.document();
        lay = layouter { c, style, recase }(g.toks);
    }
    // is the number of tokens worth counting as a case?
    bool nontrivial() const { return g.toks.size() >= 8; }
};

inline bool is_node(jv const& v) {
    return v.kind == jv::object && v.find("node_kind") != nullptr;
}

// applies f(node, depth) for each syntax node, where the statements are of depth 1
template<class F>
void each_node(jv const& v, std::size_t depth, F&& f) {
    if (is_node(v)) {
        ++depth;
        f(v, depth);
    }
    for (auto const& e : v.a) each_node(e, depth, f);
    for (auto const& [k, e] : v.o) each_node(e, depth, f);
}

inline void erase_key(jv& v, std::string const& key) {
    for (auto& e : v.a) erase_key(e, key);
    for (std::size_t i = 0; i < v.o.size();) {
        if (v.o[i].first == key) {
            v.o.erase(v.o.begin() + static_cast<long>(i));
        } else {
            erase_key(v.o[i].second, key);
            ++i;
        }
    }
}

} // namespace sqlgen
