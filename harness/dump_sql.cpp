// prints the syntax tree of SQL texts given from the arguments (a debugging aid)
#include <iostream>
#include <mizugaki/parser/sql_parser.h>
#include "jv.h"
int main(int argc, char** argv) {
    for (int i = 1; i < argc; ++i) {
        mizugaki::parser::sql_parser p;
        auto r = p("-", argv[i]);
        std::cout << argv[i] << "\n  ";
        if (r) std::cout << jv_text(jv_of(*r.value()), true) << std::endl;
        else {
            auto& d = r.diagnostic();
            std::cout << d.code() << " " << d.message() << " @" << d.region() << std::endl;
        }
    }
}
