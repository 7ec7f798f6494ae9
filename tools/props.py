"""Properties (source of properties.jsonl) and what the manifest says about their checks."""
P = []
def prop(id, title, statement, over, text, why, files, mech, technique, note, observe=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe or [], hook_needed=None),
        technique=technique, note=note))

PARSER = ['src/mizugaki/parser/sql_parser.yy', 'src/mizugaki/parser/sql_scanner.ll', 'src/mizugaki/parser/sql_driver.cpp', 'src/mizugaki/parser/sql_parser.cpp']
AST = ['include/mizugaki/ast', 'src/mizugaki/ast']
TRUST = 'Random search: no proof. Trusts the stand-ins of takatori/yugawara in /verif/shim (the real libraries are not installed), the generator and its reference model.'

prop('C01', 'Parsing any text ends with exactly one syntax tree or one valid diagnostic',
 'For every byte string and every parser option setting, parsing terminates without a crash, memory error, undefined behaviour or internal failure, and yields exactly one of a syntax tree or a diagnostic. A diagnostic has a definite error code, a message, and a source region that lies within the text. Parsing the same text again gives the same result, and does not depend on what was parsed before.',
 ['inputs', 'configurations'], 'all byte strings (valid, mutated, token soup, raw bytes, deeply nested) and all parser option settings',
 'The tests parse a few hundred hand-written valid statements and a handful of wrong ones; malformed inputs are unbounded.',
 PARSER + ['src/mizugaki/parser/sql_scanner.cpp', 'src/mizugaki/parser/sql_parser_result.cpp', 'src/mizugaki/parser/sql_parser_diagnostic.cpp'],
 [('error token for anything the scanner does not know', 'sql_scanner.ll'), ('custom syntax error reports', 'sql_parser.yy report_syntax_error'), ('result is a variant of tree and diagnostic', 'sql_parser_result.cpp')],
 'structured fuzzing under AddressSanitizer/UBSan with a result-validity oracle', TRUST + ' Built with -fsanitize=address,undefined. Nesting is bounded (known finding).')
prop('C02', 'The syntax tree has exactly the structure and values of the source text',
 'For every statement of the supported SQL grammar, parsing succeeds and the syntax tree represents precisely that statement: every clause, option, operator, name, literal and type that was written, nothing else, in source order, with the operator precedence and associativity of SQL. No part of the text is dropped, duplicated, or attached to another construct.',
 ['inputs', 'programs'], 'all documents derivable from the statement grammar (every statement, clause, predicate, operator, function, literal and type form, nested to any depth)',
 'Each test checks one construct in isolation; combinations of optional clauses and nesting of operators are unbounded.',
 PARSER, [('grammar actions building AST nodes', 'sql_parser.yy'), ('identifier chain merging, literal folding, type building', 'sql_driver.cpp')],
 'grammar-derived generation with the expected tree as oracle', TRUST)
prop('C03', 'Layout and letter case never change the meaning; statements are independent',
 'White space, comments and the letter case of keywords have no influence on the syntax tree. A document of several statements separated by semicolons has the trees which each statement has alone, except that dynamic placeholders are numbered through the document from left to right. Whether a text is accepted does not depend on layout either.',
 ['inputs', 'programs'], 'all statements, all their layouts, and all sequences of statements',
 'Tests use one layout per statement and mostly one statement per document.',
 PARSER, [('white space and comments are skipped, keywords are case-insensitive', 'sql_scanner.ll'), ('statement list', 'sql_parser.yy'), ('placeholder numbering', 'sql_driver.cpp')],
 'metamorphic testing over layouts and statement composition', TRUST)
prop('C04', 'Every syntax element knows exactly the source range it was written at',
 'Each node, operator, name and option of a syntax tree carries the byte range of exactly the tokens it was made from, so that ranges nest like the elements do and diagnostics can point to the culprit. Combining and slicing ranges follows the arithmetic of half-open intervals, where an undefined range is neutral.',
 ['inputs', 'programs'], 'all documents with any layout (comments, line breaks, multi-byte characters before the element); all pairs of ranges',
 'Tests check the regions of a few nodes in one-line statements.',
 PARSER + ['include/mizugaki/ast/node_region.h', 'src/mizugaki/ast/node_region.cpp', 'src/mizugaki/parser/sql_scanner.cpp'],
 [('location tracking', 'sql_scanner.cpp'), ('@$ and region union in actions', 'sql_parser.yy'), ('region algebra', 'node_region')],
 'grammar-derived generation with expected byte ranges; model-based algebra', TRUST)
prop('C05', 'Tokens are recognized by longest match and keep their text exactly',
 'The text is split into tokens by the lexical grammar of the dialect: longest match, reserved words are never plain identifiers, other words always may be. Identifiers, string, binary, and numeric literals and host parameters appear in the tree with exactly the characters that were written, of any length, with quotes unescaped only where the language says so. Malformed, reserved (leading double underscore) or unclosed tokens are rejected, with the precise token blamed.',
 ['inputs'], 'all sequences of adjacent tokens, all identifier and literal contents including quotes, control characters, and multi-byte characters',
 'Lexical ambiguity arises between arbitrary neighbours; tests only use usual spacing and short ASCII tokens.',
 ['src/mizugaki/parser/sql_scanner.ll', 'src/mizugaki/parser/sql_scanner.cpp', 'src/mizugaki/parser/sql_driver.cpp'],
 [('flex rules', 'sql_scanner.ll'), ('identifier checks and unescaping', 'sql_driver.cpp')],
 'differential fuzzing against a reference lexer; round trip of tokens', TRUST)
prop('C06', 'Parser limits on list sizes, node count and depth are enforced exactly',
 'With a limit on the number of elements of a kind, on the number of tree nodes or on the tree depth, a document is accepted if and only if it stays within all the limits; 0 means unlimited, and limits never change the tree of an accepted document. A rejection is reported as an exceeded number of elements, at the first element that exceeds its limit. The reported node count and depth are those of the tree.',
 ['inputs', 'configurations'], 'all documents and all limit settings, in particular right at, below and above each list length, node count and depth',
 'Tests try one list per kind with one limit; they do not cover combinations, nested lists or boundary values of tree limits.',
 PARSER + ['src/mizugaki/parser/sql_tree_validator.cpp', 'include/mizugaki/parser/sql_parser_options.h', 'include/mizugaki/parser/sql_parser_element_kind.h'],
 [('validate_count', 'sql_driver.cpp'), ('tree validator', 'sql_tree_validator.cpp')],
 'boundary-value generation with the generator counting lists, nodes and depth', TRUST)
prop('C07', 'Comments are recorded exactly; description comments attach to their definition',
 'The tree lists every comment of the document, in order, with its exact range, and nothing else. If description comments are enabled, the description of a definition or column is the last documentation comment directly before it, and absent if there is none or the feature is disabled.',
 ['inputs', 'configurations'], 'all documents with comments of any form and content between any two tokens, with the feature on and off',
 'Tests place one comment before a definition; positions and contents of comments are unbounded.',
 PARSER, [('comment collection', 'sql_scanner.ll, sql_driver.cpp'), ('leading_description_comment', 'sql_driver.cpp')],
 'generated layouts with comments placed by the generator as oracle', TRUST)
prop('C08', 'Every enumerator has its own textual name, printed as is',
 'The text of every value of every public enumeration is its declared name (up to case and word separators), so that no two values of an enumeration share a text; printing a value to any stream writes just that text under the format of the stream. Sets of enumeration values behave as mathematical sets over all the values.',
 ['inputs', 'histories'], 'all values of all public enumerations, all stream states, all histories of set operations',
 'Almost no enumeration is covered by tests that run; texts appear only in debug output there.',
 ['include/mizugaki/ast', 'include/mizugaki/parser/sql_parser_code.h', 'include/mizugaki/parser/sql_parser_element_kind.h', 'include/mizugaki/analyzer/sql_analyzer_code.h'],
 [('to_string_view and operator<< of each enum', 'include/mizugaki/**'), ('set types', 'include/mizugaki/**')],
 'random enumerators and stream states against the declared names; model-based sets', TRUST)
prop('C09', 'Equality, copying and serialization of syntax trees agree with each other',
 'Two syntax trees are equal if and only if they represent the same statement, that is, their serialized forms are the same apart from source ranges and descriptions; equality is reflexive, symmetric and the negation of inequality. A copy of a tree, by either copying or moving, is equal to the original, including source ranges, and does not share or disturb the original. Serialization is deterministic and names each property once.',
 ['inputs', 'programs'], 'all pairs of syntax trees, in particular those which differ in a single element, and all copies',
 'Tests compare hand-built objects of each class with an equal copy; they do not try objects that differ in one field.',
 AST, [('operator== of each class', 'src/mizugaki/ast/**'), ('clone constructors', 'src/mizugaki/ast/**'), ('serialize', 'src/mizugaki/ast/**')],
 'near-miss pair generation with structural comparison as oracle', TRUST)
prop('C10', 'Syntax errors blame the first impossible token and list what could follow',
 'If a text is not a statement, the error is located at the first token which cannot follow the text before it (or at the end of the text), and does not depend on anything behind it. The listed candidates are exactly the tokens which may follow there, cut at the configured maximum with a trailing ellipsis only if some are left out. Constructs which are derivable but not allowed (duplicated sequence options, WITH in query operands, sizes out of range, methods of non-types) are rejected at the offending part.',
 ['inputs', 'configurations'], 'all prefixes of all statements, continued with any token, and all settings of the maximum number of candidates',
 'Tests check messages of a few errors; the set of viable prefixes is infinite.',
 PARSER, [('LALR(1) with lookahead correction', 'sql_parser.yy %define parse.lac'), ('report_syntax_error, collapse_identifier_like_tokens', 'sql_parser.yy'), ('sequence options', 'src/mizugaki/parser/details/sequence_options.h')],
 'prefix generation; viability of candidates and non-candidates is tested by parsing', TRUST)
prop('C11', 'Parser option and element-kind containers keep each entry independently',
 'Each parser option and each per-kind entry reads back the value last written to it, whatever is written to other entries, copied, or moved; they start from the documented defaults, and a parser uses the options it was given. An element kind is found by exactly its own name, and printing a map shows each kind with its value, once and in order.',
 ['histories', 'inputs'], 'all histories of reads, writes, copies and moves; all names',
 'Tests write two entries of one map and look up three names.',
 ['include/mizugaki/parser/sql_parser_options.h', 'src/mizugaki/parser/sql_parser_options.cpp', 'include/mizugaki/parser/sql_parser_element_kind.h'],
 [('element map indexing', 'sql_parser_element_kind.h'), ('find by name', 'sql_parser_element_kind.h'), ('accessors', 'sql_parser_options.cpp')],
 'model-based testing of operation histories', TRUST)

prop('C12', 'A syntax tree is the same whichever constructor builds it from its parts',
 'Every class of the syntax tree can be built by several constructors: from owning pointers, from copies of the parts, from lists, from names, and by shorter forms which leave out optional parts. For the same parts, all of them give the same node: it is equal to the original, serializes to the same structure, has exactly the given region, each accessor returns the part which was given, omitted parts have their documented default values, and the parts which were copied from are not changed. Classes which stand for a set of kinds (types, literals, constraints, DROP statements, privilege users) report the given kind and refuse all others with std::invalid_argument; is_varying and is_flexible_* tell just whether the kind and the size are so.',
 ['inputs', 'programs'], 'all nodes of all syntax trees and all constructors of their classes, with every combination of optional parts; all kinds',
 'The tests of a class build one or two objects by some of the constructors; they are not even among those which can be built here.',
 AST, [('constructors of each class', 'include/mizugaki/ast/**, src/mizugaki/ast/**'), ('validate_kind', 'src/mizugaki/ast/{type,literal,statement}/utils.h'), ('rvalue_list, clone_wrapper', 'include/mizugaki/ast/common')],
 'each node of generated and edited trees is rebuilt by every constructor of its class and compared structurally; model-based types of random kinds and sizes', TRUST)

ANALYZER = ['src/mizugaki/analyzer/sql_analyzer.cpp', 'src/mizugaki/analyzer/details']
ATRUST = 'Random search: no proof. The analyzer is compiled against stand-ins of takatori/yugawara in /verif/shim (the real libraries are not installed); all 678 upstream parser and analyzer tests pass on them. Trusts them, the plan interpreter and the reference evaluation of the harness.'

prop('A01', 'Every statement gives one well-formed result, or diagnostics with a location',
 'For every parsed statement, catalog, options and parameters, the analysis ends (no crash, no exception, no endless loop) with exactly one of: a statement object, an execution plan, or diagnostics. A plan is well-formed: every operator is connected and reachable from its single output, every variable is defined once and is available where it is read, functions are used with their number of arguments. Diagnostics are never empty; each has a definite code, a message, and a source range within the statement. The result is a function of the inputs: repeating the analysis, in any order, by the same analyzer or a new one, gives the same result, and neither the syntax tree nor the catalog changes.',
 ['inputs', 'programs', 'histories'], 'all statements which the parser accepts, over any catalog, options and parameters, in any order',
 'The tests check chosen statements which succeed or fail in one anticipated way.',
 ANALYZER + ['src/mizugaki/analyzer/sql_analyzer_result.cpp'], [('analysis entry point', 'sql_analyzer.cpp, details/analyzer_context.cpp'), ('plans', 'details/analyze_query_expression.cpp, analyze_statement.cpp, set_function_processor.cpp'), ('scopes', 'details/query_scope.cpp, analyze_name.cpp')],
 'grammar-based fuzzing and token mutation of generated queries over catalogs which share their names; structural validation of the result, metamorphic repetition, under AddressSanitizer/UBSan', ATRUST)
prop('A02', 'The execution plan of a query computes what the query means',
 'For every supported query, the analyzer makes an execution plan whose execution on any table contents gives exactly the rows, the column names, and the order which SQL defines for the query: joins of every kind, WHERE, GROUP BY and aggregates, HAVING, SELECT with DISTINCT and asterisks, ORDER BY, LIMIT, set operations, derived tables, common table expressions, IN/EXISTS/scalar/quantified subqueries, with NULLs treated by three-valued logic. Each name in the query denotes the column which SQL scoping says it does.',
 ['inputs', 'programs'], 'all queries of the supported language over any catalog, and all contents of the tables',
 'The tests compare the shape of a plan for one query per feature; combinations of features, shadowed names and nested scopes are unbounded, and shape says nothing of the rows.',
 ANALYZER, [('query expressions to relational operators', 'details/analyze_query_expression.cpp'), ('scalar expressions', 'details/analyze_scalar_expression.cpp'), ('names and scopes', 'details/analyze_name.cpp, query_scope.cpp'), ('set functions', 'details/set_function_processor.cpp')],
 'generated queries and tables: the plan is interpreted and compared with a reference evaluation of the query', ATRUST)
prop('A03', 'The effects of INSERT, UPDATE and DELETE are those of the statement',
 'For every INSERT, UPDATE and DELETE statement which the analyzer accepts, its plan or write statement changes the table exactly as the statement says: the rows which satisfy the condition and no others, each listed column set to the value of its expression over the old row (or of the query or VALUES element at its position), other columns kept or left to their defaults, rows identified by the primary key, and the conflict behaviour that was written. Statements which list a column twice, a column that does not exist, or a wrong number of values are rejected with a diagnostic.',
 ['inputs', 'programs'], 'all INSERT, UPDATE and DELETE statements over any table definition and table contents',
 'The tests check one hand-written statement per form against the shape of its plan.',
 ANALYZER, [('INSERT, UPDATE, DELETE', 'details/analyze_statement.cpp'), ('VALUES and queries as sources', 'details/analyze_query_expression.cpp')],
 'generated statements and tables: the plan is interpreted and the changes are compared with a reference model', ATRUST)
prop('A04', 'DDL and privilege statements do exactly what is written, or are rejected',
 'For every CREATE TABLE, CREATE INDEX, ALTER, DROP, TRUNCATE, GRANT and REVOKE statement, the resulting statement object carries exactly what is written: target and schema, columns with types, nullability, default values, identity sequences with their documented defaults, keys with directions, primary keys, descriptions, options, privileges and users. IF EXISTS and IF NOT EXISTS make the statement do nothing in just the stated case. Statements which are contradictory, refer to missing or existing objects, or use unsupported features are rejected with the proper diagnostic at the culprit; nothing that is written is silently ignored.',
 ['inputs', 'programs'], 'all definition, alteration, removal and privilege statements over any catalog and search path',
 'The tests check one statement per feature on an empty catalog; combinations of constraints, options and existing objects are unbounded.',
 ['src/mizugaki/analyzer/details/analyze_statement.cpp', 'src/mizugaki/analyzer/details/analyze_name.cpp', 'src/mizugaki/analyzer/details/analyze_description.cpp'], [('definitions', 'details/analyze_statement.cpp'), ('existing objects', 'details/analyze_name.cpp'), ('descriptions', 'details/analyze_description.cpp')],
 'generated statements and catalogs with injected faults against a reference model of the outcome', ATRUST)
prop('A06', 'A literal denotes exactly the value that is written',
 'Every literal (numbers of any length and scale with or without sign, character and octet strings, dates, times, timestamps with and without offsets, booleans, NULL, and concatenations of string literals) that the analyzer accepts becomes a constant of exactly the written value, and of the type which the literal form, the options (small integer, character, decimal types; maximum decimal precision; system time zone) and the context ask for. A literal whose value no such type can hold, or which is not well-formed, is rejected with the proper diagnostic at the literal; it is never rounded, wrapped or truncated.',
 ['inputs', 'configurations'], 'all literals, in particular at the limits of the integer types, of decimal precision and scale, of doubles, and of the calendar; all option settings; all contexts',
 'The tests check a few dozen values; the boundary cases are spread over an unbounded set and interact with options.',
 ['src/mizugaki/analyzer/details/analyze_literal.cpp', 'src/mizugaki/analyzer/details'], [('literal processing', 'details/analyze_literal.cpp'), ('casts of literals in context', 'details/analyze_scalar_expression.cpp, analyze_statement.cpp')],
 'boundary-value generation with an independent computation of values (arbitrary precision decimals, calendar arithmetic, exact double parsing), under AddressSanitizer/UBSan', ATRUST + ' prefer_small_binary_literals is ignored by the analyzer, which an upstream test pins; the model follows.')
prop('A07', 'A data type in SQL denotes exactly one type, within the limits of the options',
 'For every type expression and every setting of the type options, the analyzer yields the type of exactly the written kind, length, precision, scale, variability and time zone (with the documented defaults when they are omitted), choosing the smallest binary integer or float which holds the requested precision; a type which is not supported, has length zero, or exceeds a limit is rejected with the proper diagnostic at the culprit. The same expression means the same type in column definitions and in CAST.',
 ['inputs', 'configurations'], 'all type expressions, and all limits and defaults in the options, in particular at the limit and next to it',
 'The tests use default options and typical lengths.',
 ['src/mizugaki/analyzer/details/analyze_type.cpp', 'include/mizugaki/analyzer/sql_analyzer_options.h'], [('type processing', 'details/analyze_type.cpp')],
 'generated type expressions and options against a reference table of types', ATRUST)
prop('A05', 'Parameters and built-in functions mean what is given or declared for them',
 'A host parameter :name and the n-th ? of a document (counting from 1, over all its statements, in the order of the text, without comments and strings) stand for what is given for the name, or for n: the immediate value and type of the placeholder, else the host variable. With the option that declarations start with a colon, what is looked up is :name and :n, otherwise name and n; the case of names is kept. A parameter for which nothing is given is variable_not_found, just at the reference; LIMIT accepts a placeholder only if it is an integer which is not negative. The placeholder map holds the last entry added for each name, and prints entries as value and type. EXTRACT(field FROM value) is the call of the function for that field (extract_year, date, extract_year_to_month, ...) with the value, and for SECOND and YEAR TO SECOND with the precision in decimal places as INT (9 if it is absent or larger); it is rejected as function_not_found if the type of the value does not have the field (DATE has years to days; TIME hours to seconds; TIMESTAMP all of them; time zone fields only WITH TIME ZONE). Other built-in functions (POSITION, SUBSTRING, OVERLAY, ABS, CEIL, MOD, UPPER, CHAR_LENGTH, CURRENT_TIMESTAMP, ...) call the most specific applicable scalar function of the same name with the operands in order of the text; function_not_found, or function_ambiguous, is reported at the call if there is none.',
 ['inputs', 'configurations'], 'all documents with parameters, sets of given values and options; all built-in calls, operand types and declared overloads',
 'The tests analyze one statement with one parameter, and EXTRACT with one declared function each.',
 ANALYZER, [('parameters', 'details/analyze_scalar_expression.cpp host_parameter_reference, placeholder_reference; placeholder_map.cpp, placeholder_entry.cpp; parser/sql_driver.cpp find_placeholder_mark'), ('EXTRACT and built-in functions', 'details/analyze_scalar_expression.cpp extract_expression, builtin_function_invocation')],
 'generated documents, values, variables and overloads; the interpreted plan, the immediate values, variables, called functions and their arguments, or the code and place of the diagnostics are compared with a model', ATRUST)
prop('A08', 'Every name means the declaration the scoping rules give it, or is reported',
 'Every reference in a query resolves to exactly one declaration by the scoping rules, or the analysis fails with a diagnostic of the proper kind (not found, ambiguous, unsupported) at that reference. A column name denotes the exported column of that name in the nearest query which has one, is ambiguous if that query has several, and otherwise denotes the schema variable found first along the search path. Names of scalar subqueries see the enclosing queries; those of derived tables, common table expressions and join conditions see neither siblings nor what is not an operand; the former see the queries which enclose the whole, common table expressions nothing outside. A name qualified by a relation, schema and relation, schema, or catalog and schema denotes just the column or variable there. r.* and * denote the exported columns in order. Tables are found among the common table expressions in scope and then along the search path. A function name denotes, in the first schema of the path which declares functions of that name and argument count (or the one named), the applicable overload which is more specific than any other; if there are applicable ones but no such, the call is ambiguous. Identifiers are folded by the options for each kind of name.',
 ['inputs', 'configurations'], 'all references in all nestings of queries, over all catalogs with equal names in different places, search paths and folding options',
 'The tests resolve a few names per rule in a catalog of one schema; the rules interact through nesting and shadowing.',
 ANALYZER, [('name resolution', 'details/analyze_name.cpp'), ('scopes', 'details/query_scope.cpp, relation_info.cpp'), ('overload resolution', 'details/analyze_scalar_expression.cpp')],
 'generated catalogs and nested queries with one reference in question against a model of the scoping rules: each column and variable holds a number of its own, which the interpreted plan yields', ATRUST)
prop('A10', 'Grouping: what set functions may be used beside, and where, and what they yield',
 'A query is grouped if it has GROUP BY, HAVING, or a set function in its select list or ORDER BY. In a grouped query, every column of its own FROM clause in the select list (also by *), HAVING and ORDER BY must be a group key or inside a set function, also if it is used by a subquery there; otherwise the analysis fails with invalid_aggregation_column at that column, asterisk or subquery. Set functions must not be nested, and must not be used in WHERE, JOIN ON, GROUP BY, VALUES, UPDATE SET or the WHERE of UPDATE and DELETE, except in subqueries of their own there: this is unsupported_feature at the call or the clause. Group keys must be columns of the FROM clause of the query. Every other query is accepted, and yields a row for each group (just one for all rows, even if there are none, without GROUP BY) which satisfies HAVING, with the set functions computed over the rows of the group, or the distinct values.',
 ['inputs'], 'all placements of columns, subqueries and set functions in all nestings of queries, statements and clauses, over all tables contents',
 'The tests reject one query per rule; correlated subqueries, nesting and combination with HAVING, ORDER BY and asterisks are not sampled.',
 ANALYZER, [('grouping', 'details/set_function_processor.cpp; details/analyze_query_expression.cpp'), ('restrictions', 'details/analyze_query_expression.cpp, analyze_statement.cpp saw_aggregate')],
 'generated statements with set functions, group keys and columns placed freely; a model of the rules tells the violations, one of which must be reported with its code and place, or else the rows, which the interpreted plan must yield', ATRUST)
prop('A11', 'Analyzer options govern exactly what they say; analyses do not interfere',
 'Whether regular identifiers are converted to lower case is decided for each by the kind of what it names: with the option for all kinds, or the one for variables (columns, output and correlation columns, schema variables), functions (and set functions which are not keywords), relations (tables, indexes, correlations and common table expressions), schemas or catalogs, the statement means the same as with the delimited identifiers of the converted spelling; the others, and delimited identifiers, keep their spelling. Validating scalar expressions only reports faults: it changes no accepted result and accepts no rejected statement. A new options object has the documented default values (lower case regular identifiers; decimal precision 38; binary precisions 7, 15, 31, 63 and 25, 53; write statements preferred; literals cast in context; cyclic sequences; function nextval; offset 0; all else off), a setting changes only that setting of that object, and copies are independent; a placeholder map holds the last entry added for each name until it is cleared. The result of an analysis is the same with whichever analyzer (new, used before, moved) and overload, does not change the options, and does not depend on the analyzer or syntax tree after it was returned.',
 ['inputs', 'configurations', 'histories'], 'all statements, catalogs, option values and histories of options, placeholder maps and analyzers',
 'The tests set single options for single statements and always use a new analyzer.',
 ANALYZER, [('folding', 'details/analyze_name.cpp is_lowercase, to_identifier, normalize_identifier'), ('options', 'include/mizugaki/analyzer/sql_analyzer_options.h'), ('placeholders', 'src/mizugaki/placeholder_map.cpp'), ('analyzers', 'sql_analyzer.cpp, details/analyzer_context.cpp')],
 'metamorphic testing of folding against delimited identifiers under all combinations of the options; model-based histories of options and placeholder maps; histories of analyses by used and moved analyzers against new ones', ATRUST)
prop('A12', 'Analysis depends on names only up to consistent renaming and spelling',
 'If the tables, columns, schemas, functions, variables and parameters of a catalog, and the identifiers of a statement, are renamed consistently, the result of the analysis (statement, plan, or diagnostics with their codes and places) is the same up to that renaming. With regular identifiers in lower case (the default) the case of a regular identifier does not matter and it denotes the same as the delimited identifier in lower case; without, it denotes the delimited identifier of the same letters. Keyword case, white space and comments do not matter, and neither does the order in which the catalog declares its objects nor the presence of objects which are not referred. The names of users in GRANT and REVOKE keep their spelling.',
 ['inputs', 'configurations'], 'all statements, catalogs, consistent renamings, spellings and layouts',
 'The tests analyze each statement with a single choice of names and spelling.',
 ANALYZER, [('case normalization', 'details/analyze_name.cpp normalize_identifier, to_identifier'), ('lookup', 'details/analyze_name.cpp, relation_info.cpp, query_scope.cpp')],
 'metamorphic testing: generated documents and queries, valid or broken, are renamed, respelled and laid out in another way over a rebuilt catalog; the results are compared', ATRUST)
prop('A13', 'Parsers and analyzers may work in several threads at the same time',
 'A parser may be used by several threads at once, and so may several parsers; each thread may use its own analyzer while the analyzers of others work, over the same options, catalog, placeholders, host parameters, and syntax trees. Nobody changes what is shared: there is no data race, and each thread gets exactly the trees, plans and diagnostics which it gets alone.',
 ['schedules', 'inputs'], 'all sets of texts and statements, parser and analyzer settings, and schedules of the threads',
 'The tests never start a thread.',
 PARSER + ['src/mizugaki/analyzer/sql_analyzer.cpp', 'src/mizugaki/analyzer/sql_analyzer_impl.cpp', 'src/mizugaki/analyzer/details/analyzer_context.cpp', 'src/mizugaki/analyzer/details/analyze_name.cpp'],
 [('parsing is const and makes its own scanner and driver', 'include/mizugaki/parser/sql_parser.h operator() const'), ('the state of an analysis is in its context', 'details/analyzer_context.h'), ('trees, options and catalogs are taken as const', 'include/mizugaki/analyzer/sql_analyzer.h')],
 'generated texts parsed and analyzed by two to four threads under ThreadSanitizer, differentially against the same work done alone', ATRUST + ' Races are found by happens-before order, not by enumerating schedules.')
prop('A14', 'Trees built or changed by programs are analyzed like parsed ones',
 'Syntax trees may be built or changed by programs through the accessors of their nodes: parts replaced by copies of others, repeated, exchanged, left out where they are optional, lists emptied or extended, kinds and options set. The analysis of such a tree ends, without an exception, with exactly one result: a well-formed plan or statement, or diagnostics which have a code and a message each. It depends on the parts only: it is the same at each analysis and for any copy of the tree, and apart from locations the same for the tree without any source regions; it does not change the tree. A tree which lacks a mandatory part (a SELECT statement its query, UPDATE its SET elements, CASE its WHEN clauses, USING its columns, IN its values, CREATE TABLE its columns, CREATE INDEX its keys, GRANT and REVOKE their actions, objects or users, COALESCE its operands, NULLIF one of its two) or has contradictory options (two conflict options of INSERT, both CASCADE and RESTRICT) is rejected as malformed_syntax there.',
 ['inputs', 'programs'], 'all statements, and all sequences of edits of their trees, under all options and catalogs',
 'The tests build small trees for valid statements; trees which no text stands for are not tried but for a few.',
 ANALYZER, [('mandatory parts and options', 'malformed_syntax in details/analyze_statement.cpp, analyze_query_expression.cpp, analyze_scalar_expression.cpp'), ('accessors and copies', 'include/mizugaki/ast')],
 'generated statements edited at random accessors of their trees: well-formedness of the results, differentially against copies and against the tree without regions; emptied mandatory parts must be rejected at their place', ATRUST)
prop('A16', 'Constructs which are not implemented are reported where they are, not ignored',
 'Every construct which the grammar accepts and the analyzer does not implement makes the analysis fail with unsupported_feature at the construct, wherever in a statement it is, and none is ignored or taken for something else: TRIM, TREAT, (x AS type), CONVERT, TRANSLATE, NEXT VALUE FOR, AT LOCAL and AT TIME ZONE, OVERLAPS, UNIQUE, the operators <@, @> and &&, rows and arrays as values, element, field and method references, NEW, CURRENT OF, literals of intervals and of times with time zone, the types of intervals, rows, arrays and user-defined types, natural joins, UNION JOIN, LATERAL, UNNEST, CORRESPONDING, OUTER UNION, RECURSIVE, VALUES in IN, COLLATE and NULLS FIRST or LAST in ORDER BY, GROUP BY and keys, definitions and removals of views, schemas and sequences, TEMPORARY tables, parameters (WITH), qualified names of new tables and indexes, constraints other than NULL, NOT NULL, DEFAULT, identity and PRIMARY KEY, columns added to keys (INCLUDE), UNIQUE or partial indexes, keys which are not columns, DEFAULT values which are neither literals nor calls without arguments, CASCADE, renaming primary indexes, and qualified targets of SET. The same statement with a supported construct instead is accepted.',
 ['inputs'], 'all statements which contain one such construct at any place which the grammar allows, under all options',
 'The tests give one instance of some of the constructs, mostly by hand-made trees outside of any context, and none for those which are not mentioned in the code of the analyzer.',
 ANALYZER, [('expressions', 'details/analyze_scalar_expression.cpp'), ('queries', 'details/analyze_query_expression.cpp'), ('statements', 'details/analyze_statement.cpp'), ('types and literals', 'details/analyze_type.cpp, analyze_literal.cpp')],
 'generated valid contexts of nested expressions, queries and statements, with one construct of a table in place of a supported one: the diagnostic must be at the construct, and the statement with the supported one must be accepted', ATRUST)

NOT_APPLICABLE = []
