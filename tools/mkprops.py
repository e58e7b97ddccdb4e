#!/usr/bin/env python3
"""Writes properties.jsonl (development tool; the file it writes is committed)."""
import json, os
P = []


def p(id, title, statement, over, text, why, files, mech, **kw):
    anchors = {"files": files, "mechanism": mech}
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": anchors})


T6 = "v6/pkg/tsl/"
W6 = "v6/pkg/walkers/"
p("C01", "v6: a phrase parses to the one tree its precedence and grouping prescribe",
  "Parsing a valid v6 phrase yields exactly the tree prescribed by the documented operator precedence and left associativity (from loosest to tightest: OR; AND; = != < <= > >= ~= ~!; IN BETWEEN LIKE ILIKE IS; + -; * / %; prefix NOT LEN ANY ALL SUM and minus), with parentheses overriding, and the forms 'not in', 'not like', 'not between', 'is not null' giving a NOT over the plain form. Operand order, list element order and every operator are preserved. Redundant parentheses, whitespace, newlines and the letter case of keywords never change the tree.",
  ["inputs", "programs"], "all trees of the language, all ways to print them (minimal or redundant parentheses, any whitespace, any keyword case, every spelling of an operator)",
  "The tests parse some dozens of hand-written phrases; precedence interactions are combinatorial in the operators and nesting and need arbitrary trees.",
  [T6 + "tsl_parser.tab.c", T6 + "lex.yy.c", T6 + "tsl_ast.c", T6 + "tsl.go", "v6/pkg/parser/tsl_parser.y", "v6/pkg/parser/tsl_lexer.l"],
  ["Bison LALR tables and semantic actions", "Flex keyword and operator rules", "AST constructors in C", "ParseTSL and the TSLNode accessors"])
p("C02", "v6: literals and identifiers keep their exact value",
  "Every literal reaches the tree with its kind and exact value: quoted strings (single, double or back quotes, with the documented escapes) keep their content byte for byte, numbers with optional sign, fraction and unit suffix (K=1000.., Ki=1024..) have the nearest double value, true/false are booleans, bare and quoted YYYY-MM-DD are dates, and bare and quoted RFC 3339 forms are timestamps. A date keeps its text; a timestamp keeps its instant, to the nanosecond, and its UTC offset. A string that is not exactly of the date or timestamp shape stays a string. Identifiers, including dots, slashes and bracketed array suffixes, are kept verbatim.",
  ["inputs"], "all string contents, numbers with every suffix and case, date and timestamp texts, identifier spellings, in every operand position",
  "Tests check a few literals each; escaping, suffix scaling and date recognition depend on the literal's full content.",
  [T6 + "lex.yy.c", "v6/pkg/parser/tsl_lexer.l", T6 + "tsl_ast.c", T6 + "tsl.go"],
  ["Flex literal rules and their C actions", "node value conversion in TSLNode.Value"])
p("C03", "v6: the parser is total and accepts exactly the language",
  "For every byte string, parsing ends and returns either a tree (when the whole text is a phrase of the documented grammar) or an error (otherwise), never both, never neither, and it never crashes the process. Nothing after the first error, after an unknown character or after a NUL byte is silently dropped. The outcome is the same for the same text every time, whatever was parsed before.",
  ["inputs", "histories"], "all byte strings: valid phrases, token-level and byte-level mutations, token soups, random bytes, very large and deeply nested texts, in any order in one process",
  "Tests try a handful of invalid phrases; rejection and crash freedom concern all the byte strings no test names, and large nested texts.",
  [T6 + "lex.yy.c", T6 + "tsl_parser.tab.c", T6 + "tsl.go", T6 + "tsl_ast.c"],
  ["Flex catch-all rule", "Bison error handling and stack limits", "parse_tsl entry point and its error string", "ParseTSL"])
p("C04", "v6: a syntax error names the place where the text stops making sense",
  "A rejected v6 phrase yields a SyntaxError that carries the input text, and whose position is the byte offset in the input of the end or start of the first token that cannot continue a valid phrase (never beyond the input, also in multi-line input). The message is not empty and the error text includes both. A later parse in the same process is not influenced by it.",
  ["inputs", "histories"], "all invalid phrases, one line or many, and every place of the first error",
  "Tests compare at most a couple of positions for single-line inputs.",
  [T6 + "errors.go", T6 + "tsl_parser.tab.c", T6 + "lex.yy.c", T6 + "tsl.go"],
  ["yyerror and location tracking in C", "SyntaxError"])
p("C05", "v6: JSON and YAML renderings carry the tree exactly",
  "Marshalling a v6 tree (of valid UTF-8 text, finite numbers and moderate depth) to JSON or YAML always succeeds and produces a well-formed document from which the tree can be rebuilt exactly: every node's type, operator, literal value and operand order, with null, false, 0 and the empty string kept apart. The JSON and YAML renderings of one tree describe the same tree.",
  ["inputs", "programs"], "all parsed, cloned and edited trees, with arbitrary string contents (quotes, control characters, non-ASCII, YAML metacharacters, numeric-looking text), numbers, lists, and partly empty operators",
  "The marshal tests compare a few fixed trees without awkward strings or partial nodes.",
  [T6 + "marshal.go", T6 + "kind.go", T6 + "operator.go", T6 + "tsl.go"],
  ["MarshalJSON and MarshalYAML of TSLNode", "names of kinds and operators"])
p("C06", "v6: tree editing follows value semantics and never corrupts memory",
  "Over any history of parse, clone, attach, detach, replace-operand and free calls made by the documented ownership rules, every tree reads back exactly as a value model predicts. A clone is independent of its original, in both directions. No read or write touches freed memory, nothing is freed twice, freeing a tree twice, and cloning or editing a nil tree, is harmless, an edit that does not fit the kind of the node is refused and changes nothing, and nothing leaks.",
  ["histories"], "all sequences of tree operations over several live trees, including nil operands and lists",
  "Ownership errors need specific interleavings of clone, edit and free; the tests only exercise isolated calls and run without a memory checker.",
  [T6 + "tsl.go", T6 + "tsl_ast.c", T6 + "tsl_ast.h"],
  ["ast_clone, ast_free, ast_attach/detach helpers in C", "TSLNode.Clone, Free, AttachLeft/Right, DetachLeft/Right"])
p("C07", "v6: repeated use does not grow memory",
  "Parsing, cloning, walking with every walker and freeing in a loop holds a bounded amount of native memory, for accepted and for rejected phrases alike: after the documented Free calls, nothing allocated for a phrase remains, in native memory or on the Go heap, also when every use brings names, texts and numbers never seen before.",
  ["inputs", "histories"], "all phrases, valid or not (errors at every place of the phrase), repeated",
  "Leaks on error paths depend on where the phrase breaks; no test measures native memory in the default suite.",
  [T6 + "tsl_parser.tab.c", T6 + "lex.yy.c", T6 + "tsl.go", T6 + "tsl_ast.c", W6 + "ident/walk.go"],
  ["Bison destructors", "Flex buffer and string allocation", "Free and finalizers", "clone in the identifier walker"])
p("C08", "v6: concurrent use gives the same results as sequential use",
  "Any number of goroutines may parse, walk, marshal, clone and free their own trees at once, and may read one shared tree at once. Each gets exactly the result it would get alone. There is no data race and no crash.",
  ["schedules", "inputs"], "all interleavings of concurrent parses (valid and invalid) and walks",
  "The tests are sequential; a race shows only under particular interleavings.",
  [T6 + "tsl.go", T6 + "tsl_parser.tab.c", T6 + "lex.yy.c", W6 + "semantics/walk.go", W6 + "graphviz/walk.go", W6 + "sql/walk.go"],
  ["global parser and lexer state in C and its mutex", "stateless walkers"])
p("C09", "v6: evaluating a phrase on a record gives the value its meaning prescribes",
  "semantics.Walk on a parsed phrase and a record returns exactly the value (or an error exactly when) an independent evaluation of the phrase prescribes: three-way comparisons on numbers, strings, booleans and dates, arithmetic, AND/OR/NOT, BETWEEN inclusive at both ends, IN as membership, IS NULL exactly for missing or nil fields, LIKE/ILIKE/regex matching. A field that is missing (the record function says so) is a KeyNotFound error. With a field that is nil, the orderings, LIKE, ILIKE, ~=, BETWEEN and IN are false, != and ~! are true, and = is true only for nil on both sides. Ordering strings and operating on values of unfitting types are errors; strings of date or RFC 3339 shape read as dates. Numeric Go types of record values do not matter. (The remainder of numbers beyond 2^53 is not specified.)",
  ["inputs", "programs"], "all well-typed and ill-typed phrases over all records with fields of every supported Go type, nil and missing",
  "The tests evaluate a table of phrases over a fixed record; operator and type combinations are a large product.",
  [W6 + "semantics/walk.go", W6 + "semantics/evaluators.go", W6 + "semantics/numeric.go", W6 + "semantics/dates.go"],
  ["Walk dispatch", "typed evaluators", "processValue conversions"])
p("C10", "v6: array operators agree with element-wise evaluation",
  "On array-valued fields ([]interface{}), a comparison applies to each element, ANY is true exactly when some element satisfies it, ALL (of a non-empty array) exactly when every element does, LEN is the number of elements, SUM the sum of numeric elements, arithmetic is element-wise, and IN with an array or with a list literal is membership. ALL of an empty array is false. These hold for every length, the empty and one-element ones included.",
  ["inputs", "programs"], "all arrays of any supported element type, all operators under ANY/ALL/LEN/SUM and combinations",
  "Tests use a few short arrays; boundary lengths and element-type mixes are not enumerable by hand.",
  [W6 + "semantics/walk.go", W6 + "semantics/evaluators.go", W6 + "semantics/numeric.go"],
  ["array broadcast in the evaluators", "any/all/len/sum evaluators"])
p("C11", "v6: LIKE and ILIKE match SQL patterns; ~= and ~! match regular expressions",
  "x LIKE p holds exactly when the whole of x matches p with % for any run (newlines included) and _ for any one character, every other character standing for itself whatever it means to a regular expression; ILIKE is the same up to letter case. x ~= p holds exactly when the regular expression p finds a match in x, and ~! is its exact negation. An invalid regular expression is an error, not a panic and not a match.",
  ["inputs"], "all texts and patterns, including regexp metacharacters, newlines, non-ASCII text, empty ones",
  "Tests use a few alphabetic patterns; metacharacters and newlines in either side are an open-ended input space.",
  [W6 + "semantics/evaluators.go", W6 + "semantics/walk.go"],
  ["translation of LIKE patterns to regexp", "regexp evaluation"])
p("C12", "v6: temporal comparisons compare instants",
  "Date and timestamp literals and record values (times, or strings of date or RFC 3339 shape) compare by the instant they denote: a date is midnight UTC and the UTC offset is taken into account, in =, !=, <, <=, >, >=, BETWEEN and IN alike. The six comparisons form one total order consistent with the instants; a calendar-invalid literal gives an error or a plain string comparison but never a panic.",
  ["inputs"], "all pairs and triples of instants written in every supported form and offset",
  "Tests compare a couple of dates in UTC.",
  [W6 + "semantics/dates.go", W6 + "semantics/evaluators.go", W6 + "semantics/walk.go"],
  ["date parsing of literals and values", "date evaluators"])
p("C13", "v6: the evaluator is total, pure and obeys the laws of logic",
  "semantics.Walk never panics, whatever the tree (also detached or hand-edited) and whatever Go values the record function returns; ill-typed operations give an error. It asks only for identifiers of the phrase, does not change the tree, and gives the same answer every time. Where every operand is a scalar and not nil, double negation, De Morgan, commutativity of AND/OR/=, the NOT forms and the expansion of BETWEEN and IN into comparisons all preserve the answer.",
  ["inputs", "programs"], "all trees and record functions, including values of unsupported Go types, nil, NaN, nested slices and maps",
  "Tests check expected values for some phrases; they state no law over all of them and feed no odd Go values.",
  [W6 + "semantics/walk.go", W6 + "semantics/evaluators.go", W6 + "semantics/numeric.go"],
  ["Walk error handling", "type switches over record values"])
p("C14", "v6: SQL text never depends on literal values",
  "The SQL that sql.Walk produces for a phrase contains no string, date, or number taken from a literal's value: such literals appear only as bound arguments, in the order of the placeholders, one placeholder per argument, with their exact values. Two phrases that differ only in literal values of the same kinds give the same SQL text.",
  ["inputs", "programs"], "all phrases and all literal values, including quotes, question marks, SQL fragments and control characters",
  "Injection safety quantifies over all literal contents; the tests compare a few SQL texts.",
  [W6 + "sql/walk.go"],
  ["conversion of nodes to squirrel expressions and placeholders"])
p("C15", "v6: the SQL selects exactly the rows the in-memory evaluator selects",
  "For every phrase in the common subset (comparisons, arithmetic, LIKE, ILIKE, regex, BETWEEN, IN, IS NULL, AND/OR/NOT on non-null scalar columns), running the WHERE clause of sql.Walk on a database table selects the same rows as semantics.Walk selects among the same records. Grouping is kept: the SQL means what the tree means for every nesting of operators.",
  ["inputs", "programs", "configurations"], "all phrases of the common subset, all tables",
  "Agreement of two back ends over all phrases and data is not reachable by comparing SQL text of samples; nothing in the v6 tests runs the SQL.",
  [W6 + "sql/walk.go", W6 + "semantics/walk.go", W6 + "semantics/evaluators.go"],
  ["operator mapping and parenthesisation in sql.Walk"])
p("C16", "v6: the SQL walker converts or refuses, and never crashes",
  "sql.Walk on any tree (parsed, edited, with missing operands, with calendar-invalid dates) either returns a filter whose ToSql succeeds, with as many placeholders as arguments, or returns an error; it never panics and never drops a part of the phrase. It does not change the tree, and every identifier of the phrase occurs in the SQL.",
  ["inputs", "programs"], "all trees of the language and all trees reachable by editing",
  "The walker has a branch per operator and operand kind; tests visit common pairs only.",
  [W6 + "sql/walk.go"],
  ["operator dispatch, literal conversion and error returns"])
p("C17", "v6: ident.Walk maps every identifier and nothing else",
  "ident.Walk returns a new tree equal to the original except that each identifier, wherever it stands (inside lists, BETWEEN bounds, function arguments and as the root), is replaced by the mapping's result; the mapping sees exactly the identifiers of the phrase. If the mapping rejects any identifier, the walk returns an error. The original tree is unchanged and independent of the result.",
  ["inputs", "programs"], "all trees and mappings (identity, renaming, swapping, partial, failing at any identifier)",
  "Tests map a few identifiers in simple positions.",
  [W6 + "ident/walk.go", T6 + "tsl.go"],
  ["recursive walk over the clone"])
p("C18", "v6: the graphviz rendering is a valid drawing of exactly the tree",
  "The text of graphviz.Walk wrapped in digraph{} is well-formed DOT for every tree, and the drawn graph is the tree: one node per tree node, labelled with its operator or its kind and value, edges from operator to operands only, node names unique. Any string content is shown escaped and cannot break out of its label.",
  ["inputs", "programs"], "all trees, string contents with quotes, braces, bars, backslashes and newlines, and large trees",
  "Tests compare output for a few phrases without special characters, and are too small for name collisions.",
  [W6 + "graphviz/walk.go"],
  ["label formatting", "node naming"])
p("C19", "v6: the command line tools report what the library says",
  "tsl, tsl_parser and tsl_mem accept exactly the phrases the library accepts, print for each output format (JSON, YAML, SQL, DOT) the library's rendering of that phrase's tree (tsl: the tree with its literals intact), or the books the phrase selects, and exit with status 0. For a rejected phrase or an evaluation error they print no rendering and no books to stdout (tsl announces the phrase it parses), an error, and exit with non-zero status.",
  ["inputs", "configurations"], "all phrases, flags and output formats",
  "No test runs the v6 commands.",
  ["v6/cmd/tsl/main.go", "v6/cmd/tsl/printer.go", "v6/cmd/tsl_parser/main.go", "v6/cmd/tsl_mem/main.go", "v6/cmd/tsl_mem/model.go", "v6/cmd/model/model.go"],
  ["flag handling, output formats and exit codes of the commands"])
V = lambda f: ["v5/" + f, "v4/" + f]
p("C20", "v4, v5: a phrase parses to the tree it prescribes, literals intact",
  "In v4 and v5, parsing a valid phrase yields the tree its precedence prescribes (NOT tighter than AND, AND tighter than OR; * / % tighter than + and -; equal operators from left to right; operand and list order kept), independent of parentheses, whitespace and keyword case. String literals keep their content (with doubled quotes unescaped), numbers their value, and in v5 booleans, dates, timestamps and unit suffixes theirs; identifiers are kept verbatim (a quoted one without its quotes in v5, with them in v4). Texts are valid UTF-8.",
  ["inputs", "programs"], "all trees of the v4 and v5 languages, all ways to print them",
  "Tests parse some dozens of phrases.",
  V("pkg/tsl/listener.go") + V("pkg/tsl/tsl.go") + V("pkg/parser/tsl_parser.go") + V("pkg/parser/tsl_lexer.go") + ["v5/TSL.g4"],
  ["ANTLR grammar", "listener that builds the tree from a stack"])
p("C21", "v4, v5: the parsers are total and accept exactly their language",
  "In v4 and v5, for every byte string ParseTSL returns a tree when the whole text is a phrase of the grammar whose operands are of the kinds their operators take (strings for LIKE, ILIKE, ~= and ~!; a number that fits a double) and an error otherwise; it never panics, never loops and never drops text. A byte that is not valid UTF-8 reads as U+FFFD. (Long chains and deep nesting take the ANTLR parser polynomial, in v4 arithmetic exponential, time; texts of moderate size are meant.)",
  ["inputs"], "all byte strings: valid phrases, mutations, token soups, random bytes",
  "Tests try a handful of invalid phrases.",
  V("pkg/tsl/tsl.go") + V("pkg/tsl/listener.go") + V("pkg/tsl/error_listener.go") + V("pkg/tsl/errors.go"),
  ["error listener", "listener stack operations on partial parse trees"])
p("C22", "v4, v5: evaluating a phrase on a record gives the value its meaning prescribes",
  "In v4 and v5, semantics.Walk on a phrase and a record returns the answer (or an error exactly when) an independent evaluation prescribes: comparisons, arithmetic, LIKE/ILIKE/regex, BETWEEN, IN, IS NULL, AND/OR/NOT, in v5 booleans and dates, with missing and nil fields as the package documents: IS NULL is true and every comparison false for a nil or missing field. BETWEEN includes both bounds, % and _ match any character including newlines, v5 dates compare as instants. Arithmetic on fields is an error in v4. An evaluation that fails never says true. It never panics, whatever Go values a record holds, and does not change the tree. (Arithmetic of null with something that is no number, and a boolean compared with a text other than t, true or one not starting with t, are not specified.)",
  ["inputs", "programs"], "all phrases and records with fields of every supported Go type, nil and missing",
  "Tests evaluate a table of phrases over a fixed record.",
  V("pkg/walkers/semantics/walk.go"),
  ["Walk and its typed comparison helpers"])
p("C23", "v4, v5: SQL is injection-free and selects what the in-memory evaluator selects",
  "In v4 and v5, sql.Walk converts every parsed phrase or returns an error, binds literal values as arguments in placeholder order (so that the text does not depend on their strings; numbers, dates and booleans inside arithmetic are written out exactly), keeps identifiers as column names, keeps the grouping of the phrase, and the WHERE clause run on a database selects the same rows as semantics.Walk selects among the same records.",
  ["inputs", "programs"], "all phrases over non-null columns with plain names, all tables of finite numbers, strings and booleans, all literal values",
  "Tests compare SQL text for samples and never run it.",
  V("pkg/walkers/sql/walk.go") + V("pkg/walkers/sql/ops.go"),
  ["conversion to squirrel expressions"])
p("C24", "v4, v5: the MongoDB filter means what the phrase means",
  "In v4 and v5, mongo.Walk turns every phrase it supports into a filter document that, under the documented meaning of the MongoDB operators it uses, selects the same records as the phrase; what it cannot express (NOT, LIKE and ILIKE, arithmetic, an identifier on the right, dates or booleans in lists, names starting with $) is an error, not a wrong filter. Literal values are carried as values with their exact content (instants to the millisecond, as BSON holds them) and cannot become operators. A missing field matches the negated operators, as in MongoDB.",
  ["inputs", "programs"], "all phrases, all records, all literal values",
  "There are no tests of the mongo walker.",
  V("pkg/walkers/mongo/walk.go"),
  ["conversion of operators to BSON documents"])
p("C25", "v4, v5: ident.Walk maps every identifier and nothing else",
  "In v4 and v5, ident.Walk returns a tree equal to the original except that each identifier is replaced by the mapping's result, the mapping sees exactly the identifiers of the phrase, a rejecting mapping gives an error, and the original tree is unchanged.",
  ["inputs", "programs"], "all trees and mappings",
  "There are no tests of the v4 and v5 ident walkers.",
  V("pkg/walkers/ident/walk.go"),
  ["recursive walk"])
p("C26", "v4, v5: graphviz and JSON renderings carry exactly the tree",
  "In v4 and v5, the graphviz rendering of any tree wrapped in digraph{} is well-formed DOT that draws exactly the tree with unique node names and escaped labels, and the JSON and YAML renderings of any tree are well-formed documents from which the tree can be rebuilt.",
  ["inputs", "programs"], "all trees, including strings with quotes, braces, bars, backslashes and control characters",
  "There are no tests of the v4 and v5 renderings.",
  V("pkg/walkers/graphviz/walk.go") + V("pkg/tsl/node.go"),
  ["label formatting and node naming", "struct tags of Node"])
p("C27", "v4, v5: the command line tools agree with the library and with each other",
  "In v4 and v5, tsl_parser prints the library's rendering of the phrase, and tsl_mem, tsl_sqlite, tsl_gorm, tsl_mongo and tsl_graphql select from the sample books exactly those that the phrase selects, under the conventions of each store (a rating that is absent is 0 in SQL; SQLite's LIKE ignores the case of ASCII letters and it has no ILIKE or regex; absent fields match negated operators in MongoDB; comparisons of mixed types are the store's affair). A rejected phrase, an unknown field, a phrase the tool cannot evaluate or a database that cannot be opened or queried gives no result, an error and a non-zero exit status (an error object in tsl_graphql).",
  ["inputs", "configurations"], "all phrases over the books' fields and all output formats",
  "No test runs the commands.",
  V("cmd/tsl_parser/main.go") + V("cmd/tsl_mem/main.go") + V("cmd/tsl_sqlite/main.go") + V("cmd/tsl_gorm/main.go") + V("cmd/tsl_mongo/main.go") + V("cmd/tsl_graphql/main.go"),
  ["flag handling, column mapping, output"])
p("C28", "v4, v5: concurrent use gives the same results as sequential use",
  "In v4 and v5, goroutines may parse and walk at once, including walking one shared tree; each gets the result it would get alone, without data race or crash.",
  ["schedules", "inputs"], "all interleavings of concurrent parses and walks",
  "The tests are sequential.",
  V("pkg/tsl/tsl.go") + V("pkg/walkers/semantics/walk.go") + V("pkg/walkers/graphviz/walk.go"),
  ["ANTLR shared caches", "package-level state"])

p("C29", "v6: the grammar sources give the parser that the documentation describes",
  "The parser that pkg/parser/build.sh makes from tsl_parser.y and tsl_lexer.l (the sources of the v6 language) accepts the documented language and nothing else, with the documented trees and literals, reports errors at the token where they are, and frees what a parse that fails or succeeds has built; that is, regenerating the parser, as its README tells, does not change what a user gets.",
  ["inputs", "configurations"], "all phrases, in the language or not",
  "Tests run the generated files that are checked in; nothing runs what the grammar in the repository gives.",
  ["v6/pkg/parser/tsl_parser.y", "v6/pkg/parser/tsl_lexer.l", "v6/pkg/parser/build.sh"],
  ["precedence and associativity declarations", "lexer rules and their order", "%destructor clauses and error actions"])

p("C30", "v4, v5: a syntax error names the place where the text stops making sense",
  "In v4 and v5 the error for a phrase that is rejected for its form reads parse error [line:column]: reason. The line counts from 1 and the column from 0, in characters; they name the first token that cannot continue a phrase, the end of the text when it stops too early, or a character that begins no token. The reason is one the parser gives. The place is never outside the text, also in texts of several lines. An earlier error or phrase has no influence on it.",
  ["inputs", "histories"], "all invalid phrases of the v4 and v5 languages, one line or many, and every place of the first error",
  "Tests only check that an error occurs.",
  V("pkg/tsl/error_listener.go") + V("pkg/tsl/errors.go") + V("pkg/tsl/tsl.go"),
  ["ErrorListener keeping one of the errors the ANTLR parser reports", "ParseError"])

p("C31", "v4, v5: repeated use does not grow memory",
  "In v4 and v5, parsing phrases and rendering, converting, mapping and evaluating them over and over holds a bounded amount of memory, for accepted and rejected phrases alike, also when every use brings names, texts and numbers never seen before.",
  ["inputs", "histories"], "all phrases, valid or not, repeated with ever new names, literals and record values",
  "No test uses a phrase more than once or measures memory.",
  V("pkg/tsl/tsl.go") + V("pkg/walkers/semantics/walk.go") + V("pkg/walkers/ident/walk.go") + V("pkg/walkers/sql/walk.go") + V("pkg/walkers/mongo/walk.go") + V("pkg/walkers/graphviz/walk.go"),
  ["package-level state", "ANTLR shared caches"])

p("C32", "v5: the grammar file describes the parser that is shipped",
  "TSL.g4, which the documentation names as the definition of the v5 language, describes the lexer and parser that are checked in: for every text, both split it into the same tokens, both accept or both reject it, and both give it the same tree of labelled alternatives. So regenerating the parser changes nothing for a user, and the grammar a reader looks up is the one in force.",
  ["inputs", "configurations"], "all texts, in the language or not",
  "Tests run the generated files that are checked in; nothing reads the grammar file.",
  ["v5/TSL.g4", "v5/pkg/parser/tsl_parser.go", "v5/pkg/parser/tsl_lexer.go"],
  ["order of the alternatives of expr and mathExp", "lexer rules and their order", "serialized ATN of the generated lexer and parser"])

p("C33", "v4, v5, v6: callbacks may use the library, fail or panic",
  "The functions a user hands to ident.Walk (new names) and semantics.Walk (field values) may use the library themselves: parse, evaluate, map, render and, in v6, clone and free other trees, walk the tree at hand with another record or mapping, and wait for another goroutine that does so. The walk outside and the uses inside give what they give alone, and they come back. When such a function fails or panics, the panic reaches the caller as it is (or the walk returns an error), and the library, and the tree, work as before.",
  ["inputs", "histories", "schedules"], "all phrases, all programs of uses within callbacks, and every call that may fail or panic",
  "Tests hand over functions that look a name up in a map.",
  ["v6/pkg/walkers/semantics/walk.go", "v6/pkg/walkers/semantics/evaluators.go", "v6/pkg/walkers/ident/walk.go", "v6/pkg/tsl/tsl.go"] + V("pkg/walkers/semantics/walk.go") + V("pkg/walkers/ident/walk.go"),
  ["calls of EvalFunc and of the check function", "package-level state and locks of the parsers and walkers"])

p("C34", "v4, v5, v6: results do not depend on the machine they are computed on",
  "What a phrase means is the same everywhere: its tree, SQL, arguments, filters, JSON, YAML and drawing (but for the random names of its nodes), its renamed copy and its value on a record are the same whatever the local time zone of the process is, also when that zone has daylight saving or the very offset a timestamp of the phrase has: a date without a zone is midnight UTC. The commands that read a phrase give the same output and exit status in every folder, time zone, locale and environment.",
  ["inputs", "configurations"], "all phrases, records, time zones, locales, folders and environments",
  "Tests run in one zone, mostly UTC, where local time and UTC cannot be told apart.",
  ["v6/pkg/tsl/tsl.go", "v6/pkg/walkers/semantics/dates.go", "v6/pkg/walkers/sql/walk.go", "v6/pkg/walkers/graphviz/walk.go", "v5/pkg/tsl/listener.go", "v5/pkg/walkers/graphviz/walk.go"] + V("cmd/tsl_parser") + V("cmd/tsl_mem") + ["v6/cmd/tsl"],
  ["time.Parse and the zone of its results", "labels of date nodes", "environment of the commands"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        x["anchors"]["mechanism"] = [{"name": m} if isinstance(m, str) else m for m in x["anchors"]["mechanism"]]
        f.write(json.dumps(x) + "\n")
