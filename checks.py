"""What each check runs: harness flavors, and per property its sub-checks with case counts."""

FLAVORS = {
    "h6": {"dir": "h6", "cli": "v6", "cmds": ["tsl", "tsl_parser", "tsl_mem"]},
    "h6sql": {"dir": "h6", "args": ["-tags", "withsql"]},
    "h6asan": {"dir": "h6", "args": ["-asan"], "runenv": {"ASAN_OPTIONS": "detect_leaks=0:exitcode=86:abort_on_error=0:allocator_may_return_null=1"}},
    "h6gen": {"dir": "h6", "generated": True},
    "h6genasan": {"dir": "h6", "generated": True, "args": ["-asan"], "runenv": {"ASAN_OPTIONS": "detect_leaks=0:exitcode=86:abort_on_error=0:allocator_may_return_null=1"}},
    "h5": {"dir": "h5", "version": 5},
    "h5cli": {"dir": "h5", "version": 5, "cli": "v5", "cmds": ["tsl_parser", "tsl_mem", "tsl_sqlite", "tsl_gorm", "tsl_mongo", "tsl_graphql"]},
    "h4": {"dir": "h5", "version": 4},
    "h4cli": {"dir": "h5", "version": 4, "cli": "v4", "cmds": ["tsl_parser", "tsl_mem", "tsl_sqlite", "tsl_gorm", "tsl_mongo", "tsl_graphql"]},
    "h5sql": {"dir": "h5", "version": 5, "args": ["-tags", "withsql"]},
    "h4sql": {"dir": "h5", "version": 4, "args": ["-tags", "withsql"]},
    "h5race": {"dir": "h5", "version": 5, "args": ["-race"], "runenv": {"GORACE": "exitcode=66 halt_on_error=1"}},
    "h4race": {"dir": "h5", "version": 4, "args": ["-race"], "runenv": {"GORACE": "exitcode=66 halt_on_error=1"}},
    "h6race": {"dir": "h6", "args": ["-race"], "runenv": {"GORACE": "exitcode=66 halt_on_error=1"}},
}


def sub(name, quick, thorough=None, flavor="h6", **kw):
    return dict(name=name, quick=quick, thorough=thorough or quick * 25, flavor=flavor, **kw)


def both(name, quick, thorough=None, flavor="", **kw):
    """A sub-check run for v5 and for v4."""
    return [sub("%s/v%d" % (name, v), quick, thorough, flavor="h%d%s" % (v, flavor), **kw) for v in (5, 4)]


CHECKS = {
    "C01": {
        "technique": "property-based testing: generated trees printed in many ways, parsed and compared (round trip)",
        "note": "Finds a wrong tree for any generated phrase. Trusts the printer and the precedence table of the harness, written from the README.",
        "subs": [sub("C01/tree", 240000), sub("C01/chain", 200000), sub("C01/layout", 120000)]},
    "C02": {
        "technique": "property-based testing: generated literal values spelled, parsed and compared with the value (round trip)",
        "note": "Finds a literal that changes value or kind. Trusts the harness's own number and date readers.",
        "subs": [sub("C02/string", 120000), sub("C02/number", 160000), sub("C02/ident", 80000), sub("C02/date", 80000)]},
    "C03": {
        "technique": "grammar-aware fuzzing of the parser against an independent reference parser",
        "note": "Differential against a hand-written lexer and precedence-climbing parser; a crash or hang is confirmed in a fresh process and shrunk.",
        "subs": [sub("C03/mutant", 400000), sub("C03/soup", 400000), sub("C03/bytes", 500000), sub("C03/large", 16000), sub("C03/then", 120000),
                 sub("C03/huge", 16, 320), sub("C03/asan", 160000, flavor="h6asan")]},
    "C04": {
        "technique": "property-based testing: broken phrases, error position compared with the reference parser's viable-prefix position",
        "note": "The reference parser decides where a text stops being the prefix of a phrase.",
        "subs": [sub("C04/error", 400000)]},
    "C05": {
        "technique": "property-based testing: generated trees rendered as JSON and YAML, decoded and compared (round trip)",
        "note": "Finds a rendering from which the tree cannot be rebuilt. Trusts Go's JSON decoder and yaml.v3's decoder; strings the YAML library itself does not round-trip are skipped for YAML only.",
        "subs": [sub("C05/doc", 40000)]},
    "C06": {
        "technique": "stateful (model-based) property testing of edit histories under AddressSanitizer",
        "note": "Finds a history whose trees read wrongly, touch freed memory or leak. The value model is a few lines; AddressSanitizer sees every native access of the parser and tree code.",
        "subs": [sub("C06/history", 24000, flavor="h6asan")]},
    "C07": {
        "technique": "property-based testing: generated phrases used in loops, native allocation and Go heap measured",
        "note": "Counts live native bytes through the AddressSanitizer allocator; growth must repeat in three rounds of four uses.",
        "subs": [sub("C07/loop", 24000, flavor="h6asan"), sub("C07/fresh", 120, flavor="h6asan")]},
    "C08": {
        "technique": "property-based testing of generated concurrent programs (race detector, AddressSanitizer), compared with the sequential outcome",
        "note": "Schedules are those the Go scheduler gives on this machine, many per case; the race detector sees Go accesses, AddressSanitizer the native ones.",
        "subs": [sub("C08/race", 1600, flavor="h6race", crash_is_violation=True, noshrink=True),
                 sub("C08/asan", 1600, flavor="h6asan", crash_is_violation=True, noshrink=True)]},
    "C09": {
        "technique": "property-based testing: generated phrases and records, differential against a reference evaluator",
        "note": "The reference evaluator is a few hundred lines written from the documentation; the remainder of numbers beyond 2^53 is not judged.",
        "subs": [sub("C09/typed", 160000, fuzz=1), sub("C09/pair", 160000, fuzz=1), sub("C09/wild", 80000, fuzz=1)]},
    "C10": {
        "technique": "property-based and metamorphic testing: array operators against the same phrase on each element",
        "note": "The element-wise relation uses the evaluator itself on scalars, which C09 decides; C10/typed uses the reference evaluator.",
        "subs": [sub("C10/elements", 48000, fuzz=1), sub("C10/typed", 200000)]},
    "C11": {
        "technique": "property-based testing: patterns and texts, differential against an own LIKE matcher and Go regexp",
        "note": "ILIKE is judged on letters whose case mapping is one to one.",
        "subs": [sub("C11/pattern", 160000, fuzz=1)]},
    "C12": {
        "technique": "property-based testing: generated instants in every spelling, compared as integers",
        "note": "The oracle compares seconds and nanoseconds; calendar-invalid texts go through the reference evaluator.",
        "subs": [sub("C12/instants", 24000, fuzz=1), sub("C12/invalid", 80000)]},
    "C13": {
        "technique": "property-based fuzzing with odd Go values and edited trees; metamorphic laws of logic",
        "note": "Laws compare the evaluator with itself, so they need no reference.",
        "subs": [sub("C13/odd", 120000, fuzz=1), sub("C13/laws", 24000, fuzz=1)]},
    "C14": {
        "technique": "metamorphic property-based testing: literals replaced, SQL text compared; arguments compared with the literals",
        "note": "Judges text and arguments of every generated pair; the tokens of the text are restricted to names of the phrase, keywords and operators.",
        "subs": [sub("C14/literals", 120000, fuzz=1)]},
    "C16": {
        "technique": "property-based fuzzing of parsed and edited trees; SQL text parsed back by an independent reader and compared with the tree",
        "note": "The reader uses only the precedence all SQL dialects share and rejects what they group differently.",
        "subs": [sub("C16/convert", 160000, fuzz=1)]},
    "C15": {
        "technique": "differential property-based testing: SQL run in SQLite against the in-memory evaluator",
        "note": "SQLite with case-sensitive LIKE, a REGEXP function, and MATCH standing for ILIKE; rows whose in-memory evaluation is an error (division by zero) are not judged; integer columns are compared but not divided.",
        "subs": [sub("C15/rows", 120000, flavor="h6sql")]},
    "C17": {
        "technique": "property-based testing: generated trees and mappings against a tree model, partly under AddressSanitizer",
        "note": "Mapping results are read by the harness's own parser; independence of the two trees is checked by freeing either first.",
        "subs": [sub("C17/map", 100000, fuzz=1), sub("C17/asan", 16000, flavor="h6asan")]},
    "C18": {
        "technique": "property-based testing: the DOT text is parsed by an independent reader and compared with the tree",
        "note": "The reader covers the DOT statements a drawing of nodes and edges needs, with quoted-text and record-label escapes.",
        "subs": [sub("C18/draw", 80000, fuzz=1), sub("C18/wide", 48)]},
    "C19": {
        "technique": "property-based testing of the built commands, differential against the library and a reference selection",
        "note": "Runs the commands built from the current tree as processes; books and column names are the harness's own.",
        "subs": [sub("C19/run", 20000)]},
    "C20": {
        "technique": "property-based testing: generated trees printed in many ways, parsed and compared (round trip)",
        "note": "Finds a wrong tree for any generated phrase of v4 and v5. Trusts the printer of the harness, written from the grammar.",
        "subs": both("C20/tree", 40000, fuzz=1) + both("C20/math", 16000, fuzz=1) + both("C20/logic", 16000)},
    "C21": {
        "technique": "grammar-aware fuzzing of the parsers against independent reference parsers",
        "note": "Differential against a hand-written lexer and recursive-descent parser per version.",
        "subs": both("C21/soup", 60000) + both("C21/then", 20000) + both("C21/mutant", 60000, fuzz=1) + both("C21/bytes", 40000, fuzz=1)},
    "C22": {
        "technique": "property-based testing: generated phrases and records, differential against reference evaluators",
        "note": "The reference evaluator follows the package documentation; arithmetic of null with something that is no number, and texts starting with t compared with a boolean, are not judged.",
        "subs": both("C22/typed", 60000, fuzz=1) + both("C22/wild", 40000, fuzz=1) + both("C22/match", 30000, fuzz=1)},
    "C23": {
        "technique": "property-based testing: SQL text read back by an independent reader and compared with the tree; differential against the evaluator in SQLite",
        "note": "Plain column names (in v5 the text of a quoted name reaches the SQL as it is: a known finding). Rows whose arithmetic is not finite are not judged.",
        "subs": both("C23/text", 40000, fuzz=1) + both("C23/rows", 8000, flavor="sql")},
    "C24": {
        "technique": "property-based testing: filters evaluated by an own model of the MongoDB operators, compared with the in-memory evaluator",
        "note": "The model follows the MongoDB manual for the operators used; instants are compared to the millisecond, as BSON holds them. Missing fields are judged where the phrase uses no negated operator on them.",
        "subs": both("C24/match", 40000, fuzz=1) + both("C24/forms", 40000, fuzz=1) + both("C24/list", 8000)},
    "C25": {
        "technique": "property-based testing: generated trees and mappings against a tree model",
        "note": "Exact: the mapped tree, the names asked for and the untouched original are all compared.",
        "subs": both("C25/map", 60000, fuzz=1)},
    "C26": {
        "technique": "property-based testing: DOT text parsed by an independent reader, JSON and YAML decoded, compared with the tree",
        "note": "Strings the YAML library itself does not round-trip are skipped for YAML only.",
        "subs": both("C26/draw", 40000, fuzz=1) + both("C26/doc", 30000, fuzz=1) + both("C26/wide", 40)},
    "C27": {
        "technique": "property-based testing of the built commands against the library and a reference selection",
        "note": "Runs the commands built from the current tree as processes, with their databases in a scratch folder; tsl_mongo talks to the harness's stand-in for a MongoDB server; tsl_graphql is asked over HTTP (not judged where its fixed port is taken).",
        "subs": both("C27/run", 2400, flavor="cli") + both("C27/graphql", 240, flavor="cli", shards=1)},
    "C28": {
        "technique": "property-based testing of generated concurrent programs under the race detector, compared with the sequential outcome",
        "note": "Schedules are those the Go scheduler gives on this machine, many per case.",
        "subs": both("C28/race", 800, flavor="race", crash_is_violation=True, noshrink=True)},
    "C29": {
        "technique": "grammar-aware fuzzing of the parser made afresh from its Flex and Bison sources, against the independent reference parser",
        "note": "The parser is generated in a scratch copy by the repository's own script; every judge is that of C01 to C04 and C07.",
        "subs": [sub("C29/" + n, q, flavor="h6gen") for n, q in (("tree", 60000), ("chain", 60000), ("mutant", 120000), ("soup", 120000), ("bytes", 120000), ("large", 3000),
                 ("string", 40000), ("number", 40000), ("ident", 20000), ("date", 20000), ("error", 120000))] + [sub("C29/loop", 6000, flavor="h6genasan")]},
    "C30": {
        "technique": "grammar-aware fuzzing against an independent reference parser and the errors of the generated parser",
        "note": "Exact place; where a character that begins no token follows the offence, either may be told.",
        "subs": both("C30/place", 60000, fuzz=1)},
    "C31": {
        "technique": "property-based testing: generated phrases used thousands of times with fresh names and literals, live heap measured",
        "note": "Growth must go on after some ten thousand uses; what a cache of bounded size holds does not count.",
        "subs": both("C31/grow", 64)},
    "C32": {
        "technique": "grammar-aware fuzzing of the shipped parser against an interpreter of the grammar file",
        "note": "The interpreter follows the ANTLR reference (longest token, first alternative, operator ladders); rules without named alternatives may be split or joined freely.",
        "subs": [sub("C32/phrase/v5", 40000, 500000, flavor="h5"), sub("C32/mutant/v5", 40000, 500000, flavor="h5"), sub("C32/derived/v5", 40000, 500000, flavor="h5"), sub("C32/soup/v5", 40000, 500000, flavor="h5")]},
    "C33": {
        "technique": "property-based testing: generated programs of callbacks that use the library, fail or panic, compared with the same uses alone",
        "note": "A walk that does not come back in 20 seconds is a deadlock.",
        "subs": [sub("C33/calls", 24000, noshrink=True)] + both("C33/calls", 12000, noshrink=True)},
    "C34": {
        "technique": "property-based testing: generated phrases handled under generated time zones, locales, folders and environments, compared with a plain machine (metamorphic)",
        "note": "The zone of the library is changed within the process (time.Local), that of the commands through the environment.",
        "subs": [sub("C34/zone", 24000), sub("C34/env", 1200)] + [sub("C34/zone/v5", 24000, flavor="h5"), sub("C34/zone/v4", 6000, flavor="h4")] + both("C34/env", 1200, flavor="cli")},
}
