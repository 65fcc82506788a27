import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
C="serde_json_path_core/src/"; S="serde_json_path/src/"; M="serde_json_path_macros/src/"
p("C01","Structural selection returns exactly the RFC 9535 nodelist",
 "For every document and every query built from name, wildcard, index, array-slice and descendant segments, evaluation returns exactly the nodes RFC 9535 prescribes: references to the document's own nodes, in the prescribed order and with the prescribed multiplicity (duplicates kept). Negative indices count from the end; slices follow the RFC's normalisation for every start, end and step (step 0 selects nothing, a negative step runs backwards); a selector applied to a value of the wrong kind, a missing member or an out-of-range index selects nothing and is never an error. Wildcards and descendant segments visit object members in the document's own iteration order and array elements by index, and a descendant segment visits every node before that node's descendants.",
 ["inputs","programs"],"all documents × all filter-free queries (any number of segments and selectors, any legal integer)",
 "The unit tests evaluate a few dozen hand-written queries on tiny documents (the compliance suite is not even present in this checkout); no test compares identity, order and multiplicity over arbitrary slices, sizes, depths and selector combinations.",
 [C+"spec/query.rs",C+"spec/segment.rs",C+"spec/selector/mod.rs",C+"spec/selector/slice.rs",C+"spec/selector/index.rs",C+"spec/selector/name.rs"],
 [("nodelist threading from segment to segment","Query::query, "+C+"spec/query.rs"),("pre-order descent","QuerySegment::query and descend, "+C+"spec/segment.rs"),("slice bounds normalisation","Slice::bounds_on_forward_slice / bounds_on_reverse_slice, "+C+"spec/selector/slice.rs"),("index resolution","Index::query, "+C+"spec/selector/index.rs")],
 observe=["JsonPath::query → NodeList (addresses of the selected values)"])
p("C02","Filters keep exactly the children whose logical expression is true",
 "A filter selector applied to an array or object selects, in order, exactly those children for which its logical expression is true, and selects nothing when applied to any other value. A query used as a test is true exactly when it selects at least one node, whatever the value of that node (null, false, 0 and empty values included); negation, conjunction, disjunction and parentheses have their usual meaning with `!` binding tighter than `&&` and `&&` tighter than `||`. At every nesting depth `@` is the child under test by the innermost enclosing filter and `$` is the root of the whole document.",
 ["inputs","programs"],"all documents × all queries with filters (any Boolean structure, any nesting of filters inside filter queries)",
 "Tests exercise about ten filter expressions with at most two operators and one level of nesting; they do not enumerate Boolean structures against truth assignments or nest filters with rooted and relative queries.",
 [C+"spec/selector/filter.rs",S+"parser/selector/filter.rs"],
 [("filter selection","Filter::query / query_located, "+C+"spec/selector/filter.rs"),("logical evaluation","TestFilter impls for LogicalOrExpr, LogicalAndExpr, BasicExpr, ExistExpr, "+C+"spec/selector/filter.rs"),("precedence","parse_logical_or_expr, parse_logical_and, parse_basic_expr, "+S+"parser/selector/filter.rs")],
 observe=["JsonPath::query → NodeList"])
p("C03","Comparisons follow RFC 9535 for every pair of operands",
 "`==` holds exactly when both operands yield nothing, or both yield equal JSON values: numbers compared by mathematical value wherever they occur (1 equals 1.0), strings by Unicode scalar values, arrays element by element, objects as unordered collections of members. `<` holds only between two numbers (by value) or two strings (lexicographically by Unicode scalar value), and is false for any other combination of operands. `!=` is the negation of `==`, `a > b` is `b < a`, and `a <= b` (`a >= b`) holds exactly when `a < b` (`b < a`) or `a == b`, whether the operands are literals, singular queries (including negative indices, missing nodes, `$`-rooted paths) or function results.",
 ["inputs","programs"],"all pairs of comparands × the six operators × all operand forms; integers beyond 2^53 whose conversions to a double coincide are left open",
 "The tests compare a handful of pairs; equality and ordering are binary relations over all JSON values, so laws (negation, symmetry, deep equality, no ordering across types) cannot be settled by samples.",
 [C+"spec/selector/filter.rs"],
 [("equality","check_equal_to / value_equal_to / number_equal_to, "+C+"spec/selector/filter.rs"),("ordering","check_less_than / value_less_than / number_less_than, "+C+"spec/selector/filter.rs"),("operand evaluation","Comparable::as_value, SingularQuery::eval_query, "+C+"spec/selector/filter.rs")],
 observe=["JsonPath::query on filters that compare two members of each child"])
p("C04","Standard functions compute the RFC 9535 results for all arguments",
 "`length` yields the number of Unicode scalar values of a string, elements of an array or members of an object, and nothing for every other argument; `count` yields the number of nodes of its argument (duplicates included); `value` yields the single node of its argument's nodelist, and nothing if it has none or several. `match` (`search`) is true exactly when its first argument is a string and its second a string holding a valid I-Regexp that matches the entire first argument (some substring of it), and is false for every other pair of arguments, including invalid expressions and missing nodes. This holds wherever a function may be used, with literal, query and nested function arguments, and for expressions that vary from node to node.",
 ["inputs","programs"],"all argument values and forms × all documents; regular expressions range over RFC 9485 (constructs outside it, and the unescaped `^` and `$`, are left open)",
 "Tests call each function on one small document; string lengths, multiplicities, argument kinds and the space of regular expressions × subjects are infinite.",
 [S+"parser/selector/function/registry.rs",C+"spec/functions.rs"],
 [("function bodies","length, count, match_func, search, value, "+S+"parser/selector/function/registry.rs"),("argument evaluation and conversion","FunctionExprArg::evaluate and the TryFrom<JsonPathValue> impls, "+C+"spec/functions.rs")],
 observe=["JsonPath::query on filters that compare or test function results"])
p("C05","A text is accepted exactly when it is a valid RFC 9535 query",
 "Parsing succeeds exactly for the texts that are well-formed (derivable from the RFC 9535 grammar, including where blank space is and is not allowed) and valid (index and slice integers within ±(2^53−1), only known functions, each well-typed with the right number of arguments); every other text is rejected with an error. Acceptance does not depend on the document, on earlier parses, or on whether the text is parsed through the constructor, the standard string-parsing trait, or deserialization.",
 ["inputs"],"all Unicode strings; blank space inside the brackets of a singular query that is compared or passed as a value, and number literals too large for a double, are left open",
 "Tests parse a few dozen valid and invalid strings; the language is infinite, and grammar slips (one code point too many, a missing blank, a keyword prefix) sit outside what samples hit.",
 [S+"parser/mod.rs",S+"parser/segment.rs",S+"parser/selector/mod.rs",S+"parser/selector/filter.rs",S+"parser/selector/slice.rs",S+"parser/selector/function/mod.rs",S+"parser/primitive/string.rs",S+"parser/primitive/number.rs",S+"parser/primitive/int.rs",C+"spec/functions.rs"],
 [("grammar","parse_query_main and the parse_* combinators under "+S+"parser"),("well-typedness","FunctionArgType::converts_to, parse_function_expr, check_test_expr, parse_func_expr_inner, parse_function_expr_comparable"),("integer range","Integer::try_new, "+C+"spec/integer.rs")],
 observe=["JsonPath::parse → Ok/Err"])
p("C06","String and number literals denote exactly the value they spell",
 "A quoted name or string literal denotes exactly the string spelled by its characters and escapes — every two-character escape, every \\uXXXX in either letter case and every surrogate pair, in either quoting style — and a shorthand name denotes exactly its characters. So a name selector selects the member with precisely that name and no other, and a string literal equals precisely that string; no normalisation, case folding, trimming or truncation takes place. A number literal denotes the same number as the identical text in a JSON document.",
 ["inputs"],"all string literals and shorthand names over all Unicode scalar values and escape spellings; all number literals representable as finite doubles",
 "Tests decode fewer than ten literals; there are 1.1 million scalar values with several spellings each, in several syntactic positions.",
 [S+"parser/primitive/string.rs",S+"parser/primitive/number.rs",S+"parser/segment.rs"],
 [("unescaping","parse_escaped_char, parse_unicode_sequence, parse_surrogate, "+S+"parser/primitive/string.rs"),("shorthand names","parse_dot_member_name, "+S+"parser/segment.rs"),("numbers","parse_number, "+S+"parser/primitive/number.rs")],
 observe=["JsonPath::query with a document holding the decoded name or value among near misses"])
p("C07","No input makes the library panic, abort or hang",
 "For every query text — valid, malformed, truncated or random — with brackets, parentheses, filters and function calls nested up to 256 deep, and every document nested up to 256 deep, all public operations (parsing, error reporting, evaluation with and without locations, displaying, comparing, cloning, serializing and deserializing) return normally. They do not panic, overflow arithmetic, exhaust the stack a main thread has by default (or another thread, for half that nesting), or fail to terminate, and a failing operation leaves every later operation unaffected.",
 ["inputs","histories"],"all strings up to the nesting bound × all documents × all public operations",
 "Tests never feed hostile text; totality over all strings cannot be sampled by well-formed examples.",
 [S+"parser/mod.rs",S+"path.rs",S+"error.rs",C+"spec/selector/slice.rs",C+"node.rs",C+"path.rs"],
 [("error values instead of panics","JsonPath::parse, "+S+"path.rs"),("checked arithmetic","Integer::checked_*, "+C+"spec/integer.rs"),("left-factored filter parsing","parse_exist_or_comp_expr / parse_func_or_comp_expr, "+S+"parser/selector/filter.rs")],
 observe=["exit status, panics and CPU time of a supervised process"])
p("C08","All ways of running a query agree",
 "For every query and document, evaluation with locations yields the same nodes, in the same order and number, as evaluation without locations, and the extension method on values yields the same again. The result is a function of the query text and the document alone: a clone or a re-parsed copy of the query gives the same result, as does evaluating the same query repeatedly or after other documents, and an equal copy of the document gives the same result at the same locations.",
 ["inputs","histories"],"all queries × all documents × all ways of obtaining and running the query",
 "The two evaluators are separate code for every selector; the tests run the located one on only a few queries.",
 [C+"spec/query.rs",C+"spec/segment.rs",C+"spec/selector/mod.rs",C+"spec/selector/slice.rs",C+"spec/selector/index.rs",C+"spec/selector/name.rs",C+"spec/selector/filter.rs",S+"ext.rs",S+"path.rs"],
 [("parallel implementations","query and query_located of every Queryable"),("extension trait","JsonPathExt::json_path, "+S+"ext.rs")],
 observe=["JsonPath::query, JsonPath::query_located, JsonPathExt::json_path"])
p("C09","Every reported location identifies its node, canonically",
 "For every query and document, the location paired with each result node leads, element by element, from the document root to that very node. Its text is the RFC 9535 normalized path (bracketed, single-quoted, escapes exactly as the RFC requires, indices non-negative), is itself a valid query that selects exactly that node, and its JSON Pointer resolves to the same node. Its length, element access, iteration, comparison with other locations and serialization (as its text) are consistent with those elements, and two results have equal locations exactly when they are the same node.",
 ["inputs"],"all documents (arbitrary Unicode names, including quotes, backslashes, control characters, `~` and `/`) × all queries",
 "Tests check a few plain-ASCII locations; canonical escaping and identification must hold for every member name and nesting.",
 [C+"path.rs",C+"node.rs",C+"spec/segment.rs",C+"spec/selector/filter.rs"],
 [("path construction","NormalizedPath::push / clone_and_push, "+C+"path.rs"),("normalized-path text","Display for NormalizedPath and Quoted, "+C+"path.rs"),("JSON Pointer","to_json_pointer, "+C+"path.rs")],
 observe=["JsonPath::query_located → LocatedNode::location, NormalizedPath text, pointer, iteration"])
p("C10","A query's text form round-trips",
 "Displaying a parsed query gives a valid query text which parses to an equal query with the same meaning on every document, and displaying that again gives the same text. Serializing a query gives that text as a string; deserializing a string succeeds exactly when parsing it would and gives an equal query, from any self-describing or reader-based source, and deserializing anything but a string fails. Equal queries select the same nodes from every document, and parsing the same text twice gives equal queries; the default query is `$`.",
 ["inputs","programs"],"all parseable query texts (but for number literals that serde_json, in its default configuration, does not read back from the text it writes itself)",
 "One test round-trips one query; the printer must re-quote and re-parenthesise every construct of the language.",
 [S+"path.rs",C+"spec/query.rs",C+"spec/segment.rs",C+"spec/selector/filter.rs",C+"spec/selector/slice.rs",C+"spec/selector/name.rs",C+"spec/functions.rs"],
 [("printing","Display impls of Query, QuerySegment, Segment, Selector, Filter parts, Literal, FunctionExpr"),("serde","Serialize / Deserialize for JsonPath, "+S+"path.rs")],
 observe=["JsonPath Display, PartialEq, serde_json::to_value / from_value / from_str / from_reader"])
p("C11","Deduplication keeps every distinct location exactly once",
 "Deduplicating a located result, in place or by value, leaves exactly one entry for each distinct location that was present and no others, each still paired with its own node, so nodes at different locations are kept even when their values are equal. It is idempotent, both forms give the same list, the order of the outcome does not depend on the order or multiplicity of the input, and a result without duplicates keeps its length.",
 ["inputs"],"all located results (any multiplicity, any order, any mixture of depths, names and indices)",
 "One documentation example deduplicates two entries; set semantics must hold for every multiset of locations, including ones of different lengths and equal values.",
 [C+"node.rs",C+"path.rs"],
 [("sort and adjacent removal","LocatedNodeList::dedup_in_place, "+C+"node.rs"),("location order","PartialOrd for NormalizedPath and PathElement, "+C+"path.rs")],
 observe=["LocatedNodeList::dedup, dedup_in_place"])
p("C12","Result lists are coherent views of one sequence",
 "All views of a result agree with one and the same sequence of nodes: length, emptiness, first, last, positional access, iteration forwards, backwards and interleaved from both ends (with exact size hints), by-value iteration and conversion to a vector, separately iterating locations and nodes, equality, cloning and serialization. Asking for at most one or exactly one node succeeds exactly when the length permits, returns that node, and otherwise reports the actual number of nodes.",
 ["inputs"],"all result lists of any length, with and without locations × any interleaving of iterator calls",
 "Tests call these accessors on one or two list lengths and never drive the iterators from both ends.",
 [C+"node.rs"],
 [("accessors","NodeList, LocatedNodeList impls, "+C+"node.rs"),("iterators","Locations, Nodes, "+C+"node.rs"),("errors","AtMostOneError, ExactlyOneError, "+C+"node.rs")],
 observe=["NodeList, LocatedNodeList, Locations, Nodes, AtMostOneError, ExactlyOneError"])
p("C13","Custom functions are registered, type-checked and called faithfully",
 "A function registered through the attribute macro, under its own or an explicitly given name and with any number of parameters of the three parameter kinds, is usable in a query exactly where its declared parameter and result kinds permit, and rejected everywhere else. When evaluated it is called with precisely the values its arguments denote, in order: literals and nodes as values, absent nodes as nothing, complete nodelists in query order, and logical results, with nodelists converted to their existence where a logical value is expected. Its result is used faithfully: values and nothing in comparisons, truth or non-emptiness in tests, and unchanged when passed on to another function.",
 ["programs","inputs"],"all signatures over the three kinds (arity 0 to 6 and more) × all argument forms × all contexts × all documents",
 "Tests register a few functions with one or two parameters; the typing table and argument conversions are a product space.",
 [M+"lib.rs",M+"internal/common/define.rs",M+"internal/common/extract.rs",C+"spec/functions.rs",S+"parser/selector/function/mod.rs"],
 [("macro expansion","expand, "+M+"internal/common/define.rs"),("kind conversion table","FunctionArgType::converts_to, "+C+"spec/functions.rs"),("argument evaluation","FunctionExprArg::evaluate and TryFrom<JsonPathValue> impls, "+C+"spec/functions.rs"),("lookup","parse_function_expr, "+S+"parser/selector/function/mod.rs")],
 observe=["argument values recorded by spy functions; JsonPath::parse; JsonPath::query"])
p("C14","Queries are independent of threads and of history",
 "Any number of threads may parse, evaluate, display and drop queries at the same time, sharing query objects, documents and functions, including when they race for the very first use of the library in a process; every operation gives the result it would give alone, without data races or deadlocks. Results do not depend on what was parsed or evaluated before, on how often, on failed parses or panicking custom functions in between, on documents having been modified or replaced at the same address, or on functions that themselves use the library.",
 ["schedules","histories"],"all interleavings of any number of threads × all histories of earlier operations",
 "Tests only assert Send and Sync; no test runs two threads, evaluates after a caught panic, or re-uses a query on changed documents.",
 [S+"parser/selector/function/registry.rs",S+"parser/selector/function/mod.rs",C+"spec/functions.rs",M+"internal/common/define.rs",S+"path.rs"],
 [("lazily initialised function table","REGISTRY, "+S+"parser/selector/function/registry.rs"),("lazily initialised validators and evaluators","Validator / Evaluator statics, "+M+"internal/common/define.rs"),("immutability of parsed queries","JsonPath(Query), "+S+"path.rs")],
 observe=["results per thread and per history; ThreadSanitizer and Miri reports"])
p("C15","Optional features do not change what queries mean",
 "Enabling tracing (with or without a subscriber listening at the finest level), disabling the regex or custom-function support, or keeping object members in insertion order never changes the outcome of any operation that does not need the missing feature. Without regex support `match` and `search` are simply unknown functions; without custom-function support the standard functions work unchanged; with insertion-ordered objects only the order of object members follows that order.",
 ["configurations","inputs"],"all combinations of the crates' features and of the map implementation × all queries × all documents",
 "The tests run in one configuration; nothing compares two.",
 [S+"lib.rs",S+"parser/selector/function/mod.rs",S+"parser/selector/function/registry.rs",C+"spec/functions.rs",C+"spec/segment.rs","serde_json_path/Cargo.toml"],
 [("feature gates","cfg(feature = \"regex\" / \"functions\" / \"trace\") throughout "+S+" and "+C)],
 observe=["transcripts of one workload in each configuration"])
p("C16","Integers are exact within the I-JSON range and never leave it",
 "The integer type used for indices and slices can only hold values from −(2^53−1) to 2^53−1: every conversion from a wider number type or from text succeeds exactly for values in that range and preserves the value, and every other value is rejected. Its absolute value, checked addition, subtraction and multiplication equal exact arithmetic and yield nothing exactly when the true result is out of range; comparison, display and conversion back agree with the mathematical value.",
 ["inputs"],"all values of all source integer types and all pairs of operands",
 "No test touches the boundaries of the arithmetic; overflow behaviour needs extreme pairs.",
 [C+"spec/integer.rs"],
 [("range check","check_i64_is_valid, Integer::try_new, "+C+"spec/integer.rs"),("arithmetic","checked_add / checked_sub / checked_mul / abs, "+C+"spec/integer.rs")],
 observe=["serde_json_path_core::spec::integer::Integer"])
p("C17","Work stays proportional to the query, the document and the result",
 "Parsing takes time and memory about linear in the length of the text (at most times its depth of nesting), and failing to parse is no dearer. Evaluation does a bounded amount of work for each node that the query's definition makes it visit and for each test it makes of one, so nested filters, large steps, extreme slice bounds and integers do not multiply it, and small queries on small documents always finish promptly. Displaying, comparing, deduplicating and iterating cost about linearly in what they work on (deduplicating: times its logarithm).",
 ["inputs"],"all families of growing queries (nesting, repetition, prefixes of them) and documents",
 "Tests use tiny inputs on which even exponential behaviour is instantaneous.",
 [S+"parser/selector/filter.rs",S+"parser/selector/function/mod.rs",C+"spec/selector/slice.rs",C+"spec/segment.rs"],
 [("left-factored filter grammar","parse_exist_or_comp_expr / parse_func_or_comp_expr / parse_expr_argument, "+S+"parser/selector/filter.rs"),("clamped slice bounds","Slice::bounds_on_*, "+C+"spec/selector/slice.rs")],
 observe=["allocation counts and thread CPU time of supervised operations"])
p("C18","Parse errors describe the actual problem",
 "A rejected query yields an error whose position is a character boundary within the text, not past the first point at which no valid query could continue the text, and whose displayed form is `at position P, M` with exactly its position and message. When the only defect is an undefined function, a wrong number of arguments, an argument of the wrong kind, or a function whose result kind is not allowed where it is used, the message says so and names the offending function, the expected and received counts, or the argument position (counted from zero) and kinds involved. Every way of parsing (`JsonPath::parse`, `str::parse`, deserialization) reports the same error.",
 ["inputs"],"all rejected texts; for the messages, all queries with exactly one such defect in any surrounding context",
 "Tests never look at positions or messages.",
 [S+"error.rs",S+"parser/mod.rs",S+"parser/utils.rs",C+"spec/functions.rs",M+"internal/common/define.rs"],
 [("position","Error::calculate_position, "+S+"parser/mod.rs"),("error propagation","cut_with, uncut, from_external_error, "+S+"parser"),("validation errors","FunctionValidationError, "+C+"spec/functions.rs")],
 observe=["ParseError::position, message, Display"])
p("C19","The function attribute takes exactly the valid functions, as declared",
 "In a crate of any edition since 2018 that depends on serde_json_path (by that name) alone, applying the `function` attribute to a free, safe, non-async function whose parameters and result are each one of the three function types compiles, whatever the function's and the parameters' names, the paths that lead to the types and the attribute, lifetimes, where clauses, visibility, other attributes, the body, and the names in scope around it. It registers the function under its own name or the one given, with exactly its number of parameters, and leaves the function callable from Rust as it was declared. Every other definition (other parameter or result types, none, receivers, generics over types, qualifiers, malformed attribute arguments, items that are not functions) is rejected by a compile error that points at the definition, without panicking the compiler.",
 ["programs"],"all function definitions and attribute arguments; parameter patterns, other names for the types (aliases, renaming imports), 'static parameters, attribute arguments the macro does not know, and lints are left open",
 "The tests define half a dozen functions, all alike, in crates that already contain everything that the expansion may need.",
 [M+"lib.rs",M+"internal/common/define.rs",M+"internal/common/extract.rs",M+"internal/common/mod.rs","serde_json_path/src/lib.rs"],
 [("attribute arguments","FunctionMacroArgs, "+M+"internal/func/args.rs"),("extraction of types","extract_components / extract_pat_ident, "+M+"internal/common/extract.rs"),("expansion","expand, "+M+"internal/common/define.rs")],
 observe=["rustc's verdict on generated crates; the position of its errors; the behaviour of the crates it accepts"])
p("C20","Function types are faithful views of what they hold",
 "A nodelist handed to or built by a custom function holds exactly the nodes it was made of, in order and with their identity, through every way of viewing it (length, first, last, positions, iteration in both directions, at most one, exactly one, extraction, equality, cloning, conversion from lists and vectors and back). A value made of anything that converts into a JSON value holds exactly that value, a node keeps its identity when viewed or cloned, nothing has no value and equals no value, and logical values and booleans convert into each other without change. Filters that call functions written with these views keep exactly the children that the same operations on the query's own result would keep.",
 ["inputs"],"all nodelists, values and convertible types × all compositions of functions written with these views",
 "Tests use one or two of the conversions, inside functions whose results are checked on a single document.",
 [C+"spec/functions.rs",C+"node.rs","serde_json_path/src/lib.rs"],
 [("views and conversions","NodesType, ValueType, LogicalType, "+C+"spec/functions.rs"),("nodelists","NodeList, "+C+"node.rs")],
 observe=["serde_json_path::functions::{NodesType, ValueType, LogicalType}; JsonPath::query with custom functions"])
p("C21","The same on every platform and under every schedule, without undefined behaviour",
 "Parsing, evaluating, locating, displaying, serializing and integer conversions have the same outcome on every platform as on x86-64 Linux: neither the size of pointers (including indices, bounds and counts that do not fit them) nor the order of bytes in memory matters. No execution, on any platform and however the threads that use the library are scheduled (also when several are the first to use it), has undefined behaviour, a data race or a deadlock, or an outcome that differs from the one the same operations have alone.",
 ["inputs","configurations","schedules"],"all operations on platforms with 32-bit or 64-bit pointers and either byte order; all schedules of threads that share queries",
 "The tests run on one platform, and each on one thread.",
 [S+"parser/primitive/int.rs",S+"parser/primitive/string.rs",C+"spec/integer.rs",C+"spec/selector/index.rs",C+"spec/selector/slice.rs",S+"parser/selector/function/registry.rs",C+"spec/functions.rs"],
 [("conversions to and from usize","TryFrom<Integer> for usize, impl_try_from!(usize), "+C+"spec/integer.rs"),("first use of the registries","REGISTRY, "+S+"parser/selector/function/registry.rs; inventory::iter::<Function>")],
 observe=["texts of outcomes in the native and in the interpreted program; Miri's reports"])
with open('/verif/properties.jsonl','w') as f:
    for x in P:
        assert len(x["title"])<=80,x["title"]
        f.write(json.dumps(x,ensure_ascii=False)+"\n")
