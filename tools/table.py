TD = "abstract interpretation of writer and reader MIR over a template domain (class symbols, exhaustive case splits), writer and reader reconciled through the grammar"
TN = "Decided for the listed families of plan shapes, with class symbols for identifiers and numbers and constants at every boundary; paths the interpreter cannot follow precisely are counted as undecided, not as held."
prop("C03", "Types survive the round trip",
     "Every type of a plan that is written without a reported issue and accepted by the parser is read back as exactly the same type: same kind, same nullability at every nesting level, same parameters, same extension reference. "
     "This holds in every position a type can take (columns, casts, function results, nulls, list/map/struct elements, type parameters). Types the text format has no syntax for are reported or refused, never read back as another type; "
     "all scalar types, precision types, intervals, lists, maps, structs and user-defined types that are supported today stay supported. (The deprecated user-defined type reference equals a required user-defined type; an interval_day without precision has precision 6.)",
     ["inputs"], "every type kind, nullability, parameter and nesting, in every position",
     "Tests round-trip a few dozen types in one or two positions; the guarantee is for the product of kinds, nullabilities, parameters and positions.",
     ["src/textify/types.rs", "src/parser/types.rs", "src/parser/expression_grammar.pest"],
     [("type writer", "src/textify/types.rs"), ("type reader", "src/parser/types.rs"), ("type syntax", "src/parser/expression_grammar.pest")], TD, TN)
prop("C04", "Literals survive the round trip",
     "Every literal written without a reported issue and accepted by the parser is read back as exactly the same literal: same kind, same value to the last bit or digit, same nullability, same precision, same null type. "
     "This holds over the whole range of every kind (extreme integers, negative zero, subnormal and huge floats, dates and times from the first to the last representable, all sub-second precisions, intervals of both signs) and in every position. "
     "A literal that cannot be written faithfully is reported.",
     ["inputs"], "every literal kind and value, in every position an expression can take",
     "Tests compare a handful of values per kind; rounding, truncation, sign and range defects show only for particular values.",
     ["src/textify/expressions.rs", "src/parser/expressions.rs"],
     [("literal writer", "src/textify/expressions.rs"), ("literal reader", "src/parser/expressions.rs")], TD, TN)
prop("C05", "Relation trees survive the round trip",
     "Every plan made of the supported relations (read, virtual table, filter, project, join, cross, set, fetch, sort, aggregate, root) that is written without a reported issue is read back as the same plan: same tree, same order of inputs, same output columns in the "
     "same order, same join, set and sort kinds, same limits and offsets, same grouping sets and measures, same rows, whatever the number and nesting of its parts. Plans outside the supported shapes are reported or refused, never read back as another plan.",
     ["inputs"], "every tree of supported relations, every emit mapping, every size",
     "Tests cover chosen trees; errors in column arithmetic, ordering or thresholds appear only for particular widths, mappings and combinations of relations.",
     ["src/textify/rels.rs", "src/parser/relations.rs", "src/parser/structural.rs"],
     [("relation writer", "src/textify/rels.rs"), ("relation reader", "src/parser/relations.rs"), ("tree structure from indentation", "src/parser/structural.rs")], TD, TN)
prop("C06", "Expressions survive the round trip",
     "Every expression (field reference, literal, function call, cast, if-then) written without a reported issue and accepted by the parser is read back as the same expression: same function, same arguments in the same order, same output type, same cast target and "
     "failure behaviour, same clauses in the same order, at every nesting and in every position of every relation. Expressions that cannot be written are reported.",
     ["inputs"], "every expression tree in every position",
     "Tests round-trip single examples per expression kind; nesting, position and argument combinations are unbounded.",
     ["src/textify/expressions.rs", "src/parser/expressions.rs"],
     [("expression writer", "src/textify/expressions.rs"), ("expression reader", "src/parser/expressions.rs")], TD, TN)
prop("C07", "Names and strings survive the round trip",
     "Every table, column, root and string-literal text, whatever characters it consists of (quotes, backslashes, control characters, line breaks, keywords of the text format, non-ASCII), is written so that it reads back as exactly the same string in the same place, "
     "and can never be read as syntax. The names of extension declarations (URNs, functions, types, variations) and the version details (producer, git hash) read back unchanged or are refused or reported.",
     ["inputs"], "every string at every position of a plan that holds one",
     "Tests use a few special characters in a few positions; quoting errors depend on the exact character, its neighbours and the position.",
     ["src/textify/expressions.rs", "src/textify/types.rs", "src/parser/expressions.rs", "src/parser/expression_grammar.pest"],
     [("name and string quoting", "src/textify/types.rs, src/textify/expressions.rs"), ("unescaping", "src/parser/common.rs, src/parser/expressions.rs")], TD, TN)
prop("C09", "Nothing in a plan is dropped silently",
     "When a plan contains something the text cannot express (an unsupported relation, expression, literal or type, a field with no syntax, an undefined enum value, a missing required part), formatting reports an issue, or the parser refuses the text. "
     "It never happens that formatting reports nothing and the text reads back as a different plan.",
     ["inputs"], "every field of every message of a plan, each with every variant or a distinguishing value",
     "The protocol has hundreds of fields and variants; tests set the ones the formatter knows about.",
     ["src/textify", "src/parser"], [("failures become issues", "src/textify/foundation.rs"), ("relation writer", "src/textify/rels.rs"), ("plan writer", "src/textify/plan.rs")], TD, TN)
prop("C10", "Error markers and reported issues agree",
     "The text of a plan contains an error marker (!{...} or the nullability mark \u2049) only if an issue was reported, and whenever the formatter cannot write some part of a plan, the text shows a marker and an issue is reported. (Issues about extension declarations and about "
     "lost sub-second precision or overlarge sub-seconds of a value that is still shown need no marker.)",
     ["inputs"], "every plan, including ill-formed ones",
     "Tests check the markers of a few malformed plans; each failure branch of the writer pairs marker and issue on its own.",
     ["src/textify"], [("failure() pairs marker and issue", "src/textify/foundation.rs")], TD, TN)
prop("C19", "Output options do not change the plan",
     "Whatever the output options (showing URNs, extensions, anchors, types of literals and read columns, nullability, binaries, the virtual table row threshold, alone or combined), the text reads back as the same plan that the default text reads back as. "
     "Exempt are the options that leave information out or restructure by design: literal_types Never, show_emit, anchors Never where names are ambiguous, and an indent other than two spaces.",
     ["inputs", "configurations"], "every combination of output options, every plan",
     "Tests use two or three option sets; the options interact with each other and with every construct.",
     ["src/textify/foundation.rs", "src/textify"], [("options", "src/textify/foundation.rs")], TD, TN)
prop("C20", "Extension references always resolve to the declared extension",
     "Every function and type reference in a plan is written so that it is read back as a reference to the same declaration, with the same anchors, URNs, names and signatures for all declarations: whatever other declarations exist with the same name or base name in the same or another URN, "
     "in whatever order, with whatever anchor values. Duplicate anchors, missing URNs and dangling references are reported when formatting.",
     ["inputs"], "every set of extension declarations, every reference",
     "Tests declare two or three functions; ambiguity depends on the combination of equal names, signatures, kinds and URNs.",
     ["src/extensions/simple.rs", "src/textify/types.rs", "src/parser/extensions.rs"],
     [("name resolution", "src/extensions/simple.rs"), ("when names need signature or anchor", "src/textify/types.rs"), ("declaration sections", "src/parser/extensions.rs")], TD, TN)
prop("C13", "Parsing and formatting are deterministic",
     "For the same input, options and registered extensions, parsing and formatting return the same result every time, in every process: the plan or the error, the text, and the list and order of reported issues never depend on hash iteration order, time, environment, randomness, thread or memory addresses.",
     ["inputs", "schedules", "configurations"], "every input text or plan, every run and process",
     "A run shows one hash seed and one moment; a test that passes once cannot exclude that another process orders the same map differently.",
     ["src/lib.rs", "src/parser", "src/textify", "src/extensions"],
     [("ordered extension tables", "src/extensions/simple.rs"), ("insertion-ordered extension arguments", "src/extensions/args.rs"), ("hash containers used only for membership", "src/parser/relations.rs, src/textify/rels.rs")],
     "call-graph closure with an order-sensitivity rule for hash containers", "Decided for every body reachable from the public parse/format functions, over resolved MIR callees; dependencies and user handlers are trusted to be deterministic.")
prop("C14", "Parsing and formatting have no side effects",
     "Parsing text and formatting plans read nothing but their arguments and write nothing but their results: no file, network, environment, standard stream, global setting or shared mutable state is touched, so calls never influence each other or the process they run in.",
     ["inputs", "histories"], "every input and every sequence of calls in a process",
     "Tests compare results of single calls; an effect on the process (a log line, a global setting, a cached value) leaves those results unchanged.",
     ["src/lib.rs", "src/parser", "src/textify", "src/extensions"],
     [("no I/O outside the command line front end", "src/cli.rs"), ("per-call error queue", "src/textify/foundation.rs")],
     "call-graph closure with an effect rule (who may call I/O, globals)", "Decided for every body reachable from the public parse/format functions, over resolved MIR callees; dependencies are trusted not to perform I/O of their own.")
prop("C15", "The command line exits with zero only if everything succeeded",
     "The command line tool exits with status zero exactly when reading, parsing, formatting and writing all succeeded and no formatting issue was reported. In particular a status of zero means that the complete converted output was written and flushed.",
     ["inputs", "fault_sequences", "configurations"], "every command, every pair of formats, every input, every I/O failure",
     "Tests exercise a handful of commands on healthy files; full disks, closed pipes, decode failures in each format and their combination with formatting issues are not reachable from them.",
     ["src/cli.rs", "src/main.rs"], [("outcome of a run mapped to an exit code", "src/cli.rs"), ("main returns that code", "src/main.rs")],
     AI + " with ghost failure state", "All paths of the front end through every combination of failing and succeeding steps; what a step itself does (parser, serde, OS) is outside.")
prop("C16", "A failed command leaves the output file untouched",
     "When a conversion fails before there is output to write (unreadable input, parse error, undeterminable format, encoding error), the output destination is neither created, truncated nor written to.",
     ["inputs", "fault_sequences"], "every command, every input and every failing step before the output is written",
     "The tests run conversions in memory; none of them looks at an existing file after a failing run.",
     ["src/cli.rs"], [("output opened only after the conversion succeeded", "src/cli.rs")],
     AI + " with ghost destination state", "All paths of the front end; assumes the output path is not also the input path.")
prop("C17", "Extension registration is all-or-nothing and namespaces stay separate",
     "Registering an extension either makes it available for both parsing and formatting or, when its name or type URL is already taken in that namespace, fails and changes nothing. Relations, tables, enhancements and optimizations live in separate namespaces: each kind is parsed and formatted only with handlers registered for that kind, under exactly the registered name and type URL.",
     ["histories", "configurations"], "every sequence of registrations and lookups, every set of names and type URLs",
     "Tests register a few example types; they cannot cover every collision pattern of names and URLs between and within namespaces.",
     ["src/extensions/registry.rs"], [("conflict checks before mutation", "src/extensions/registry.rs"), ("composite keys with the namespace", "src/extensions/registry.rs")],
     AI + " with the tables as ghost state", "All paths of every public register/parse/decode method, for every outcome of every table lookup.")
prop("C18", "Extension arguments that nobody reads are rejected",
     "Decoding the arguments of an extension succeeds exactly when the extension's decoder succeeds and has read every argument present: a named or positional argument that the extension does not ask for is an error, never ignored, and arguments that were all read are never refused.",
     ["inputs", "programs"], "every extension implementation, every set of arguments, every accessor",
     "Tests use the example extensions and a few argument lists; the guarantee is for every decoder a user writes.",
     ["src/extensions/args.rs", "src/extensions/registry.rs"], [("tracking of handled arguments", "src/extensions/args.rs"), ("check after decoding", "src/extensions/args.rs")],
     AI + " over all argument/accessor scenarios", "All paths of the decoding entry points for an arbitrary witness argument, each accessor, and both decoder outcomes.")
prop("C22", "Extension payloads survive the round trip",
     "The details of extension relations (leaf, single, multi), extension tables, enhancements and optimizations survive the round trip through any registered handlers: the handler that parses the text receives exactly the arguments the handler that formatted the payload returned - "
     "same positional arguments in the same order, same named arguments under the same names in the same order, same values of the same kind (strings, integers, floats, booleans, null, enums, references, expressions, tuples, nested), same output columns - and "
     "each payload stays attached to its relation, in the same order and namespace, at every place in the tree. (An untyped scalar equals the default literal expression of its value.) Payloads without a registered handler are reported, never dropped. Enum values must be identifiers.",
     ["inputs", "programs"], "every argument list of every extension in every namespace, at every place in a plan",
     "Tests round-trip a few example extensions; values, names, positions, nesting and the combination of addenda are unbounded.",
     ["src/extensions/args.rs", "src/extensions/registry.rs", "src/textify/extensions.rs", "src/textify/rels.rs", "src/parser/extensions.rs", "src/parser/structural.rs", "src/parser/relations.rs"],
     [("argument writer", "src/textify/extensions.rs"), ("argument reader", "src/parser/extensions.rs"), ("addenda lines attached to relations", "src/parser/structural.rs, src/textify/rels.rs")],
     TD + "; extension types modelled as opaque handlers", TN)
TX = "abstract interpretation of the parser's MIR over a template domain of texts (class symbols for identifiers and numbers), with the grammar interpreted from its source"
TXN = "Decided for the listed families of texts, with class symbols for identifiers and number ranges; paths the interpreter cannot follow precisely are counted as undecided, not as held."
prop("C01", "Parsing never panics",
     "Parsing any text, however malformed, returns a plan or an error. It never panics: not on numbers too large for their field, dates and times that do not exist, cut-off lines, stray or repeated tokens, unusual characters, wrong nesting or misplaced sections.",
     ["inputs"], "every input text",
     "Tests parse a few malformed examples; a panic hides behind one particular malformed input.",
     ["src/parser", "src/extensions"], [("pest pairs unwrapped by rule", "src/parser/common.rs"), ("relations from lines", "src/parser/structural.rs"), ("literals", "src/parser/expressions.rs")], TX + "; panic paths", TXN)
prop("C02", "Formatting never panics",
     "Formatting any plan, however malformed, returns text and a list of issues. It never panics: not on missing messages, unset oneofs, undefined enum values, out-of-range numbers, dates or references, dangling anchors or inconsistent lists.",
     ["inputs"], "every plan message, including ill-formed ones",
     "Plans come from other producers and can violate every expectation; tests build well-formed plans and a few malformed ones.",
     ["src/textify", "src/extensions"], [("failures become issues", "src/textify/foundation.rs"), ("relation writer", "src/textify/rels.rs"), ("date and time arithmetic", "src/textify/expressions.rs")], TD + "; panic paths", TN)
prop("C08", "Nothing in a text is ignored silently",
     "Every part of an accepted text is reflected in the plan: when the parser accepts a text, no token, list item, argument, line, section or trailing text of it has been skipped, overridden or dropped. Text that has no meaning where it stands is an error. "
     "(Exempt are spellings of the same thing: white space, blank lines, comments after a relation, leading zeros, the u! prefix, the empty marker _ of an argument list, a repeated section heading, trailing commas of tuples, and the repetition of an expression within a grouping set.)",
     ["inputs"], "every input text",
     "Tests parse texts whose every part is expected; what the parser skips shows only when something unexpected is there.",
     ["src/parser"], [("end of line after a relation", "src/parser/expression_grammar.pest"), ("every rule's children consumed", "src/parser/common.rs"), ("lines attached to relations", "src/parser/structural.rs"), ("sections", "src/parser/extensions.rs")], TX, TXN)
prop("C11", "Numbers are held exactly or refused",
     "Every number in a text (field references, integer literals of every width, limits, offsets, anchors, URN anchors, version numbers, precisions, interval parts, extension arguments) is held by the plan as exactly that number if it fits the field it belongs to, and is refused otherwise: "
     "it is never wrapped, truncated, clamped or rounded to another number, and no number of the legal range is refused. Floats too large for their type are refused.",
     ["inputs"], "every number in every numeric place",
     "Tests use small numbers; wrapping and range errors begin at the edge of each field's range.",
     ["src/parser"], [("parse_integer", "src/parser/common.rs"), ("literals by type", "src/parser/expressions.rs"), ("precision and parameters", "src/parser/types.rs")], TX + "; number ranges as class symbols", TXN)
prop("C12", "Parse errors name the offending line",
     "When a text is refused because of one line, the error names that line's number in the input and quotes it, wherever the line is, whatever blank lines, line ends or sections precede it. (A relation written over several lines is reported from its first line.)",
     ["inputs"], "every input text with an error in any one line",
     "Tests check the line of a few errors in short texts; errors found late, when the tree is built, or after blank lines and other sections take other paths.",
     ["src/parser/structural.rs", "src/parser/errors.rs", "src/parser/extensions.rs"], [("line counting", "src/parser/structural.rs"), ("context attached to errors", "src/parser/errors.rs")], TX, TXN)
prop("C21", "Equivalent spellings mean the same plan",
     "Texts that differ only in optional white space, blank lines, line ends, comments after a relation, quotes around a name, explicit anchors or URN anchors of a function or type, explicit default literal types, leading zeros, the case of list/map/struct keywords, "
     "the order of declarations or of limit and offset, or a function's signature left out are read as the same plan, and the variations accepted today stay accepted.",
     ["inputs"], "every text and every such variation of it at every place",
     "Tests use one spelling of each construct.",
     ["src/parser/expression_grammar.pest", "src/parser"], [("optional spaces", "src/parser/expression_grammar.pest"), ("name resolution", "src/extensions/simple.rs"), ("lines and sections", "src/parser/structural.rs")], TX, TXN)
prop("C23", "What the parser accepts can be written back",
     "Every plan that the parser builds from an accepted text is formatted without an issue, and the text it is formatted as is read as the same plan. (Exempt are output references to fields the input does not have, and intervals with overlarge sub-seconds, which are reported.)",
     ["inputs"], "every accepted text",
     "Tests start from texts as the formatter writes them; the parser accepts more than that.",
     ["src/parser", "src/textify"], [("reader", "src/parser"), ("writer", "src/textify")], TD, TXN)
prop("C24", "Ill-formed texts are refused",
     "The parser refuses a text that breaks a rule of the format: undeclared, mismatched or ambiguous functions and types, duplicate or dangling declarations, unknown enum values, missing, surplus, repeated or misplaced arguments, a wrong number of inputs, "
     "literals that do not fit their type, nonexistent dates and times, misplaced roots, addenda or sections, wrong indentation, unregistered extensions.",
     ["inputs"], "every rule of the text format in every place where it applies",
     "Tests break some rules in one place each.",
     ["src/parser", "src/extensions/simple.rs"], [("relation arguments", "src/parser/relations.rs"), ("tree structure", "src/parser/structural.rs"), ("declarations", "src/parser/extensions.rs, src/extensions/simple.rs"), ("literals and types", "src/parser/expressions.rs, src/parser/types.rs")], TX, TXN)
prop("C25", "Texts mean what they say",
     "A text denotes the plan it spells out, and a plan is written as the text that spells it out, not merely as some text that reads back: '2024-02-29':date is that day of the proleptic Gregorian calendar counted from 1970-01-01; a time or timestamp is the count of its precision's units "
     "since midnight or since 1970-01-01T00:00:00, whichever of the accepted date and separator forms it is written in; interval terms are days, seconds and sub-seconds; numbers, booleans and strings (escapes resolved) are themselves; a type word, '?' and a precision name that type, "
     "nullability and precision; a join, set or sort keyword is the enumerator of that name, '::?' and '::!' the null-returning and throwing cast; $n is column n; inputs, rows, arguments, clauses, output lists, limit and offset, names, declarations and version parts mean what stands in their place.",
     ["inputs"], "every value of every kind and every position",
     "The round trip cannot see a mistake that writer and reader make in the same way, and tests compare a few literal spellings of each kind.",
     ["src/textify", "src/parser"], [("literal reader", "src/parser/expressions.rs"), ("literal writer", "src/textify/expressions.rs"), ("keywords", "src/textify/values.rs, src/parser/relations.rs, src/parser/common.rs"), ("types", "src/textify/types.rs, src/parser/types.rs")], TX, TXN)
