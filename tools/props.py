"""The listed properties; gen.py turns them into properties.jsonl and MANIFEST.json."""
P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mechanism=mechanism, observe=observe, state=state or []))


EX = "parser/src/"
PI, QI = EX + "internal/parsers_impl/", EX + "internal/parser_impl/"

prop("C01", "Composed parsers compute the value, length and status their parts define",
     "Running any composition of the public parsers (constants, elements, literals, map/filter/flat_map, sequence, skip, "
     "surround, choice, look-ahead, repetition, chains) at any offset of any input gives exactly the outcome its definition "
     "prescribes: success with the composed value and the total number of consumed elements, or failure. Filters and "
     "conversions that reject turn a success into an uncommitted failure, a sequence returns its parts' values in order and "
     "consumes the sum of their lengths, the skipping forms keep the designated side's value only, and a monadic "
     "continuation is run exactly where its predecessor stopped.",
     ["programs", "inputs"], "every finite parser expression over the public constructors and operators and every input/offset",
     "Each unit test runs one fixed one- or two-combinator expression on one input; interactions (offset bookkeeping, lengths "
     "and commit status crossing several combinators) are only reached by arbitrary compositions.",
     [QI + "operator_parser_impl.rs", QI + "parser_monad_impl.rs", QI + "parser_functor_impl.rs", QI + "skip_parser_impl.rs",
      PI + "operator_parsers_impl.rs", PI + "skip_parser_impl.rs", PI + "conversion_parsers_impl.rs", PI + "element_parsers_impl.rs",
      PI + "primitive_parsers_impl.rs", EX + "core/parse_state.rs"],
     [("flat_map advances the state by the consumed length and sums lengths", QI + "parser_monad_impl.rs"),
      ("and / skip_left / skip_right / surround", PI + "operator_parsers_impl.rs, skip_parser_impl.rs"),
      ("add_offset", EX + "core/parse_state.rs")],
     ["Parser::run result: value, length, committed status"])
prop("C02", "Choice tries the alternative exactly on uncommitted failure",
     "A choice succeeds with its left side whenever that succeeds; runs the right side from the same starting position when "
     "the left fails uncommitted; and fails with the left's failure, never trying the right, when the left fails committed. "
     "`attempt` makes any failure uncommitted and changes nothing else, and a monadic sequence that fails after its first "
     "part consumed input fails committed.",
     ["programs", "inputs"], "every parser expression with choices, commits and attempts, every input and offset",
     "Tests fix one pair of alternatives on one input; whether backtracking restarts at the right offset and whether commit "
     "status survives through surrounding combinators depends on the whole expression and input.",
     [PI + "operator_parsers_impl.rs", QI + "parser_monad_impl.rs", EX + "core/committed_status.rs", EX + "core/parse_result.rs"],
     [("or / attempt / with_uncommitted / with_committed_fallback", PI + "operator_parsers_impl.rs; " + EX + "core/parse_result.rs")],
     ["Parser::run result and committed status"])
prop("C03", "Repetition is greedy, bounded and separator-exact",
     "`repeat`, `of_many0/1`, `of_many_n_m` and `of_count` read as many elements as match, never more than the upper bound of "
     "the range (of any range form), and fail uncommitted when fewer than the lower bound were read. The separated forms "
     "read a separator between two elements only; one that no element follows is not consumed. Consumed length is exactly that of "
     "the elements and separators kept.",
     ["programs", "inputs"], "every element/separator parser that consumes, every range and every input",
     "Tests use a handful of (range, input) pairs; the bounds, the empty range and trailing separators interact for all values.",
     [PI + "repeat_parsers_impl.rs", EX + "utils/range.rs"],
     [("the repeat_sep loop", PI + "repeat_parsers_impl.rs"), ("RangeArgument bounds", EX + "utils/range.rs")],
     ["Parser::run result"])
prop("C04", "Look-ahead consumes nothing and option never fails",
     "`peek` gives its parser's value but consumes nothing; `not` (and `!`) succeeds without consuming exactly where its parser "
     "fails; `exists` always succeeds without consuming and tells whether its parser would succeed. `opt` always succeeds: "
     "with the value and length of its parser, or with none and length 0 however its parser failed.",
     ["programs", "inputs"], "every inner parser, input and offset",
     "Tests try one matching or non-matching element; the guarantee is about every inner parser, including ones that consume "
     "and then fail committed.",
     [PI + "peek_parsers_impl.rs", PI + "operator_parsers_impl.rs"],
     [("peek, not, exists, opt", PI + "peek_parsers_impl.rs, operator_parsers_impl.rs")], ["Parser::run result"])
prop("C05", "Combinators obey the functor, monad and alternative laws",
     "Both sides of each law behave alike on every input: map identity and composition, the three monad laws, choice is "
     "associative with an uncommitted failure as its unit and a success or committed failure as left zero, attempt is idempotent, "
     "sequence is associative with a unit. So do the definitional equations between forms: operators `+ - * | !` and the "
     "methods of the same meaning, surround against skips, many1 against one-then-many0, count(n) against repeat(n..=n), opt "
     "against attempt-or-nothing, exists against peek, filter fusion, collect idempotence.",
     ["programs", "inputs"], "all parsers and continuations substituted for the laws' variables, all inputs",
     "A law relates infinitely many parser pairs; no unit test in the repository relates two parsers.",
     [EX + "core/parser_functor.rs", EX + "core/parser_monad.rs", QI + "add_impl.rs", QI + "mul_parser_impl.rs",
      QI + "sub_parser_impl.rs", QI + "bitor_impl.rs", QI + "not_impl.rs", PI + "operator_parsers_impl.rs"],
     [("operator overloads delegate to the named combinators", QI)], ["two parsers' run results compared"])
prop("C06", "Element classes and element sets match exactly their members",
     "Every element predicate and class parser (alphabetic, alphanumeric, digit, digit 1-9, hexadecimal digit, space, multi-space, "
     "punctuation, control and so on) accepts exactly its ASCII class, for characters and bytes alike, consuming one element. A set "
     "given as a string, array, slice or any range form, and its negation, accepts exactly the listed (or unlisted) elements; "
     "by-reference variants agree with by-value ones.",
     ["inputs"], "all characters and bytes; all sets and ranges",
     "Tests sample a few letters per class; boundaries (':' after '9', non-ASCII, byte 0x80 and up) and half-open ends are untested.",
     [EX + "core/element.rs", EX + "utils/set.rs", PI + "element_parsers_impl.rs"],
     [("Element predicates", EX + "core/element.rs"), ("Set::to_str / contains", EX + "utils/set.rs")],
     ["Element methods, elm_* parsers"])
prop("C07", "Literals and regular expressions match at the position, in elements",
     "`seq`, `tag` and `tag_no_case` succeed exactly when the whole literal stands at the current position (ASCII case ignored "
     "by the last one for characters), consume exactly its element count. A failure at a later element that differs is committed; one at the first element, or at the end "
     "of an input that is too short, is not. "
     "`regex` succeeds exactly when its pattern, every alternative of it, matches a prefix of the remaining input, returns the matched "
     "text and consumes its number of elements, non-ASCII text included.",
     ["inputs"], "all literals, patterns, inputs and offsets",
     "Tests use one ASCII literal and one anchored pattern at offset 0.",
     [PI + "elements_parsers_impl.rs"], [("seq/tag/tag_no_case loops, regex anchoring and length", PI + "elements_parsers_impl.rs")],
     ["Parser::run result"])
prop("C08", "take, skip, take_while and take_till return the run they consume",
     "`take(n)`/`skip(n)` succeed exactly when n elements remain and consume exactly n. `take_while0/1/n_m` return the first contiguous "
     "run of matching elements, consume the input through the end of that run, and honour their minimum and maximum; "
     "`take_till0/1` return the input through the first matching element (till0: everything when there is none). The result is a "
     "slice of the caller's input.",
     ["inputs"], "all predicates, bounds, inputs and offsets",
     "Tests use one input per parser with the run at the start.",
     [PI + "taken_parsers_impl.rs", PI + "skip_parser_impl.rs"], [("index scanning", PI + "taken_parsers_impl.rs")],
     ["Parser::run result"])
prop("C09", "chain_left and chain_right associate in their direction",
     "`chain_left1` folds operands and operators to the left and `chain_right1` to the right, over the longest alternating "
     "sequence of operands and operators; the `0` forms give the default without consuming when no operand is present. An operator "
     "whose operand is missing after it consumed input is a committed failure.",
     ["inputs", "programs"], "all operand/operator parsers and inputs of any length",
     "Tests use commutative or two-operand inputs, where both directions agree.",
     [PI + "operator_parsers_impl.rs", EX + "core/parsers.rs"],
     [("chain_left1 / chain_right1 / rest loops", PI + "operator_parsers_impl.rs")], ["Parser::run result with a free operator"])
prop("C10", "collect, discard and offsets report exactly the consumed input",
     "`collect` returns the very sub-slice of the caller's input its parser consumed (same memory, same length) at any starting "
     "offset; `discard` keeps the length and drops the value. `next_offset` is the absolute position after the consumed elements and "
     "`last_offset` the one before it; failures and their commit status pass through unchanged.",
     ["programs", "inputs"], "every inner parser, input and starting offset",
     "Tests start at offset 0 with one literal.",
     [PI + "collect_parsers_impl.rs", PI + "discard_parsers_impl.rs", PI + "offset_parsers_impl.rs", EX + "core/parse_state.rs"],
     [("slice_with_len, next_offset, last_offset", EX + "core/parse_state.rs")], ["Parser::run result, slice address"])
prop("C11", "Caching, naming, logging, laziness and reuse change no result",
     "Wrapping a parser in cache, name, log or lazy changes neither value, length nor commit status, at any place of an "
     "expression, recursive grammars included. One parser value, and its clones, can be run repeatedly on different inputs, offsets and "
     "sub-slices, and gives each time the result a fresh parser gives. A cached parser evaluates its inner parser at most once per "
     "position of one input. A logged parser writes one record for each of its runs, at its level, with its name and its result.",
     ["programs", "inputs", "histories"], "every parser, every sequence of runs over inputs, sub-slices and offsets",
     "Tests run a wrapped parser once on one input; stale or mis-keyed memo entries need a history of runs or several positions.",
     [PI + "cache_parsers_impl.rs", PI + "lazy_parsers_impl.rs", PI + "logging_parsers_impl.rs"],
     [("memo table keyed by input identity and offset", PI + "cache_parsers_impl.rs")], ["results over a history of runs; call counter"],
     [dict(name="cache map", meaning="memoised results per input and position", where=PI + "cache_parsers_impl.rs")])
prop("C12", "Every failure can be inspected and printed without panicking",
     "For every failing parse on every input, and for errors built through the public constructors, rendering the error, asking its "
     "kind and taking its excerpt of the input never panics; exactly one kind predicate holds, and the excerpt lies inside the "
     "caller's input. `parse`, `parse_as_result` and running at offset 0 agree.",
     ["inputs", "programs"], "all failing parses, all offsets and lengths recorded in errors",
     "Tests format a couple of errors; excerpts at the end of input depend on offset and length together.",
     [EX + "core/parse_error.rs", QI + "parser_runner_impl.rs"], [("ParseError::input and Display", EX + "core/parse_error.rs")],
     ["ParseError accessors and Display"])
prop("C13", "Parsing bytes and parsing characters agree",
     "The same composed parser over bytes and over characters gives the same outcome, element for element, on texts whose characters "
     "all fit one byte: same success, value, consumed length and commit status.",
     ["programs", "inputs"], "every expression and every such text",
     "No test relates the two element types.",
     [EX + "core/element.rs", EX + "utils/set.rs", PI + "element_parsers_impl.rs"], [("generic over Element", EX + "core/element.rs")],
     ["two runs compared"])
prop("C14", "Grammars composed from the library accept exactly their language",
     "A JSON grammar composed from the combinators accepts exactly the JSON texts and yields the value a reference JSON decoder "
     "yields, over characters and over bytes, with any layout, escapes, nesting, and for malformed texts. Arithmetic built with chains, "
     "surround and recursion evaluates every expression to its tree's value, and separated-list grammars read exactly the fields "
     "written.",
     ["inputs"], "all texts near the grammars",
     "The examples' tests parse one document each.",
     [EX + "lib.rs", PI], [("all combinators together with lazy recursion", EX)], ["parsed value against serde_json / generated tree"])
prop("C15", "Result, state and range helpers satisfy their definitions",
     "Helpers on parse results (mapping and flat-mapping value or error, adding to a commit status, folding, converting to Result), on parse "
     "states (offsets, remaining input, slices) and on range arguments do what their names define for every argument, keep the "
     "parts they do not name unchanged, and never read outside the input.",
     ["inputs"], "all results, offsets, lengths and ranges",
     "These helpers have no tests of their own.",
     [EX + "core/parse_result.rs", EX + "core/parse_state.rs", EX + "core/committed_status.rs", EX + "utils/range.rs"],
     [("ParseResult / ParseState / CommittedStatus / RangeArgument methods", EX + "core")], ["return values"])

prop("C16", "A failure is reported by the error of the part that failed",
     "When a parser fails, the error it reports is the one of the part whose failure decided the outcome (for alternatives, the last one "
     "tried): an error handed to a failing parser comes out unchanged through every combinator; a wrong element, a wrong literal, a "
     "missing end, a refused negative look-ahead or a missing repetition is a mismatch whose offset is the place of that part (counted "
     "from 0 or 1); an input that ends within a literal, a take or a skip is incomplete; a refused conversion is a conversion error at the "
     "start of the converted part; a refused filter is a custom error; a name wraps an error that is not custom yet in one custom error that "
     "mentions the name. run and parse report the same cause. The kind of error of take_while and take_till is not specified.",
     ["inputs", "programs"], "all failing parser expressions and inputs",
     "Tests compare few errors; which of many failures is reported, and where, depends on the nesting of combinators and on the offset.",
     [EX + "internal/parsers_impl.rs", EX + "internal/parsers_impl/repeat_parsers_impl.rs", EX + "internal/parsers_impl/operator_parsers_impl.rs",
      EX + "internal/parsers_impl/elements_parsers_impl.rs", EX + "core/parse_error.rs"],
     [("ParsersImpl combinators on the failure path, ParseError", EX + "internal")], ["ParseResult::Failure error of run and parse"])

prop("C17", "Repetitions, lists and chains take inputs of any length",
     "Every repetition (repeat, many, count, with and without separators), chain of operators (to the left, to the right, with and "
     "without a default, and the rest of a chain), take, skip, literal and pattern gives over inputs of hundreds of thousands of "
     "elements what it gives over short ones: the same values in the same order, the same consumed length, the same outcome "
     "where an element, a separator or an operator is missing or one too many. It needs no more stack than a thread has by "
     "default (2 MB), however long the input is. Parsers that are themselves nested, and patterns in a repetition, are not meant.",
     ["inputs", "programs"], "all lists of up to 300,000 elements of eleven kinds, complete or spoilt at one place; slices and texts of up "
     "to 1,000,000 elements",
     "Tests parse a few elements; recursion per element, counters that wrap and work per element that grows with the input only "
     "show on inputs far longer than those of a test.",
     [PI + "repeat_parsers_impl.rs", PI + "operator_parsers_impl.rs", PI + "taken_parsers_impl.rs", PI + "elements_parsers_impl.rs", PI + "skip_parsers_impl.rs"],
     [("repeat_sep, chain_*, rest_*, take_*, seq, tag, regex", EX + "internal/parsers_impl")],
     ["ParseResult of run and parse, the process staying alive"])

CR = "crond/src/"
prop("C18", "No part is tried more often than the expression says",
     "Parsing calls the functions handed to the parsers (predicates, conversions, filters, continuations, operators, lazy results and "
     "errors) no more often, with any argument, than the definitions of the combinators do: a choice tries each alternative at most "
     "once at a place, an attempt, a look-ahead or an optional part tries its parser once, a repetition tries its element and "
     "separator once per round, a chain its operator and operand. So the work is the product of what the grammar repeats, never "
     "doubled by each level of nesting. Fewer calls are allowed.",
     ["inputs", "programs"], "every expression and input",
     "A part tried twice gives the same result, so tests of results cannot see it; nested, it makes parsing exponential.",
     [PI + "operator_parsers_impl.rs", PI + "repeat_parsers_impl.rs", EX + "internal/parsers_impl.rs", PI + "peek_parsers_impl.rs"],
     [("every combinator runs its parts", EX + "internal/parsers_impl")], ["calls of user functions with their arguments"])

prop("C19", "Parsing leaves nothing behind",
     "Memory taken for a parse is given back: running a parser again and again on one input, building, running and dropping parsers, and "
     "cloning and dropping them does not add to the memory held, whatever the expression (recursion, caches and failures included), the "
     "input and the outcome. What is set aside once, and a cache's results for inputs it has seen, are not meant.",
     ["inputs", "programs", "histories"], "every expression, input and number of runs",
     "A leak changes no result; a long-running reader of many inputs is the first to notice.",
     [EX + "core/parser.rs", PI + "cache_parsers_impl.rs", PI + "lazy_parsers_impl.rs", PI + "elements_parsers_impl.rs"],
     [("parsers are shared closures", EX + "core/parser.rs")], ["bytes allocated and not released"])

prop("C20", "Schedule texts are accepted exactly by the cron grammar, read field by field",
     "A schedule text is accepted exactly when it is five fields separated by single spaces, each `*`, `*/value`, or a comma list of "
     "values and `a-b` or `a-b/step` ranges, with values in the field's bounds (minute 0-59, hour 0-23, day 1-31, month 1-12, weekday "
     "1-7, SUN-SAT or L; a leading zero allowed for two-digit fields). The parsed expression holds exactly the written values, in "
     "order, in their fields; anything else, including trailing text, is an error and never a panic.",
     ["inputs"], "all texts", "Tests parse a few fields in isolation; combinations of field forms, bounds and whole-text rejection are open.",
     [CR + "cron_parser.rs", CR + "cron_schedule.rs"], [("instruction grammar", CR + "cron_parser.rs")],
     ["CronParser::parse, CronSchedule::new"])
prop("C21", "A schedule holds at an instant exactly when all five fields hold on its local calendar",
     "Whether a schedule is satisfied at an instant is decided by the instant's local minute, hour, day, month and weekday (1 = Sunday "
     "to 7 = Saturday) in its own time zone: all five fields must hold. `*` always holds, a value when equal, L on the field's last "
     "value (the month's real last day for days), a list when any item does, `a-b` between the bounds, `a-b/s` at a, a+s, a+2s... up to "
     "b, and `*/n` on multiples of n; a step of zero never holds.",
     ["inputs"], "all schedules, instants and time zones",
     "Tests evaluate two schedules at one instant and never restrict the weekday.",
     [CR + "cron_evaluator.rs", CR + "cron_specification.rs", CR + "lib.rs", CR + "cron_environment.rs"],
     [("visit of each field with its current and last value", CR + "cron_evaluator.rs"), ("get_days_from_month", CR + "lib.rs")],
     ["Specification::is_satisfied_by, CronEvaluator::eval"])
prop("C22", "Upcoming instants are every match from the start, in order, without gaps",
     "Iterating a schedule from a start instant yields exactly the instants start, start+1 min, start+2 min, ... at which the schedule "
     "holds, in order, none skipped or repeated, the start itself included when it matches, with its seconds and milliseconds kept. "
     "This also holds across day, month, year and time-zone-offset changes, for a cloned iterator, for several at once, however the "
     "iterator is driven (next, nth, skip, step_by), in any zone the interval is iterated in, and for a specification of the user's own.",
     ["inputs", "histories"], "all schedules, starts and zones, any number of steps",
     "The test checks five instants of one schedule.",
     [CR + "cron_interval_iterator.rs", CR + "cron_interval.rs", CR + "cron_schedule.rs"],
     [("next/proceed_next minute stepping", CR + "cron_interval_iterator.rs")], ["CronSchedule::upcoming, CronInterval::iter"],
     [dict(name="curr/next", meaning="instant last tried and next to try", where=CR + "cron_interval_iterator.rs")])
prop("C23", "A bounded interval yields exactly its matches and then ends",
     "Iterating a cron interval with a start and an end yields exactly the matching minute steps from the start that are not after "
     "the end (an instant equal to the end included). The iteration then ends, stays ended, and terminates even when nothing matches; "
     "count, last, nth and size_hint agree with it.",
     ["inputs", "histories"], "all schedules, starts and ends",
     "No test uses a finite end.",
     [CR + "cron_interval_iterator.rs", CR + "cron_interval.rs"], [("end check", CR + "cron_interval_iterator.rs")],
     ["CronInterval::new(..).iter(..)"])

UR = "uri/src/"
prop("C30", "Every RFC 3986 URI is accepted and shown as the same text",
     "Uri::parse accepts every text that is a URI by RFC 3986 (with a port, if any, of at most 65535). Displaying the result gives the "
     "parsed text back, except that an IPv6 address is shown in its canonical form, a port without leading zeros, and an empty port "
     "not at all; parsing what is displayed gives an equal value with an equal hash.",
     ["inputs"], "all URI texts", "Tests generate URIs in one shape: non-empty host, no empty port, password or value with '='.",
     [UR + "models/uri.rs", UR + "parsers/uri_parsers.rs", UR + "parsers/hier_part_parsers.rs", UR + "parsers/authority_parsers.rs",
      UR + "parsers/user_info_parsers.rs"],
     [("URI grammar", UR + "parsers/uri_parsers.rs"), ("Display of the models", UR + "models")], ["Uri::parse, Display, Eq, Hash"])
prop("C31", "A parsed URI exposes exactly the components the text has",
     "For every accepted URI, schema, authority, user name and password, host (a name, IPv4 address, IPv6 address or IPvFuture), port, "
     "path and its segments, query and fragment are exactly those of RFC 3986: the authority runs from '//' to the next '/', '?' or "
     "'#'; the user information ends at '@' and its password starts at the first ':'; a host is IPv4 only when all of it is; a "
     "component is absent exactly when its delimiter is, and an empty one is present and empty (an empty path may be None).",
     ["inputs"], "all URI texts", "Tests compare whole display strings and one worked example.",
     [UR + "models/uri.rs", UR + "models/authority.rs", UR + "models/path.rs", UR + "parsers/authority_parsers.rs", UR + "parsers/host_parsers.rs"],
     [("component parsers", UR + "parsers"), ("accessors", UR + "models/uri.rs")],
     ["schema, authority, user_info, host_name, port, path, query, fragment, is_absolute"])
prop("C32", "A text that is not a URI is rejected with an error",
     "Uri::parse returns an error for every text that is not, as a whole, a URI by RFC 3986 (illegal characters, bad percent escapes, "
     "malformed IP literals, misplaced delimiters, ports that are not digits or exceed 65535, text left over); it never panics, "
     "whatever the text, and the error can be displayed. A text without a scheme that starts with ':' is left open.",
     ["inputs"], "all texts", "No test feeds an invalid URI.",
     [UR + "models/uri.rs", UR + "parsers/uri_parsers.rs", UR + "parsers/basic_parsers.rs", UR + "parsers/port_parsers.rs"],
     [("whole-text parse", UR + "models/uri.rs"), ("character classes", UR + "parsers/basic_parsers.rs")], ["Uri::parse"])
prop("C33", "IP hosts are recognised exactly and denote the written address",
     "A host in brackets is accepted exactly when it is an IPv6 address (any of the RFC forms, with '::' anywhere and an IPv4 tail) or "
     "an IPvFuture, and the parsed IPv6 address is the one std::net reads from the same text; a host that is as a whole a dotted quad "
     "of 0-255 without leading zeros is that IPv4 address, any other name a registered name.",
     ["inputs"], "all host texts", "Tests generate the nine IPv6 productions without checking values, and never feed near misses.",
     [UR + "parsers/ip_v6_address_parsers.rs", UR + "parsers/ip_v4_address_parsers.rs", UR + "parsers/host_parsers.rs"],
     [("nine IPv6 productions", UR + "parsers/ip_v6_address_parsers.rs"), ("dec-octet", UR + "parsers/ip_v4_address_parsers.rs")],
     ["Uri::host_name"])
prop("C34", "A query is the ordered list of its parameters",
     "A query text is the list of its '&'-separated parameters, each a key and, from the first '=' on, a value. params and get_param "
     "give for each key the values of its parameters in order (none for a key without a value; absent for an absent key); add and "
     "add_opt append (add_opt nothing for None); the text of the query is the parameters joined again, and parses back to an equal query.",
     ["inputs", "histories"], "all query texts and sequences of additions", "The README example is the only multi-parameter case.",
     [UR + "models/query.rs", UR + "parsers/query_parsers.rs"], [("params/add/as_string", UR + "models/query.rs")],
     ["Query::params, get_param, add, add_opt, as_string, Display"], [dict(name="params", meaning="ordered key/value pairs", where=UR + "models/query.rs")])
prop("C35", "URIs built from model values render by RFC recomposition and read back",
     "A Uri built from Scheme, Authority (UserInfo, HostName, port), HierPart, Path, Query and fragment values displays as the "
     "RFC 3986 recomposition of its components; when those are valid, parsing that text gives the same components back. Paths made by "
     "any constructor, from strings or strs, hold the given parts, added parts go to the end in order, conversions keep the parts, and "
     "the text is the parts concatenated.",
     ["inputs", "histories"], "all component values and sequences of path additions", "Models are only built by the parser in tests.",
     [UR + "models/uri.rs", UR + "models/hier_part.rs", UR + "models/authority.rs", UR + "models/path.rs", UR + "models/user_info.rs",
      UR + "models/host_name.rs"],
     [("Display impls", UR + "models"), ("add_part/add_parts/to_rootless/to_absolute", UR + "models/path.rs")],
     ["constructors, Display, Path methods"])

prop("C36", "URIs and queries compare, hash and sort by what they say",
     "Two parsed URIs are equal exactly when their components are: the same scheme, user name and password, host (an IPv6 address by its "
     "value, everything else by its text), port number (no port and an empty one alike), path, query and fragment; each component "
     "compares on its own the same way. Equal values have equal hashes, a clone is equal to its original, and two queries, parsed or "
     "built, are ordered as their texts.",
     ["inputs"], "all pairs of URI texts with a 16-bit port and of query texts",
     "Tests compare values with the ones they expect, never two values that should differ, and no hash or order.",
     [UR + "models/uri.rs", UR + "models/authority.rs", UR + "models/query.rs", UR + "models/path.rs", UR + "models/user_info.rs", UR + "models/host_name.rs"],
     [("PartialEq, Hash, Clone, PartialOrd", UR + "models")], ["== and !=, Hash, Clone, < <= > >= of Query"])

HO = "hocon/src/"
prop("C40", "A scalar written in a document is read as exactly that value, wherever it stands",
     "null, true, false, numbers (sign, fraction, exponent; up to 28 digits), durations (number, optional blanks, short or long unit), "
     "quoted strings ('…' or \"…\" with JSON escapes) and unquoted words written as a property, in nested objects, under dotted keys or "
     "as array elements give a ConfigValue whose accessor of that kind (is_null, as_bool, as_number, as_duration, as_std_duration, "
     "as_string) returns the value and whose accessors of all other kinds return nothing.",
     ["inputs"], "all scalars of the dialect in all positions and layouts", "Tests read a dozen literals.",
     [HO + "parsers.rs", HO + "model/config_value.rs"],
     [("number/duration/string parsers", HO + "parsers.rs"), ("accessors", HO + "model/config_value.rs")],
     ["ConfigFactory::parse_from_string, ConfigValue accessors"])
prop("C41", "The tree of a document is the one written, and every path leads to its value",
     "Objects, arrays, dotted keys (a.b.c = v is the same as nested objects, siblings are kept) and quoted keys nest to any depth; "
     "get_value, has_path, contains, as_object and as_array show exactly the keys and elements written, in order for arrays; "
     "paths that are not in the document give None / false. An empty document is an empty object.",
     ["inputs"], "all documents without repeated keys, all legal paths", "Tests ask for a few paths of a few documents.",
     [HO + "parsers.rs", HO + "model.rs", HO + "model/config_value.rs", HO + "model/config_object_value.rs", HO + "model/config_array_value.rs"],
     [("property/path/object/array parsers", HO + "parsers.rs"), ("get_value/has_path", HO + "model/config_value.rs")],
     ["Config::get_value, has_path, to_config_value"])
prop("C42", "A key written again: the later value wins, objects merge",
     "When a key is written several times (directly, by dotted keys, in nested objects) the last value counts; an object written after "
     "an object merges with it key by key, and any other value in between clears what was before. push, merge_with and combine keep the "
     "history in order: to_vec lists it, latest is the last, prev_latest the one before; arrays concatenate.",
     ["inputs", "histories"], "all sequences of assignments over overlapping paths", "Tests write a key twice in a few fixed ways.",
     [HO + "model/config_value.rs", HO + "model/config_object_value.rs", HO + "model/config_array_value.rs", HO + "model/config_value_link.rs", HO + "model.rs"],
     [("merge_with/push/to_vec/latest", HO + "model/config_value.rs"), ("resolve_stage0", HO + "model.rs")],
     ["Config::get_value, ConfigValue::{push, merge_with, combine, to_vec, latest, prev_latest}"])
prop("C43", "References are replaced by what their path finally means",
     "${p} and ${?p} stand for the final value at p in the whole document (before or after, through other references, whole objects "
     "included, merged like literals), else for the environment variable p as a string; ${?p} to nothing leaves the previous value or "
     "leaves out the key or element; ${p} to nothing fails; k = ${k} is the value k had before. Values that are overwritten are not "
     "evaluated. Resolution always ends, cycles included.",
     ["inputs"], "all acyclic reference graphs over merged documents; termination for all", "Tests resolve a handful of references.",
     [HO + "model/config_value.rs", HO + "model.rs"],
     [("ConfigResolver::resolve", HO + "model/config_value.rs"), ("resolve_stage1", HO + "model.rs")],
     ["ConfigFactory::parse_from_string"])
prop("C44", "Number and duration conversions are exact or refused",
     "ConfigNumberValue converts whole numbers to each integer type exactly when they are in its range and to None otherwise, keeps "
     "From values, and gives f32/f64 to their precision; ConfigDurationValue converts value × unit to chrono and std durations to the "
     "nanosecond when in range and to an error otherwise (negative for std included); durations converted From chrono or std convert back.",
     ["inputs"], "all decimals, units and durations", "Tests convert 60 s and one day.",
     [HO + "model/config_number_value.rs", HO + "model/config_duration_value.rs", HO + "model/time_unit.rs"],
     [("to_* and From impls", HO + "model/config_number_value.rs"), ("to_duration/to_std_duration", HO + "model/config_duration_value.rs")],
     ["ConfigNumberValue, ConfigDurationValue methods"])
prop("C45", "Layout does not change the meaning of a document",
     "Blanks, line ends (LF, CRLF, CR), comments (# and //), commas or line ends between properties, trailing commas, '=', ':' or nothing "
     "before '{' and '[', braces around the root, quoted or bare keys, the kind of quotes and escapes of strings, and dotted or nested "
     "keys can be chosen freely: the resulting ConfigValue is the same.",
     ["inputs"], "all pairs of layouts of a document", "Tests use one layout per document.",
     [HO + "parsers.rs"], [("comment/space/kv/comma/object parsers", HO + "parsers.rs")],
     ["ConfigFactory::parse_from_string"])
prop("C46", "Broken documents are reported as errors, never accepted or panicking",
     "A document with a bracket, brace or quote missing or too many, with a comma before the first element or property or two in a row, "
     "or with a property that lacks its value or (unless the value is in brackets) its '=' or ':' is an error; whatever the text or the bytes of a file, parsing "
     "returns Ok or Err and does not panic (except for a required reference that leads to nothing); a missing or unreadable file is an "
     "error; loading a file equals parsing its text.",
     ["inputs", "faults"], "all texts, file contents and missing files", "Tests parse valid documents only.",
     [HO + "parsers.rs", HO + "model.rs"], [("hocon()", HO + "parsers.rs"), ("ConfigFactory", HO + "model.rs")],
     ["ConfigFactory::{load_from_file, parse_from_string}"])
prop("C47", "An include stands for the content of its file",
     "include file(\"f\") between root properties means the properties of f, merged in order with those before and after; missing files "
     "count as empty; references in included files resolve against the whole configuration; includes nest to any depth and files may be of any "
     "size; a file that includes itself, directly or not, is an error.",
     ["inputs", "faults"], "all sets of files including each other", "One test includes one file.",
     [HO + "model.rs", HO + "parsers.rs", HO + "model/config_include_value.rs"],
     [("resolve_stage0/load_include", HO + "model.rs"), ("include_config_value", HO + "parsers.rs")],
     ["ConfigFactory::load_from_file"])
prop("C48", "A displayed configuration reads back as the same configuration",
     "Display of Config and ConfigValue gives a text that parses to an equal value: strings and keys quoted and escaped as needed, "
     "numbers, durations, arrays and nested objects complete.",
     ["inputs"], "all resolved configurations", "No test reads displayed text.",
     [HO + "model/config_value.rs", HO + "model/config_object_value.rs", HO + "model/config_array_value.rs", HO + "model/config_duration_value.rs", HO + "model/time_unit.rs"],
     [("Display impls", HO + "model")], ["Config Display, ConfigFactory::parse_from_string"])

TO = "toys/src/"
prop("C50", "A toys program parses to the program written, or is an error",
     "Every program text parses to the tree it is written as: * and / bind tighter than %, then + and -, then comparisons with && and "
     "||, all of one level to the left; parentheses only group; white space and string escapes do not change the tree; an else belongs "
     "to the nearest if; identifiers may begin like keywords; for (i in a to b) s is i = a; while (i < b) { s; i = i + 1; }. A text that "
     "is no program as a whole (a bracket or quote missing or too many, anything after the last definition) is an error; no text panics.",
     ["inputs"], "all programs and all texts", "Tests parse single constructs of one token each.",
     [TO + "parsers.rs", TO + "expr.rs", TO + "operator.rs", TO + "labelled_parameter.rs"],
     [("program() and the rules below it", TO + "parsers.rs"), ("Expr constructors", TO + "expr.rs")],
     ["parsers::program"])
prop("C51", "Toys expressions evaluate as their operators say",
     "Integer arithmetic (division and remainder toward zero), comparisons, && and ||, boolean, string, array and integer literals, "
     "variables and any nesting of them give the value the operators define, shown by println as text (arrays as [a,b]); an operand of "
     "the wrong kind, a variable without value or a division by zero stops the program instead of giving a value.",
     ["inputs"], "all expressions without overflow", "No test looks at a value.",
     [TO + "interpreter.rs", TO + "values.rs", TO + "expr.rs"],
     [("Interpreter::interpret", TO + "interpreter.rs"), ("Value Display and as_*", TO + "values.rs")],
     ["standard output, value of Interpreter::call_main"])
prop("C52", "Toys statements run in order with the control flow written",
     "Assignments, println, blocks, if/else, while and for (from the first bound up to, not including, the second, the variable keeping "
     "its value) have the output and the value of the sequential meaning: the value of a block is that of its last statement, of an "
     "assignment or println its operand, of while, for, an empty block and an if without branch taken true. What was shown before an error stays shown.",
     ["inputs", "histories"], "all programs of statements that end, after any number of turns", "Tests run one block and discard its result.",
     [TO + "interpreter.rs", TO + "environment.rs", TO + "parsers.rs"],
     [("Interpreter::interpret", TO + "interpreter.rs"), ("Environment", TO + "environment.rs")],
     ["standard output, value of Interpreter::call_main, get_value, reset"])
prop("C53", "Toys functions get their arguments, return their value and keep their variables",
     "A call (positional, labelled, recursive) evaluates its arguments in the caller, binds them to the parameters, runs the body and "
     "gives its value; variables first assigned in a function end with it; variables not bound in a function are those of its caller "
     "and finally the globals (dynamic scope), and assigning to them changes them there; globals are evaluated in order, definitions "
     "may come in any order, and the program is main; of two definitions of a name the later counts. An interpreter that was "
     "reset keeps nothing of the programs it ran before, one that was not keeps their globals and functions.",
     ["inputs", "histories"], "all programs of functions and globals that end", "No test calls a function.",
     [TO + "interpreter.rs", TO + "environment.rs"],
     [("FunctionCall/LabelledCall, call_main", TO + "interpreter.rs"), ("find_binding/assign", TO + "environment.rs")],
     ["standard output, value of Interpreter::call_main"])
