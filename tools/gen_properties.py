#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single place where the properties are worded)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": list(over), "text": text}, "why_tests_cant": why,
              "anchors": {"files": ["rebulk/" + f for f in files],
                          "state": [dict(name=a, meaning=b, where="rebulk/" + c) for a, b, c in state],
                          "mechanism": [dict(name=a, where="rebulk/" + b) for a, b in mech],
                          "observe_at": list(observe), "hook_needed": None}})

p("C01", "matches() leaves the configured engine untouched",
  "Calling matches() on a Rebulk never modifies the Rebulk itself, its nested rebulks, patterns, chains, rules, default options, declared keys, any list or dict configured on them (tags, values, formatters, option dicts), module state, or the context passed by the caller. The same holds for introspection, check_keys() and the effective_* accessors. So what a call returns does not depend on which inputs were matched before.",
  ["histories", "inputs", "configurations"], "every configuration, every sequence of matches()/introspect()/check_keys() calls, every input",
  "Tests build a fresh Rebulk and call matches() once; pollution shows only on a later call with a particular configuration (tags plus a tag rule, list values, nested rebulks).",
  ["rebulk.py", "pattern.py", "chain.py", "rules.py", "processors.py", "match.py", "introspector.py"],
  [("Rebulk.effective_patterns/effective_rules/effective_keys copy before extending", "rebulk.py"), ("Match.__init__ copies tags", "match.py"), ("FunctionalPattern._match copies match kwargs", "pattern.py")],
  [("_patterns/_rules/_rebulks/_keys", "configuration of a Rebulk", "rebulk.py"), ("_match_kwargs", "per-pattern options given to each Match", "pattern.py")],
  ["Rebulk.matches", "introspect"])
p("C02", "Declaring patterns never modifies the caller's objects or shared defaults",
  "Builder calls (string, regex, functional, chain, defaults and *_defaults, declare_keys, and chain parts) never modify lists or dicts given by the caller, whether passed directly or stored earlier as defaults. Building a pattern never changes the defaults later patterns receive, and defaults set on a chain builder never reach the builder it came from, nor the reverse after the chain was opened.",
  ["programs", "configurations", "histories"], "every sequence of builder calls, every combination of shared option objects",
  "Tests check the pattern that was built, not the dicts that were passed nor the defaults left behind.",
  ["builder.py", "loose.py", "pattern.py", "chain.py", "key.py"],
  [("set_defaults merges into copies", "loose.py"), ("ChainBuilder._inherit_defaults deep-copies", "builder.py"), ("_apply_key / _inherit_keys write to fresh dicts", "builder.py"), ("filter_match_kwargs copies", "pattern.py")],
  [("_defaults, _regex_defaults, ...", "default options of a builder", "builder.py")], ["Builder.regex", "Builder.chain", "PatternFactory.defaults"])
p("C03", "Lookups of a matches sequence always agree with the sequence",
  "List operations on a matches sequence (append, insert, extend, item or slice assignment, deletion, remove, pop, clear, reverse) change it as they change a list, and after any series of them named, tagged, starting, ending, at_index, at_span, names, tags, typed-key access and max_end report exactly the matches then in the sequence, each once and in sequence order. The answer is the same whether or not a lookup had been used before the operation.",
  ["histories", "inputs"], "every interleaving of list operations and queries, matches sharing names, tags, starts and ends or not",
  "Tests perform a handful of append/remove operations; lookup tables are built lazily, so staleness needs a particular query-then-mutate order.",
  ["match.py"],
  [("_add_match", "match.py"), ("_reset_lookups", "match.py"), ("_name_dict/_tag_dict/_start_dict/_end_dict/_index_dict lazy builders", "match.py")],
  [("_delegate", "the sequence", "match.py"), ("__name_dict ...", "five lazily built lookup tables", "match.py"), ("_max_end", "largest end", "match.py")],
  ["_BaseMatches.named", "_BaseMatches.max_end"])
p("C04", "Queries on a matches sequence change nothing and return independent lists",
  "No query on a matches sequence or on a match (named, tagged, starting, ending, previous, next, range, holes, conflicting, chain_before, chain_after, at_match, at_span, at_index, names, tags, to, to_dict, all, key access, crop, split, repr) changes the sequence, its matches, or what any later query reports. A list or dict returned by a query is independent: changing it never changes the sequence, its lookups, its matches or their values.",
  ["histories", "inputs"], "every query, with present and absent names, tags and positions, followed by any other query or by mutation of the returned object",
  "Tests never mutate a returned list nor look at names/tags after a miss.",
  ["match.py", "loose.py"],
  [("queries read lookups without inserting and copy buckets", "match.py"), ("filter_index", "loose.py"), ("Match.crop/split work on deep copies", "match.py")],
  [("lookup tables", "shared buckets", "match.py")], ["_BaseMatches query methods", "Match.crop", "Match.split"])
p("C05", "Markers and regular matches never mix",
  "A match flagged marker is only ever stored in the markers sequence and any other match only in the main sequence, whichever operation stores it. A refused match leaves the sequence and its lookups unchanged, slices keep the kind of sequence they were taken from, and matches() routes each pattern result by its own marker flag.",
  ["inputs", "configurations", "histories"], "every storing operation (append, insert, extend, item and slice assignment, construction) on both kinds of sequence",
  "Tests add markers through one pattern kind only and never try a refused insertion through other operations.",
  ["match.py", "rebulk.py"],
  [("Matches._check_match / Markers._check_match", "match.py"), ("Rebulk._matches_patterns", "rebulk.py")],
  [("Matches.markers", "markers sequence", "match.py")], ["Rebulk.matches", "Matches.append"])
p("C06", "Private matches stay internal but visible to rules",
  "With default rules, the result of matches() contains no private match, and no match of any other kind is removed for privacy. Private matches remain visible to every rule that runs before the final clean-up, and conflict resolution neither removes a private match nor removes a public match because of a private one.",
  ["inputs", "configurations"], "every mix of private and public, overlapping or not, matches",
  "Tests use single private patterns without overlapping public ones.",
  ["processors.py", "pattern.py", "rebulk.py"],
  [("PrivateRemover.when", "processors.py"), ("ConflictSolver.when filters private", "processors.py"), ("POST_PROCESS priority", "processors.py")], (), ["Rebulk.matches"])
p("C07", "Conflict resolution: shorter loses, custom solvers win, no needless removal",
  "For two overlapping public matches, the one whose initiator is shorter is removed, and on equal lengths both stay. A conflict_solver set on a match decides instead: the solver of the conflicting (other) match is asked first, called as (its own match, the other), the object it returns is removed, a falsy result keeps both, and DEFAULT passes the decision on, lastly to the default solver. A match is removed only in favour of a match that was not itself already removed. Private matches take no part.",
  ["inputs", "configurations"], "every ordering of lengths and every combination of custom solver answers for a pair of matches",
  "Tests cover a few concrete strings; the decision depends on length orderings and solver answers in combination.",
  ["processors.py", "match.py"],
  [("_default_conflict_solver", "processors.py"), ("ConflictSolver.when", "processors.py"), ("_BaseMatches.conflicting", "match.py")], (), ["ConflictSolver.when"])
p("C08", "Rules run by descending priority, dependencies first, ties in registration order",
  "Rules execute in descending priority; within one priority a rule runs after the rules it depends on, and otherwise in registration order (parent rules before nested rebulks' rules). Each enabled rule is executed exactly once, two rules of one class at one priority raise ValueError, a dependency cycle raises instead of running, a dependency that is not registered is ignored, and the order never depends on hashing.",
  ["configurations", "programs"], "every assignment of priorities, dependencies and registration orders",
  "Tests use a few fixed rule sets; orders are a combinatorial space.",
  ["rules.py", "toposort.py", "rebulk.py"],
  [("Rules.execute_all_rules", "rules.py"), ("toposort_rules", "rules.py"), ("toposort", "toposort.py"), ("CustomRule.__lt__", "rules.py")], (), ["Rules.execute_all_rules"])
p("C09", "A rule acts exactly when enabled and its condition holds",
  "For each rule, the condition is evaluated only if the rule is enabled for the context, the consequence runs if and only if the condition returned something truthy, and it receives that very response with the same matches and context. A rule's consequence takes effect before the next rule's condition is evaluated, and the response is reported to the caller only for triggered rules. With a list of consequences each one runs in order with its own element of the response.",
  ["inputs", "configurations"], "every combination of enabled/condition results, single and multiple consequences given as classes or instances",
  "Tests sample some responses; the statement quantifies over every response and rule.",
  ["rules.py"], [("execute_rule", "rules.py"), ("Rule.then", "rules.py")], (), ["execute_rule", "Rule.then"])
p("C10", "Built-in consequences do what they say and keep the sequence consistent",
  "RemoveMatch removes exactly the given matches that are present, AppendMatch adds exactly those not yet present (an equal match counts as present; named with its name if any) and leaves others alone, RenameMatch, AppendTags and RemoveTags change exactly the given matches that are present. A single match and an iterable of matches are treated alike, a match's name or tags are changed only while it is outside the sequence so that lookups stay right, nothing is duplicated, and absent matches are never added by renaming or tagging.",
  ["inputs", "histories"], "every consequence, single or iterable response, matches present or absent in the sequence",
  "Tests call each consequence with one or two present matches.",
  ["rules.py", "match.py"], [("RemoveMatch/AppendMatch/RenameMatch/AppendTags/RemoveTags.then", "rules.py")], (), ["Consequence.then"])
p("C11", "Disabled rebulks, patterns and rules take no part",
  "A disabled Rebulk runs no pattern and no rule and exposes no declared keys on its result; a disabled nested rebulk contributes no patterns, rules or keys; a disabled pattern is never searched and a disabled rule never evaluated. disabled (constant or function) is evaluated with the context of the call, and everything that is not disabled does take part.",
  ["configurations", "inputs"], "every combination of disabled flags and functions at the three levels, every context",
  "Tests disable one thing at a time.",
  ["rebulk.py", "pattern.py", "rules.py"], [("effective_patterns/effective_rules/effective_keys", "rebulk.py"), ("_matches_patterns, _execute_rules", "rebulk.py"), ("Pattern.disabled", "pattern.py")], (), ["Rebulk.matches"])
p("C12", "No match is emitted unless its validators and processors accepted it",
  "A pattern emits nothing from a match whose validator, or the validator of any of its children, was applied and rejected it, or which a pre/post match processor turned into a falsy value; a match returned by a processor replaces the original. Validators apply to the parent when parents are emitted and to children when children are emitted, or to all with validate_all; formatters likewise with format_all. For validators, formatters and values alike the entry is looked up by match name, then __children__ or __parent__, then the default, and validators see the match with its value, formatter and private flag already set.",
  ["inputs", "configurations"], "every validator/processor outcome for parent and children, every option combination",
  "Tests sample a few strings and validators.",
  ["pattern.py", "chain.py"], [("Pattern._process_matches", "pattern.py"), ("Pattern._process_match and _process_match_*", "pattern.py"), ("_match_config_property_keys", "pattern.py")], (), ["Pattern.matches"])
p("C13", "children/every/private/ignore options decide what a pattern emits",
  "A pattern emits the parent match if and only if not children, or every, or private_parent, and the children if and only if children, every or private_children, in every case except those whose name is in ignore_names; the parent comes first and children follow in order. private flags every match, private_parent the parent only, private_children the children only, private_names those so named; marker and tags apply to all matches of the pattern, name to the parent and to unnamed groups.",
  ["configurations"], "all combinations of children, every, private, private_parent, private_children, private_names, ignore_names, marker",
  "Tests cover a few of the 2^7 option combinations.",
  ["pattern.py"], [("_should_include_parent/_should_include_children", "pattern.py"), ("_process_match_private", "pattern.py"), ("_process_matches", "pattern.py")], (), ["Pattern.matches"])
p("C14", "Empty matches are never produced by patterns",
  "No string, regex or functional pattern ever yields a match, or a regex group child, whose end is not after its start, and every non-empty occurrence it found is yielded. Regex groups that did not take part yield no child.",
  ["inputs", "programs"], "every pattern (including ones matching the empty string) and input",
  "Tests use patterns that match something.",
  ["pattern.py", "match.py"], [("truthiness test before each yield", "pattern.py"), ("Match.__len__", "match.py")], (), ["Pattern.matches"])
p("C15", "Positions of matches refer to the input string",
  "The span, raw text and input_string of each match produced by string, regex, functional and chain patterns, and of their children, refer to the string given to matches(): the span is the place where the occurrence was found in that string, also with ignore_case, for later parts of a chain and after a failed partial chain. A functional pattern cannot redirect a match to another string or pattern, and each regex child is linked to its parent with the span and name of its own group.",
  ["inputs", "programs"], "every input, including characters whose lower case is longer and chains that fail half way",
  "Tests check positions on ASCII inputs where chains match at the first attempt.",
  ["pattern.py", "chain.py", "utils.py", "match.py"], [("find_all", "utils.py"), ("RePattern._match, FunctionalPattern._match", "pattern.py"), ("Chain._match / _fix_matches_offset", "chain.py"), ("Match.raw", "match.py")],
  [("chain_input_string, offset", "must satisfy chain_input_string == input_string[offset:]", "chain.py")], ["Rebulk.matches"])
p("C16", "Searching always terminates",
  "Every search loop of the library makes progress on each iteration whatever the input: finding all occurrences of a string (also the empty string), scanning for the previous or next match, walking to the initiator of a match, closing nested chains, matching chains, and sorting rules by dependency.",
  ["inputs", "programs"], "every input string, pattern string and match sequence",
  "A non-terminating input is not in any test; each loop must be shown to progress on every path.",
  ["utils.py", "match.py", "chain.py", "builder.py", "toposort.py"], [("find_all", "utils.py"), ("_BaseMatches.previous/next", "match.py"), ("Match.initiator", "match.py"), ("Chain._match", "chain.py"), ("toposort", "toposort.py")], (), ["Rebulk.matches"])
p("C17", "Typed retrieval returns the named matches' values and rejects contradictions",
  "matches[key] is the value of the first match named key.name or None, all(key) the values of all such matches in order. to(model) fills each TypedDict field, and each dataclass field its constructor takes, from the matches of that name (all values for a list field, else the first, else left out), raises TypeError before building anything when a field contradicts a declared key, rejects list of structured models, raises LookupError for a scalar without match; Key refuses structured value types at construction.",
  ["inputs", "configurations"], "every model shape, declared key and match set",
  "Tests use a few models.",
  ["match.py", "key.py"], [("_BaseMatches.to / all / __getitem__", "match.py"), ("_contradicts, _element_type", "match.py"), ("Key.__post_init__", "key.py")], (), ["Matches.to", "Key"])
p("C18", "Declared keys type every pattern and the opt-in check enforces them",
  "Each pattern built after declare_keys (string, regex, functional, chain and chain parts) formats matches of a declared name with that key's converter unless the pattern sets its own formatter. When the declared-key check is on, matches() raises TypeError for any non-private match (of the sequence itself, markers are not checked) of a declared name whose formatted value is neither None nor of the declared type, exempting only literal values, and does so before any rule runs; when off it never does. check_keys() reports exactly the declared names no pattern can produce and that are not allowed as unused.",
  ["configurations", "inputs"], "every pattern kind and declared key, check on and off",
  "Tests check regex patterns mostly.",
  ["builder.py", "rebulk.py", "match.py", "debug.py"], [("PatternFactory._inherit_keys", "builder.py"), ("Rebulk.matches ordering", "rebulk.py"), ("check_declared_keys", "match.py"), ("check_keys, _producible_names", "rebulk.py")], (), ["Rebulk.matches", "Rebulk.check_keys"])
p("C19", "Options: explicit beats kind defaults beats general defaults, on every builder",
  "For every kind of pattern an option given explicitly wins over the default of that kind, which wins over the general default; list options are concatenated (general, kind, explicit) and dict options merged with the same precedence; overrides restores explicit values and clear discards. A kind's defaults never apply to another kind. Builders opened for a chain or nested chain start with the defaults and declared keys of the builder they come from.",
  ["programs", "configurations"], "every pattern kind, option and nesting of builders",
  "Tests cover some kinds; the four kinds must agree.",
  ["builder.py", "loose.py"], [("build_re/build_string/build_functional/build_chain", "builder.py"), ("set_defaults, overrides", "builder.py"), ("_inherit_defaults", "builder.py")], (), ["Builder.regex", "ChainBuilder.regex"])
p("C20", "Errors raised by user callbacks reach the caller unchanged",
  "An exception raised by any user supplied function (functional pattern, formatter, validator, match or post processor, conflict solver, rule condition, consequence or enabled test, disabled function, predicate, chain breaker) propagates out of the library call unchanged; the library never swallows or replaces it, whatever its type (only a StopIteration may become the RuntimeError of Python's generators; it is never taken for the end of an iteration).",
  ["fault_sequences", "inputs"], "every callback at every call, every exception type",
  "Tests have almost no raising callbacks.",
  ["rebulk.py", "pattern.py", "chain.py", "rules.py", "processors.py", "match.py", "loose.py", "utils.py"], [("no except clause encloses a callback with a type the callback may raise", "*")], (), ["Rebulk.matches"])
p("C21", "Results never depend on hash or identity order",
  "The order of matches, of query results, of rule executions, of introspected values and of reported key names never depends on the iteration order of a set or on object identities: repeated runs in different processes give the same order.",
  ["configurations", "schedules"], "every hash seed and memory layout",
  "Tests run with a fixed hash seed and compare small results.",
  ["rules.py", "toposort.py", "processors.py", "utils.py", "rebulk.py", "match.py", "introspector.py"], [("sorted(rules_group, key=self.index)", "rules.py"), ("sorted() in check_keys", "rebulk.py"), ("dict.fromkeys in named", "match.py")], (), ["Rebulk.matches", "Rebulk.check_keys"])
p("C22", "Debug and logging settings never change results",
  "Turning debug locations on or off, changing the global or per-object log level, or the logging configuration, never changes which matches are found, their order, spans, names, tags or values, nor makes a call fail; log levels given to patterns and rules are honoured.",
  ["configurations"], "every debug and log setting",
  "Tests check debug output on one example.",
  ["debug.py", "pattern.py", "rules.py", "rebulk.py", "match.py", "processors.py"], [("debug.defined_at", "debug.py"), ("log_level", "pattern.py")], (), ["Rebulk.matches"])
p("C23", "Match equality, hashing and ordering are lawful",
  "Two matches are equal exactly when their span, value, name and parent are equal; != is the exact negation; equal matches have equal hashes, and changing the value, name, tags or private flag of a match never changes its hash. <, >, <= and >= are exactly the orders of spans, and a comparison with something that is not a match is left to the other operand.",
  ["inputs"], "every pair of matches",
  "Laws over all pairs; tests compare a few.",
  ["match.py"], [("Match.__eq__/__ne__/__hash__/__lt__/...", "match.py")], (), ["Match"])
p("C24", "Range, conflict and position queries use exact half-open overlap",
  "For non-empty matches and ranges, range(start, end) returns exactly the matches that overlap the half-open range, sorted by span; conflicting(match) exactly the matches different from it that share at least one position with it, equal ones counted once; at_index(i) exactly those containing position i. crop() by non-empty spans returns exactly the pieces of the match outside of them, without empty pieces.",
  ["inputs"], "every relative ordering of the bounds",
  "Boundary cases (touching, nested, equal bounds) multiply; tests have a few.",
  ["match.py"], [("range", "match.py"), ("conflicting", "match.py"), ("crop", "match.py"), ("_index_dict", "match.py")], (), ["Matches.range", "Match.crop"])
p("C25", "to_dict has a predictable shape",
  "to_dict maps each name to its matches in span order: with enforce_list every value is a list without exception, with first_value every name maps to its first value only, with details values are the match objects, and otherwise a name maps to a single value, or to a list once it has several distinct values, with no value twice (values that are lists themselves apart). The matches view lists every match of each name.",
  ["inputs", "configurations"], "every option combination and multiplicity of equal or distinct values",
  "Tests use a few combinations.",
  ["match.py"], [("_BaseMatches.to_dict", "match.py")], (), ["Matches.to_dict"])
p("C26", "Introspection reports exactly the public names patterns and rules declare",
  "Introspection lists each enabled-rebulk pattern that is neither private nor a marker and each rule once; for a pattern its declared properties, else its literal values, else its strings (string patterns) or its public names and regex groups (regex and functional patterns; the parts of chains are not inspected), and the merged view is the union of all of them without duplicates.",
  ["configurations"], "every configuration of string, regex and functional patterns",
  "Tests introspect a few rebulks.",
  ["introspector.py"], [("PatternDescription, RuleDescription, Introspection", "introspector.py")], (), ["introspect"])
p("C27", "Every query honours predicate and index the same way",
  "For every query accepting predicate and index, the result is the query's list filtered by predicate (truthy results kept, in order), then, if an index is given (as index, or as an integer in place of the predicate where that is allowed), the element at that index, or None when there is none. (The predicate of chain_before and chain_after filters the matches that are walked, before the walk.)",
  ["inputs"], "all queries of matches sequences and of matches, every predicate and index",
  "Tests use predicate or index on a few of the queries.",
  ["match.py", "loose.py"], [("filter_index", "loose.py")], (), ["_BaseMatches query methods", "Match.crop", "Match.split"])
p("C28", "The value of a match is its literal, else its formatted raw text",
  "Match.value is the literal value when a (truthy) one is set, else the formatter applied to the raw text of the match, else that raw text; raw is the (non-empty) input string between raw start and raw end, which default to start and end. formatters() applies its functions in order, validators() accepts exactly when all of its functions accept, and chars_before/chars_after/chars_surround accept at the ends of the string or when the neighbouring character is allowed.",
  ["inputs"], "every match, formatter and validator",
  "Tests use sample strings.",
  ["match.py", "formatters.py", "validators.py"], [("Match.value/raw/raw_start/raw_end", "match.py"), ("formatters", "formatters.py"), ("validators, chars_*", "validators.py")], (), ["Match.value"])
p("C29", "One regular expression backend, chosen by the environment only",
  "All patterns of a process use the same regular expression module: the standard one, unless REBULK_REGEX_ENABLED asks for the regex module and it can be imported, in which case REGEX_ENABLED is true; a missing regex module is never an error. Repeated captures are used only with that module and only if not switched off, and asking for them without it raises NotImplementedError.",
  ["configurations"], "every environment and installed module set",
  "Tests run with the module installed.",
  ["remodule.py", "pattern.py", "chain.py"], [("remodule", "remodule.py"), ("RePattern.__init__", "pattern.py")], (), ["REGEX_ENABLED"])
p("C33", "User functions receive exactly the arguments they accept",
  "A function of a functional pattern - function, lambda, method, callable object or partial - is called once per search with the input string and the context of the call, cut to the positional parameters it declares, and with those of the pattern's options that its other parameters name (all of them if it accepts any keyword). call() does the same for any function or constructor and returns its result; an option nobody gave is never passed.",
  ["programs"], "every callable signature and set of options",
  "Tests use a handful of signatures; user callables can be any kind of callable with any signature.",
  ["loose.py", "pattern.py"], [("call, function_args, argspec_args", "loose.py"), ("FunctionalPattern._match", "pattern.py")], (), ["Rebulk.functional", "loose.call"])
p("C34", "Results come in registration order, nested rebulks after their parent",
  "matches() searches the patterns in the order they were registered - those of the rebulk, then those of each nested rebulk in order, a pattern object shared by several only once - and its result and its markers list the matches in that order and in the order in which each pattern (each of its strings, expressions or functions) found them; what is registered after a call takes part in the next one. Every builder call registers exactly one pattern (or part), last, and returns the builder (or part); close() returns the builder the chains were opened on.",
  ["programs", "inputs"], "every sequence of registrations and builder calls",
  "Tests register a few patterns and look at sets of values; the order decides every conflict between equals.",
  ["rebulk.py", "builder.py", "pattern.py", "chain.py"], [("Rebulk.matches, effective_patterns", "rebulk.py"), ("Builder.pattern and the build methods", "builder.py"), ("Chain.close, ChainPart", "chain.py")], (), ["Rebulk.matches", "Builder.string/regex/functional/chain"])
p("C30", "Holes are exactly the uncovered ranges",
  "holes(start, end, formatter, ignore, seps) without seps returns, in order, exactly the maximal non-empty runs of positions of the range (cut to the end of the text and of the matches) that no match covers - a match for which ignore is true counts as absent -, as matches of the same text, without name, with the value the given formatter makes of their text. With seps, every uncovered character of the range that is no separator is in exactly one hole, holes cover no match, have no separator behind their first character, and end only at a match, a separator or the end of the range. Empty holes are never returned.",
  ["inputs"], "every set of matches and range", "Arithmetic over all positions, ranges and overlaps of matches; tests have a few examples.",
  ["match.py"], [("_BaseMatches.holes, _hole_start, _hole_end", "match.py")], (), ["Matches.holes"])
p("C31", "Chains match exactly the adjacent repetition of their parts",
  "A chain yields exactly the leftmost sequences of adjacent part matches allowed by the repeaters of its parts, giving back trailing matches only when its validator rejects them.",
  ["inputs", "programs"], "every chain and input", "A language-equivalence statement; tests have examples.",
  ["chain.py"], [("Chain._match, ChainPart._truncate_repeater", "chain.py")], (), ["Rebulk.matches"])
p("C32", "chain_before/chain_after and previous/next find the nearest matches",
  "previous(match) returns all the matches with the greatest end that is not behind the start of match, next(match) all with the smallest start behind its start. chain_before and chain_after, given a position or a match, separators, a start/end and a predicate, return the accepted matches met when walking back (forward) from it, nearest first and each once, until the first position that is in no accepted match and holds no separator; refused matches do not connect.",
  ["inputs"], "every set of matches, text and position", "Arithmetic over positions; tests have examples.",
  ["match.py"], [("previous, next, chain_before, chain_after", "match.py")], (), ["Matches.previous", "Matches.chain_before"])

p("C35", "A chain match is one run of its parts and made of what they found",
  "A chain matches a run of its parts in order, each found - adjacent to what came before, except at the beginning - as often as its repeater allows ('?' 0-1, '*' any, '+' 1 or more, n, '{n,m}', '{n,}', '{,m}'; default once); an adjacent match within the maximum is always taken, the next part is searched behind it, and if a part falls below its minimum the run fails and the search goes on behind its first match. The chain match spans the matches of its visible parts and has exactly these and their children as children, in order and each once; hidden parts must match but leave nothing, and what chain_breaker(matches so far and the next) is true for is left out. A match that the validator of its own part refuses counts as found but is left out, and adjacency is judged by raw spans. When the validator of the chain refuses it, the repetitions of the last part are given back, last first, until it accepts; otherwise it is not emitted.",
  ["inputs", "programs"], "every chain definition and every sequence of answers of its parts",
  "Tests use a few chains on a few strings; repeaters, gaps, hidden parts, breakers and validators interact.",
  ["chain.py", "pattern.py"], [("Chain._match, _to_next_chain_part, _build_chain_match, _process_match", "chain.py"), ("ChainPart.matches, repeater, hidden", "chain.py")], (), ["Rebulk.chain", "ChainPart.repeater/hidden"])

p("C36", "crop() and split() cut a match into pieces that stay what it was",
  "split(seps) of a match that has a text and no separate raw span returns, in order, exactly the maximal runs of its characters that are no separators; nothing for a match of separators only, one piece when there is no separator in it. The pieces of split() and crop() are new matches that keep the name, tags, literal value, marker and private flags, formatter, conflict solver, parent, children and input string of the match; their raw text is the input at their own span, and so is their value unless literal or formatted. The match itself, and the matches it is cropped by, do not change.",
  ["inputs"], "every text, separator set and attribute of the match", "Repeated, leading and trailing separators combine with every attribute; tests have two examples.",
  ["match.py"], [("Match.split, Match.crop", "match.py")], [("match and pieces", "deep copies", "match.py")], ["Match.split", "Match.crop"])

p("C37", "What is searched is what was configured",
  "Each expression given to a regex pattern is searched once per search, in order, in the whole text: text is compiled with the flags of the pattern, a dict or a sequence with what it says itself, and a compiled expression is used as it is. The abbreviations of the pattern, one after the other in their order, replace every occurrence of their key in expressions given as text or dict, and only there. Each string of a string pattern is searched likewise, in lower case in the text in lower case exactly when ignore_case is true. Nothing is searched while patterns are declared, and the given expressions do not change.",
  ["programs", "inputs"], "every form of expression, combination of flags, abbreviations and levels of defaults", "Forms, levels and abbreviations multiply; tests have one example each.",
  ["pattern.py", "utils.py"], [("RePattern.__init__, _match", "pattern.py"), ("find_all", "utils.py")], (), ["Rebulk.regex", "Rebulk.string"])

p("C38", "A call is made of exactly what was registered and enabled",
  "The rules of a call are those of the rebulk in the order they were registered (after ConflictSolver and PrivateRemover unless default_rules is false), then those of each enabled nested rebulk in order, a rule class of which one is there already being left out. A class is instantiated once, at registration; an instance is used as it is; a module gives one instance of each rule class it defines. Patterns likewise, each object once. Declared keys of the rebulk win over those of nested ones, and earlier over later nested ones. The lists returned are the caller's own. rules(), pattern() and declare_keys() return the rebulk. Every disabled, enabled, match function and rule of a call is given one and the same context: the given one, or one empty dict made for that call.",
  ["objects", "rebulks"], "every registered set of rules, patterns and keys, every nesting and enabling", "Registration, nesting and enabling multiply; tests have one example of each.",
  ["rebulk.py", "rules.py", "utils.py"], [("effective_rules, effective_patterns, effective_keys", "rebulk.py"), ("Rules.load", "rules.py"), ("extend_safe", "utils.py")], (), ["Rebulk.rules", "Rebulk.rebulk", "Rebulk.effective_rules", "Rebulk.effective_patterns", "Rebulk.effective_keys"])

p("C39", "What a match says about itself follows its fields and its family",
  "At every moment: span is (start, end); the length is end - start, and a match is true exactly when it is not empty; tagged(tags...) is true exactly when the match has at least one of them (never for none given); names is the set of the names of its descendants without children, its own name when it has no children; named(names...) is true exactly when at least one of them is in names; initiator is its topmost ancestor, itself without parent (ancestors being not empty). The list of tags is the match's own. All this follows later changes of the fields and of the family, and asking changes nothing.",
  ["inputs", "objects"], "every span, set of tags and family, before and after changes", "Families, names and attributes combine; tests have one example each.",
  ["match.py"], [("Match.span, __len__, tagged, names, named, initiator", "match.py")], (), ["Match.names", "Match.named", "Match.tagged", "Match.initiator"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
