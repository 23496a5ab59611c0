"""Properties decided by the analysis: abstract entry points and rules per property."""

PROPS = {
    "C01": {"drivers": ["c01"], "what": "Ownership: the object graph of a configured Rebulk, the caller's objects and "
            "module state are frozen while every kind of pattern, chain, rule and accessor runs."},
    "C02": {"drivers": ["c02"], "what": "Every builder method, list or dict option and level of defaults, with declared "
            "keys, overrides and nested chain builders: the caller's objects and what later patterns receive."},
    "C03": {"drivers": ["c03"], "what": "Every mutator of a matches sequence, with the lookup tables built before or "
            "not; every lookup compared with the sequence."},
    "C04": {"drivers": ["c04"], "what": "Every query on a sequence or a match: state before and after, and after changing the returned list."},
    "C05": {"drivers": ["c05"], "what": "Every operation that stores a match, for both kinds, and the routing of the "
            "results of every kind of pattern."},
    "C06": {"drivers": ["c06"], "what": 'Default rules over public and private matches of every relative position, order, equality and solver; spies at every priority.'},
    "C07": {"drivers": ["c07"], "what": 'Conflict resolution over relative positions, lengths, initiators, registration orders and every table of solver answers, at an unknown offset of an unknown text.'},
    "C08": {"drivers": ["c08"], "what": 'Execution order of three or four rules over unknown priorities, every registration order, dependency graphs, nesting and both iteration orders of every set.'},
    "C09": {"drivers": ["c09"], "what": 'Rules with unknown enabled results and responses: which of enabled/when/then is called, in which order, with which objects, and what is reported.'},
    "C10": {"drivers": ["c10"], "what": 'Every built-in consequence over present and absent matches, every shape of response, reused instances and unused or used lookups.'},
    "C11": {"drivers": ["c11"], "what": 'Rebulks, nested rebulks, patterns of every kind and rules whose disabled option is a constant or a function with an unknown result, over several calls and contexts.'},
    "C12": {"drivers": ["c12"], "what": 'String, regex, functional and chain patterns in every emission mode with unknown validator verdicts, every subset of option entries, and every answer of the processors.'},
    "C13": {"drivers": ["c13"], "what": 'Every combination of children, every, private_parent and private_children with private, marker, tags, ignored and private names, for string, regex, functional and chain patterns.'},
    "C14": {"drivers": ["c14"], "what": "String, regex (also with repeated captures), functional and chain patterns over unknown spans, empty or not: what is yielded against what was found."},
    "C15": {"drivers": ["c15"], "what": "Provenance of the span, raw text, input string, parent and pattern of matches of every kind of pattern, of regex groups and of the parts of chains at unknown places, repeated, nested, failed and processed."},
    "C16": {"drivers": ["c16"], "what": "Every loop and recursion reached by searching, walking, cropping, closing, chaining, sorting and conflict solving over unknown texts of a few characters must end within a bound derived from the number of positions; find loops over texts of any length must begin after the last occurrence."},
    "C17": {"drivers": ["c17"], "what": "Typed keys, dataclass, TypedDict, list and scalar models over sequences of matches of every name and order, declared keys related or not to the field's type; Key construction."},
    "C18": {"drivers": ["c18"], "what": "Declared keys before and after every kind of pattern, chain, part and nested rebulk with and without formatters of their own; the opt-in check over every kind of value; check_keys over what every kind of pattern produces."},
    "C19": {"drivers": ["c19"], "what": "Every subset of the general, kind and explicit levels of scalar, list and dict options, for every kind of pattern on a rebulk, a chain and a nested chain, with overrides, clear, repeated defaults and the defaults of the other kinds."},
    "C20": {"drivers": ["c20"], "what": "An exception raised by every kind of user function, at its first or a later call and behind every library entry point, whose class ranges over fresh classes and every builtin exception class named in a handler of the package."},
    "C21": {"drivers": ["c21"], "what": "Scenarios over every ordered result, each interpreted twice: sets iterated in opposite orders, object identities and hashes ordered the other way."},
    "C22": {"drivers": ["c22"], "what": "Scenarios over every kind of pattern, chain, rule and query, each interpreted under the plain configuration and under every other debug, level and logging configuration; the levels of what is logged."},
    "C23": {"drivers": ["c23"], "what": "Pairs of matches with unknown spans, values, names and parents, every combination of equal and different fields; hashes before and after every change; every comparison with something else."},
    "C24": {"drivers": ["c24"], "what": "range and crop over spans whose ends are all unknown, in every order; conflicting and at_index over every relative position at an unknown offset, equal matches included."},
    "C25": {"drivers": ["c25"], "what": "to_dict in its eight modes over matches of every order, name and value (equal, different, falsy, unhashable), markers and private ones included."},
    "C26": {"drivers": ["c26"], "what": "Introspection of every kind of pattern under every naming, privacy, value and properties option, of nested and disabled rebulks and of rules."},
    "C27": {"drivers": ["c27"], "what": "Every query of sequences, markers and matches with no, unknown or odd predicate results, every index in and out of range, in keyword and positional form."},
    "C28": {"drivers": ["c28"], "what": "Matches with unknown spans, raw spans, texts, literals and formatters, before and after every change; matches of every kind of pattern; combinators over functions with unknown results; neighbours in an unknown text."},
    "C29": {"drivers": ["c29"], "what": "The package imported under every value of the environment variable with an importable, missing or failing regex module; which module compiles the expressions of every kind of pattern; repeated captures asked for, refused, or by default."},
    "C30": {"drivers": ["c30"], "what": "holes() over texts of a few unknown characters, with up to three matches of every relative position, ignored or not, over every range, with unknown separators and formatters, used before or not.",
            "oracle": "The maximal runs of uncovered positions, computed in the entry point; membership of a character among the separators is one unknown fact per character, the same on both sides.",
            "bounds": "texts of 4 (thorough 5) characters, up to 3 matches."},
    "C32": {"drivers": ["c32"], "what": "previous, next, chain_before and chain_after over up to six matches of every relative position, present or not, equal or not, with unknown separators, predicates and bounds.",
            "oracle": "The definition of nearest, and the walk of the statement, over the list of the matches.",
            "bounds": "texts of 4 (thorough 5) unknown characters, 1-6 matches."},
    "C33": {"drivers": ["c33"], "what": "Functions, lambdas, methods, class and static methods, callable objects, partials and constructors of every kind of signature, given to functional patterns in every way and to call() directly, over every subset of offered arguments and options.",
            "oracle": "The offered arguments cut to the signature; identity of what is received.",
            "bounds": "2 offered arguments and 2 options (3 and 3 for call())."},
    "C34": {"drivers": ["c34"], "what": "A rebulk with nested ones put together in every order, shared patterns, markers, registrations after a call, and every builder method: what is searched and listed, in which order, and what is registered and returned.",
            "oracle": "The trace of searches and the list of results against the order of registration.",
            "bounds": "3 rebulks, 5 patterns, 3 results each."},
    "C35": {"drivers": ["c35"], "what": "Chains of functional and regex parts whose answers are given place by place (unknown offsets, lengths and gaps), hidden or not, with every repeater notation, chain breakers and validators of unknown verdict, and nested chains: the text given to each part, what the chain match spans and is made of, and what is tried next.",
            "oracle": "The trace of searches and answers, from which the entry point computes the run the repeaters allow.",
            "bounds": "2-3 parts, 0-3 repetitions."},
    "C36": {"drivers": ["c36"], "what": "split() of matches of unknown text by unknown separators, and the pieces of split() and crop() of matches with every attribute, literal or formatted values, parents and children.",
            "oracle": "The maximal runs of characters that are no separators; the attributes of the match itself; a snapshot of it.",
            "bounds": "texts of 5 (thorough 6) characters."},
    "C37": {"drivers": ["c37"], "what": "Regular expressions of every form (text, dict, tuple, list, compiled) with flags and abbreviations of every level, strings in both case modes, and functions: what each search looks for, in which text.",
            "oracle": "The trace of searches of the modelled engine (expression, flags, text) against the configuration with its abbreviations replaced in order.",
            "bounds": "up to three expressions per pattern, three abbreviations."},
    "C38": {"drivers": ["c38"], "what": "Rules registered as classes, instances and modules, default rules, nested rebulks enabled or not, shared patterns and declared keys: what a call is made of, and the context everything gets.",
            "oracle": "The registrations themselves; the trace of instantiations and executions; identity of the context.",
            "bounds": "3 rebulks, 5 rules, 4 patterns, 5 keys."},
    "C39": {"drivers": ["c39"], "what": "Matches of unknown spans, every form of tags, families of up to four generations and every other attribute set or not: what they say of their span, tags, names and initiator, at first and after a change, and those of patterns.",
            "oracle": "The fields themselves and a walk of the family in the entry point; a snapshot.",
            "bounds": "up to 4 generations, 4 tags."},
}

NOT_APPLICABLE = {
    "C31": "which adjacent repetitions a chain accepts is a language-membership question over arbitrary inputs and "
           "repeaters decided by regular expression back-tracking; no static clause is both necessary and checkable "
           "(what one run is made of, given what its parts find, is C35; positions, callbacks, options and "
           "termination of chains are covered by C15, C20, C19, C16).",
}
