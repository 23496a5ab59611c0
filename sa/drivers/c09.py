# C09: a rule acts exactly when enabled and its condition holds.
from rebulk import Rebulk, Rule, CustomRule, RemoveMatch, AppendMatch, RenameMatch, AppendTags
from rebulk.rules import Rules, Consequence, execute_rule
from rebulk.match import Match, Matches
from common import NA, NB, NC, TX, same_items, has

CONFIG = {"*": {"max_paths": 3000, "seconds": 200}}

S = unknown("text", "str")
le(20, len(S))
VA, VB, VC, VD = distinct("str", "va", "vb", "vc", "vd")


def recorder(n, on, response, prio=0):
    """a rule that records every call it receives"""

    class R(CustomRule):
        name = n
        priority = prio

        def enabled(self, context):
            event("call", "enabled", n, context)
            return on

        def when(self, matches, context):
            event("call", "when", n, matches, context)
            return response

        def then(self, matches, when_response, context):
            event("call", "then", n, matches, when_response, context)
            return choose(None, True)

    return R()


def calls(n):
    return [c for c in events("call") if c[1] == n]


def truthy(x):
    return True if x else False


def case_unknown():
    """unknown enabled flag, unknown condition, unknown context"""
    on = unknown("enabled result")
    response = unknown("condition result")
    context = choose(None, {"k": VA}, {})
    ms = Matches([Match(0, 2, value=VA)], input_string=S)
    r = recorder("r", on, response)
    how = choose(0, 1)
    if how == 0:
        got = execute_rule(r, ms, context)
        reported = None
    else:
        reported = Rules(r).execute_all_rules(ms, context)
    seen = calls("r")
    kinds = [c[0] for c in seen]
    check(kinds[0] == "enabled" and kinds.count("enabled") == 1, "enabled-first", (kinds,))
    check(seen[0][2] is context, "same-context", "enabled() received another context")
    if truthy(on):
        check(kinds.count("when") == 1, "when-iff-enabled", (kinds,))
        if truthy(response):
            check(kinds == ["enabled", "when", "then"], "then-iff-truthy", (kinds,))
            check(seen[2][2] is ms and seen[2][4] is context, "same-arguments", "then() received other matches or context")
            check(seen[2][3] is response, "same-response", "then() received another response")
        else:
            check(kinds == ["enabled", "when"], "then-iff-truthy", (kinds,))
        check(seen[1][2] is ms and seen[1][3] is context, "same-arguments", "when() received other matches or context")
        triggered = truthy(response)
    else:
        check(kinds == ["enabled"], "when-iff-enabled", (kinds,))
        triggered = False
    if reported is not None:
        check(len(reported) == (1 if triggered else 0), "reported-iff-triggered", (len(reported),))
        if triggered:
            check(reported[0][0] is r and reported[0][1] is response, "reported-iff-triggered", "the response reported")
    elif how == 0:
        check((got is response) if triggered else not got, "reported-iff-triggered", "the response returned")


def case_values():
    """falsy and truthy conditions of every type"""
    i = choose(16)
    empty = Match(3, 3, value=VA)
    m = Match(0, 2, value=VA)
    response = [None, False, 0, "", [], (), {}, empty, 0.0, True, 1, "x", [m], (m,), {"a": 1}, m][i]
    ms = Matches([m], input_string=S)
    r = recorder("r", choose(True, 1, "yes"), response)
    reported = Rules(r).execute_all_rules(ms, {})
    kinds = [c[0] for c in calls("r")]
    check(("then" in kinds) == (i >= 9), "then-iff-truthy", ("response", i, kinds))
    check(len(reported) == (1 if i >= 9 else 0), "reported-iff-triggered", ("response", i))
    if i >= 9:
        check(calls("r")[2][3] is response, "same-response", ("response", i))


class Odd:
    """a response of the user's own type"""

    def __init__(self, items):
        self.items = items

    def __iter__(self):
        return iter(self.items)

    def __len__(self):
        return len(self.items)


def case_response_objects():
    """lazy, mutable and foreign responses are handed over as they are, and are not consumed beforehand"""
    m = Match(0, 2, value=VA)
    n = Match(3, 5, value=VB)
    ms = Matches([m, n], input_string=S)
    how = choose(0, 1, 2, 3, 4, 5, 6, 7)
    pulled = []

    def lazily():
        for x in [m, n]:
            pulled.append(x)
            yield x

    response = [lazily(), iter([m, n]), Odd([m, n]), {"a": m}, {m}, (m, n), ms, map(lambda x: x, [m, n])][how]
    single = choose(True, False)

    class R(CustomRule):
        def when(self, matches, context):
            return response

        def then(self, matches, when_response, context):
            event("then", when_response)
            check(len(pulled) == 0, "same-response", "the response was consumed before then()")

    class L(Rule):
        consequence = LogClass

        def when(self, matches, context):
            return response

    Rules(R if single else L).execute_all_rules(ms, {})
    got = [e[0] for e in events("then")] if single else [e[2] for e in events("cons")]
    check(len(got) == 1 and got[0] is response, "same-response", ("response of kind", how))
    check(len(pulled) == 0, "same-response", "the response was consumed")


def case_context_of_call():
    """rules get the context of the call, an empty one by default"""
    context = choose(None, {"k": VA})
    r = recorder("r", True, True)
    Rebulk(default_rules=choose(True, False)).rules(r).matches(S, context)
    for c in calls("r"):
        given = c[-1]
        if context is None:
            check(given == {}, "same-context", "default context")
        else:
            check(given is context, "same-context", "the context of the call")


def case_sequence():
    """the consequence of a rule is seen by the conditions of all later rules"""
    prio = choose(0, 3)

    class One(Rule):
        priority = prio
        consequence = choose(RemoveMatch, RemoveMatch())

        def when(self, matches, context):
            return [matches[0]]

    class Two(Rule):
        priority = prio
        consequence = AppendMatch(NB)

        def when(self, matches, context):
            event("seen", "two", [m.name for m in matches])
            return Match(7, 9, value=VD)

    class Three(Rule):
        consequence = [RenameMatch(NC), AppendTags([TX])]

        def when(self, matches, context):
            event("seen", "three", [m.name for m in matches])
            return [matches[0], matches.named(NB)]

    class Four(CustomRule):
        def when(self, matches, context):
            event("seen", "four", [m.name for m in matches], [m.name for m in matches.tagged(TX)])

        def then(self, matches, when_response, context):
            pass

    r = Rebulk(default_rules=False).functional(lambda text: (0, 2), name=NA).functional(lambda text: (3, 5), name=NA)
    r.rules(One, Two, Three, Four)
    r.matches(S)
    seen = events("seen")
    check(seen[0] == ("two", [NA]), "effect-before-next", (seen[0],))
    check(seen[1] == ("three", [NA, NB]), "effect-before-next", (seen[1],))
    check(len(seen) == 3 and NC in seen[2][1] and seen[2][2] == [NB], "effect-before-next", (seen,))


def case_many_reported():
    """each triggered rule is reported once, in execution order"""
    a, b, c = unknown("first condition"), unknown("second condition"), unknown("third condition")
    ra, rb, rc = recorder("a", True, a, 5), recorder("b", choose(True, False), b), recorder("c", True, c, -5)

    class RA(type(ra)):
        pass

    rules = Rules()
    rules.extend([rc, ra, rb])
    ms = Matches(input_string=S)
    reported = rules.execute_all_rules(ms, {})
    on_b = len([x for x in calls("b") if x[0] == "when"]) == 1
    expected = []
    if truthy(a):
        expected.append(ra)
    if on_b and truthy(b):
        expected.append(rb)
    if truthy(c):
        expected.append(rc)
    check(same_items([x[0] for x in reported], expected), "reported-iff-triggered", (len(reported), len(expected)))
    order = [x[1] for x in events("call") if x[0] == "then"]
    check(order == [x.name for x in expected], "then-iff-truthy", (order,))


class Log(Consequence):
    def __init__(self, tag="default"):
        self.tag = tag

    def then(self, matches, when_response, context):
        event("cons", self.tag, matches, when_response, context)


class LogClass(Consequence):
    def then(self, matches, when_response, context):
        event("cons", "class", matches, when_response, context)


def case_consequences():
    """a single consequence gets the response; several get one element each, in order"""
    x, y, z = Match(0, 2, value=VA), Match(3, 5, value=VB), Match(5, 6, value=VC)
    how = choose(0, 1, 2, 3, 4, 5, 6)
    shape = choose(0, 1, 2)

    def shaped(items):
        if shape == 0:
            return items
        if shape == 1:
            return tuple(items)
        return (i for i in items)

    if how == 0:
        cons, response, want = LogClass, [x, y], None
    elif how == 1:
        cons, response, want = Log("one"), x, None
    elif how == 2:
        cons, response, want = [Log("one"), LogClass], shaped([x, y]), [("one", x), ("class", y)]
    elif how == 3:
        cons, response, want = (LogClass, Log("two"), Log("three")), shaped([[x, y], z, x]), \
            [("class", None), ("two", z), ("three", x)]
    elif how == 4:
        # one consequence in a list: a lone response is its element
        cons, response, want = [Log("one")], x, [("one", x)]
    elif how == 6:
        # every consequence runs, also with a falsy element
        nothing = choose(None, 0, False, "")
        cons, response, want = [Log("one"), LogClass, Log("three")], shaped([nothing, x, nothing]), \
            [("one", nothing), ("class", x), ("three", nothing)]
    else:
        cons, response, want = [Log("one")], shaped([y]), [("one", y)]

    class R(Rule):
        consequence = cons

        def when(self, matches, context):
            return response

    ms = Matches([x, y], input_string=S)
    context = {"k": VA}
    Rules(R).execute_all_rules(ms, context)
    got = events("cons")
    for g in got:
        check(g[1] is ms and g[3] is context, "same-arguments", "a consequence received other matches or context")
    if want is None:
        check(len(got) == 1 and got[0][2] is response, "same-response", "a single consequence")
    else:
        check([g[0] for g in got] == [w[0] for w in want], "consequence-order", ([g[0] for g in got],))
        for g, w in zip(got, want):
            if w[1] is None and how == 3:
                check(same_items(g[2], [x, y]), "own-element", "a list element")
            else:
                check(g[2] is w[1], "own-element", ("element of", g[0]))


def case_rule_instance():
    """rules given as instances keep their state, consequences given as instances too"""

    class Count(CustomRule):
        def __init__(self, tag):
            super().__init__()
            self.tag = tag

        def when(self, matches, context):
            event("seen", self.tag)
            return [self.tag]

        def then(self, matches, when_response, context):
            event("seen", when_response[0] + self.tag)

    Rebulk(default_rules=False).rules(Count("t")).matches(S)
    check(events("seen") == [("t",), ("tt",)], "then-iff-truthy", (events("seen"),))


def case_disabled_engine():
    """no rule of a disabled rebulk"""
    r = recorder("r", True, True)
    child = recorder("child", True, True)

    Rebulk(disabled=choose(True, False), default_rules=False).rules(r).matches(S)
    n = len(calls("r"))
    check(n in (0, 3), "when-iff-enabled", (n,))
