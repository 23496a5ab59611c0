# C11: what is disabled takes no part, what is not disabled takes part, decided with the context of the call.
from rebulk import Rebulk, CustomRule, Key
from rebulk.match import Match
from rebulk.introspector import introspect
from common import NA, NB, NC, NO, same_items, has

CONFIG = {"*": {"max_paths": 3000, "seconds": 150}}

S = unknown("text", "str")
le(20, len(S))
VA, VB, VC, VD = distinct("str", "va", "vb", "vc", "vd")


def on(x):
    return True if x else False


def spy(label, start=0):
    def find(text, context):
        event("searched", label)
        return start, start + 2

    return find


class Spy(CustomRule):
    label = "rule"

    def enabled(self, context):
        event("enabled", self.label, context)
        return True

    def when(self, matches, context):
        event("evaluated", self.label)
        return [1]

    def then(self, matches, when_response, context):
        event("applied", self.label)


class ChildSpy(Spy):
    label = "child rule"


class OtherSpy(Spy):
    label = "other rule"


def flag(label):
    """a constant or a function of the context with an unknown result; returns (option, effective)"""
    i = choose(6)
    if i < 4:
        v = [True, False, 1, None][i]
        return v, on(v)
    if i == 4:
        v = unknown("constant")
        assume(not callable(v))
        return v, on(v)
    result = unknown("result of disabled")

    def disabled(context):
        event("disabled", label, context)
        return result

    return disabled, on(result)


def searched(label):
    return len([e for e in events("searched") if e[0] == label])


def evaluated(label):
    return len([e for e in events("evaluated") if e[0] == label])


def contexts(given):
    for e in events("disabled"):
        if given is None:
            check(e[1] == {}, "context-of-the-call", ("no context was given,", e[0], "got another"))
        else:
            check(e[1] is given, "context-of-the-call", ("disabled of", e[0]))


def case_rebulk():
    """a rebulk with patterns of every kind, rules, keys and a nested rebulk"""
    option, off = flag("rebulk")
    context = choose(None, {"k": VA})
    ka, kb = Key(NA, str), Key(NB, str)
    child = Rebulk(default_rules=False).functional(spy("child"), name=NB).rules(ChildSpy).declare_keys(kb)
    r = Rebulk(disabled=option, default_rules=choose(True, False))
    r.functional(spy("own"), name=NA).rules(Spy).declare_keys(ka).rebulk(child)

    def hit(match):
        event("searched", "string")
        return True

    r.string("ab", validator=hit)
    m = r.matches(S, context)
    if off:
        check(len(m) == 0 and len(m.markers) == 0, "disabled-engine", "a disabled rebulk has matches")
        check(searched("own") == 0 and searched("child") == 0 and searched("string") == 0, "disabled-engine",
              "a pattern of a disabled rebulk was searched")
        check(evaluated("rule") == 0 and evaluated("child rule") == 0, "disabled-engine",
              "a rule of a disabled rebulk was evaluated")
        check(len(m.declared_keys) == 0, "disabled-keys", "a disabled rebulk exposes declared keys")
    else:
        check(searched("own") == 1 and searched("child") == 1, "enabled-takes-part", "a pattern was not searched once")
        check(evaluated("rule") == 1 and evaluated("child rule") == 1, "enabled-takes-part", "a rule was not evaluated once")
        check(m.declared_keys == {NA: ka, NB: kb}, "enabled-keys", "declared keys of the result")
        check(len([x for x in m if x.name == NA]) == 1, "enabled-takes-part", "a match is missing")
    contexts(context)


def case_nested():
    """two nested rebulks with their own conditions"""
    o1, off1 = flag("one")
    o2, off2 = choose((True, True), (False, False), (lambda context: on(context), on(None)))
    context = choose(None, {"k": VA}, {})
    if callable(o2):
        off2 = on(context)
    ka, kb, kc = Key(NA, str), Key(NB, int), Key(NC, str)
    one = Rebulk(disabled=o1, default_rules=choose(True, False))
    one.functional(spy("one"), name=NB).rules(ChildSpy).declare_keys(kb)
    two = Rebulk(disabled=o2, default_rules=False).functional(spy("two"), name=NC).rules(OtherSpy).declare_keys(kc)
    r = Rebulk(default_rules=choose(True, False)).functional(spy("own"), name=NA).rules(Spy).declare_keys(ka)
    r.rebulk(one, two)
    before = len(events("disabled"))
    m = r.matches(S, context)
    contexts(context)
    check(searched("own") == 1 and evaluated("rule") == 1, "enabled-takes-part", "the parent")
    check(searched("one") == (0 if off1 else 1), "disabled-nested", ("pattern of the first nested rebulk", off1))
    check(evaluated("child rule") == (0 if off1 else 1), "disabled-nested", ("rule of the first nested rebulk", off1))
    check(searched("two") == (0 if off2 else 1), "disabled-nested", ("pattern of the second nested rebulk", off2))
    check(evaluated("other rule") == (0 if off2 else 1), "disabled-nested", ("rule of the second nested rebulk", off2))
    want = {NA: ka}
    if not off1:
        want[NB] = kb
    if not off2:
        want[NC] = kc
    check(m.declared_keys == want, "disabled-keys", "declared keys of the result")


def case_changes_between_calls():
    """disabled is decided anew on every call"""
    state = {"off": unknown("first state"), "rule": True}

    def off(context):
        return state["off"]

    class Sometimes(Spy):
        label = "sometimes"

        def enabled(self, context):
            return state["rule"]

    where = choose(0, 1, 2)
    r = Rebulk(disabled=off if where == 0 else False, default_rules=False)
    child = Rebulk(disabled=off if where == 1 else False, default_rules=False).functional(spy("child"))
    r.functional(spy("own"), disabled=off if where == 2 else False).rules(Sometimes).rebulk(child)
    watched = "child" if where == 1 else "own"
    n = 0
    for i in range(3):
        r.matches(S, choose(None, {"k": i}) if i == 0 else {"k": i})
        if not on(state["off"]):
            n = n + 1
        check(searched(watched) == n, "context-of-the-call", ("call", i, "where", where))
        state["off"] = [True, False][i] if i < 2 else None


def case_patterns():
    """disabled patterns of every kind"""
    option, off = flag("pattern")
    context = choose(None, {"k": VA})
    kind = choose(0, 1, 2, 3)

    def hit(match):
        event("searched", "it")
        return True

    r = Rebulk(default_rules=False)
    r.functional(spy("first"), name=NA)
    if kind == 0:
        r.functional(spy("it"), name=NB, disabled=option)
    elif kind == 1:
        r.string("ab", name=NB, disabled=option, validator=hit)
    elif kind == 2:
        r.regex("a+", name=NB, disabled=option, validator=hit)
    else:
        r.chain(disabled=option).functional(spy("it"), name=NB).close()
    r.functional(spy("last"), name=NC)
    m = r.matches(S, context)
    check(searched("first") == 1 and searched("last") == 1, "enabled-takes-part", "another pattern")
    if off:
        check(searched("it") == 0, "disabled-pattern", ("a disabled pattern was searched, kind", kind))
        check(same_items(m, [x for x in m if x.name in (NA, NC)]) and len(m) == 2, "disabled-pattern",
              ("matches of a disabled pattern, kind", kind))
    elif kind in (0, 3):
        check(searched("it") > 0 and len(m) > 2, "enabled-takes-part", ("pattern of kind", kind))
    contexts(context)


def case_default_option():
    """disabled given as a default option of the builder"""
    option, off = flag("default")
    which = choose(0, 1)
    r = Rebulk(default_rules=False)
    if which == 0:
        r.defaults(disabled=option)
    else:
        r.functional_defaults(disabled=option)
    r.functional(spy("it"))
    r.functional(spy("always"), disabled=False)
    r.functional(spy("never"), disabled=True)
    context = {"k": VA}
    r.matches(S, context)
    contexts(context)
    check(searched("it") == (0 if off else 1), "disabled-pattern", "default option")
    check(searched("always") == 1, "enabled-takes-part", "an explicit option")
    check(searched("never") == 0, "disabled-pattern", "an explicit option")


def case_rules():
    """a disabled rule is not evaluated, the others are"""
    result = unknown("enabled result")

    class Maybe(Spy):
        label = "maybe"

        def enabled(self, context):
            event("disabled", "rule", context)
            return result

    r = Rebulk(default_rules=choose(True, False)).functional(spy("own"))
    where = choose(0, 1)
    context = choose(None, {"k": VA})
    if where == 0:
        r.rules(Spy, choose(Maybe, Maybe()), OtherSpy)
    else:
        r.rules(Spy, OtherSpy).rebulk(Rebulk().rules(Maybe))
    r.matches(S, context)
    contexts(context)
    check(evaluated("rule") == 1 and evaluated("other rule") == 1, "enabled-takes-part", "another rule")
    check(evaluated("maybe") == (1 if on(result) else 0), "disabled-rule", "evaluated")


def case_accessors():
    """effective_patterns, effective_rules, effective_keys and introspection use the given context"""
    seen = {"k": VA}
    child = Rebulk(disabled=lambda context: context is seen, default_rules=False)
    child.string("ab", name=NB).rules(ChildSpy).declare_keys(Key(NB, str))
    r = Rebulk(default_rules=False).string("cd", name=NA).rules(Spy).declare_keys(Key(NA, str)).rebulk(child)
    context = choose(seen, None, {"k": VA})
    off = context is seen
    check(len(r.effective_patterns(context)) == (1 if off else 2), "disabled-nested", "effective_patterns")
    check(len(r.effective_rules(context)) == (1 if off else 2), "disabled-nested", "effective_rules")
    check(len(r.effective_keys(context)) == (1 if off else 2), "disabled-nested", "effective_keys")
    described = introspect(r, context)
    check((NB in described.properties) == (not off), "disabled-nested", "introspection")
    check(len(described.rules) == (1 if off else 2), "disabled-nested", "introspection of rules")


def case_all_take_part():
    """patterns with the same configuration, or shared by nested rebulks, and rules of several rebulks"""
    fn = spy("shared")
    r = Rebulk(default_rules=False).functional(fn, name=NA).functional(fn, name=NA)
    one = Rebulk().functional(fn, name=NA).rules(Spy)
    two = Rebulk().functional(fn, name=NB).rules(ChildSpy, OtherSpy)
    r.rebulk(one).rebulk(two)
    m = r.matches(S)
    check(searched("shared") == 4, "enabled-takes-part", ("patterns searched", searched("shared")))
    for label in ("rule", "child rule", "other rule"):
        check(evaluated(label) == 1, "enabled-takes-part", (label,))


def case_pattern_object():
    """a pattern given to several rebulks is searched when one of them is enabled"""
    from rebulk.pattern import FunctionalPattern

    p = FunctionalPattern(spy("it"))
    o1, o2 = choose(True, False), choose(True, False)
    one, two = Rebulk(disabled=o1, default_rules=False), Rebulk(disabled=o2, default_rules=False)
    one.pattern(p)
    two.pattern(p)
    r = Rebulk(default_rules=False).rebulk(one, two)
    r.matches(S)
    check(searched("it") == (0 if o1 and o2 else 1), "disabled-nested", "a pattern shared by nested rebulks")


def case_nothing_found():
    """rules take part although nothing was found, also in an empty text; a disabled pattern does not matter"""
    text = choose(S, "")
    r = Rebulk(default_rules=choose(True, False)).rules(Spy).rebulk(Rebulk().rules(ChildSpy))
    if choose(True, False):
        r.functional(lambda text: None, name=NA)
    if choose(True, False):
        r.functional(spy("it"), disabled=True)
    ka = Key(NA, str)
    r.declare_keys(ka)
    m = r.matches(text)
    check(len(m) == 0 and len(m.markers) == 0, "disabled-pattern", "matches where nothing was found")
    check(evaluated("rule") == 1 and evaluated("child rule") == 1, "enabled-takes-part", "a rule without matches")
    check(m.declared_keys == {NA: ka}, "enabled-keys", "declared keys without matches")
