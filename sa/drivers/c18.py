# C18: declared keys type every pattern, and the opt-in check enforces them.
from rebulk import Rebulk, Rule, Key, RenameMatch
from rebulk import debug
from rebulk.match import Match
from rebulk.pattern import StringPattern
from common import NA, NB, NC, NO, same_items, raises

CONFIG = {"*": {"max_paths": 6000, "seconds": 120, "regex_total": 1},
          "case_check_environment": {"env": {"REBULK_CHECK_DECLARED_KEYS": (
              "1", "true", "TRUE", "Yes", "on", " 1 ", "", "0", "false", "no", "off", None)}}}

S = unknown("text", "str")
le(20, len(S))
T = unknown("short text", "str")
le(4, len(T))
le(len(T), 4)


def conv(raw):
    return ("declared", raw)


def conv_b(raw):
    return ("declared b", raw)


def own(raw):
    return ("own", raw)


def other(raw):
    return ("other", raw)


def own_formatter(name):
    """(options, tag expected on a match of that name)"""
    return choose(({}, "declared"), ({"formatter": own}, "own"), ({"formatter": {name: own}}, "own"),
                  ({"formatter": {NO: other}}, "declared"), ({"formatter": {}}, "declared"), ({"formatter": None}, "declared"),
                  ({"formatter": {NO: other, "unused": other, "unused too": own}}, "declared"),
                  ({"formatter": {NO: other, name: own}}, "own"))


def tagged_value(m, tag, label):
    check(m.value == (tag, m.raw), "declared-converter", (label, "expected", tag))


def found(text):
    return [(0, 2), (3, 5)]


def once(text):
    return (0, 2)


def declaring(r, *keys):
    """one call, several calls, more keys than needed"""
    how = choose(0, 1, 2)
    if how == 0:
        r.declare_keys(*keys)
    elif how == 1:
        for k in keys:
            r.declare_keys(k)
    else:
        r.declare_keys(Key(NO, str, conv_b), *keys)
    return r


def all_of(r, text=S):
    ms = r.matches(text)
    return list(ms) + list(ms.markers)


# ---------------------------------------------------------------- converters
def case_simple():
    """string and functional patterns by name"""
    opts, tag = own_formatter(NA)
    r = declaring(Rebulk(default_rules=False), Key(NA, tuple, conv))
    kw = choose({}, {"marker": True}, {"every": True}, {"private": True})
    kind = choose(0, 1, 2)
    if kind == 0:
        r.functional(found, name=NA, **opts, **kw)
    elif kind == 1:
        r.functional(lambda text: {"start": 1, "end": 3, "name": NA}, **opts, **kw)
    else:
        r.string("ab", name=NA, **opts, **kw)
    out = all_of(r)
    if kind != 2:
        check(len(out) == (2 if kind == 0 else 1), "declared-converter", "matches")
    for m in out:
        check(m.name == NA, "declared-converter", "name")
        tagged_value(m, tag, ("string or functional", kind))


def case_regex():
    """groups and names of regex patterns"""
    opts, tag = own_formatter("one")
    if choose(True, False):
        r = declaring(Rebulk(default_rules=False), Key("one", tuple, conv), Key("two", tuple, conv_b))
        r.regex("(?P<one>a)(?P<two>b)", children=True, **opts)
    else:
        r = declaring(Rebulk(default_rules=False), Key("one", tuple, conv), Key("two", tuple, conv_b))
        r.regex("ab", name="one", **opts)
    for m in all_of(r):
        if m.name == "one":
            tagged_value(m, tag, "regex")
        elif opts.get("formatter") is own:
            tagged_value(m, "own", "regex, another declared name")
        else:
            tagged_value(m, "declared b", "regex, another declared name")


def case_undeclared():
    """matches of other names keep the formatters of the pattern, dict entries included"""
    r = declaring(Rebulk(default_rules=False), Key(NA, tuple, conv))
    key = choose(None, NB, "__parent__")
    r.functional(once, name=NB, formatter={key: own, NC: other})
    out = all_of(r)
    tagged_value(out[0], "own", "undeclared name")


def case_chain():
    """a chain by name, its parts by name, nested chains"""
    where = choose("chain", "string part", "regex part", "functional part", "nested", "nested part", "nested by part")
    name = "one" if where == "regex part" else NA
    opts, tag = own_formatter(name)
    r = declaring(Rebulk(default_rules=False), Key(name, tuple, conv))
    one = lambda text: (0, 2)
    if where == "chain":
        r.chain(name=name, **opts).functional(one).close()
    elif where == "functional part":
        c = r.chain(name=NC)
        c.functional(one, name=NB)
        c.functional(one, name=name, **opts).close()
    elif where == "string part":
        r.chain(name=NC).string("ab", name=name, **opts).close()
    elif where == "regex part":
        r.chain(name=NC).regex("(?P<one>a)", children=True, **opts).close()
    elif where == "nested":
        c = r.chain(name=NC)
        c.chain(name=name, **opts).functional(one).close()
    elif where == "nested part":
        c = r.chain(name=NC)
        c.chain(name=NB).functional(one, name=name, **opts).close()
    else:
        c = r.chain(name=NC)
        c.functional(one, name=NB).chain().functional(one, name=name, **opts).close()
    setting("k", 1)
    seen = 0
    todo = all_of(r, T)
    while todo:
        m = todo.pop()
        if m.name == name and not (where == "nested part" and m.parent is None and m.children):
            tagged_value(m, tag, ("chain", where))
            seen += 1
        todo.extend(list(m.children))
    if where not in ("string part", "regex part"):
        check(seen > 0, "declared-converter", ("no match of the declared name", where))


def case_chain_children():
    """the children a chain emits"""
    r = declaring(Rebulk(default_rules=False), Key(NA, tuple, conv), Key(NB, tuple, conv_b))
    kw = choose({"children": True}, {"every": True})
    r.chain(name=NC, **kw).functional(once, name=NA).functional(once, name=NB).close()
    out = all_of(r, T)
    for m in out:
        if m.name == NA:
            tagged_value(m, "declared", "children of a chain")
        if m.name == NB:
            tagged_value(m, "declared b", "children of a chain")
    check(len([m for m in out if m.name in (NA, NB)]) == 2, "declared-converter", "children of a chain")


def case_before_and_after():
    """only the patterns built afterwards, whatever was declared last for a name"""
    r = Rebulk(default_rules=False)
    r.functional(once, name=NA)
    r.declare_keys(Key(NA, tuple, conv))
    r.functional(once, name=NA)
    if choose(True, False):
        r.declare_keys(Key(NB, tuple, conv_b))
        r.functional(once, name=NB)
    out = all_of(r)
    tagged_value(out[1], "declared", "built after the declaration")
    if len(out) > 2:
        tagged_value(out[2], "declared b", "built after the second declaration")


def case_declared_on_chain():
    """keys declared while a chain is open: a chain has those of its origin, its own stay its own"""
    r = Rebulk(default_rules=False)
    before = choose(True, False)
    if before:
        r.declare_keys(Key(NB, tuple, conv_b))
    how = choose("chain", "nested", "chain by part")
    if how == "chain":
        c = r.chain(name=NC)
        c.declare_keys(Key(NA, tuple, conv))
        part = c.functional(once, name=NA)
    elif how == "nested":
        outer = r.chain(name=NC)
        c = outer.chain(name=NO)
        c.declare_keys(Key(NA, tuple, conv))
        part = c.functional(once, name=NA)
    else:
        part = r.chain(name=NC).functional(once, name=NA)
        c = None
    r.functional(once, name=NA)
    r.functional(once, name=NB)
    r.string("x", name=NA)
    r.chain(name="later").functional(once, name=NA).close()
    part.functional(lambda text: (2, 3), name=NB).close()
    check((NA in r._keys) == False, "declared-key", ("a key declared on a chain is declared on its rebulk", how))
    check(len(list(r.matches(T).declared_keys)) == (1 if before else 0), "declared-key", "declared keys of the result")
    todo = all_of(r, T)
    while todo:
        m = todo.pop()
        todo.extend(list(m.children))
        if m.name == NB:
            tagged_value(m, "declared b", "declared on the rebulk") if before else \
                check(m.value == m.raw, "declared-converter", "nothing declared")
        elif m.name == NA:
            inside = c is not None and m.parent is not None and m.parent.name != "later"
            if inside:
                tagged_value(m, "declared", ("declared on the chain", how))
            else:
                check(m.value == m.raw, "declared-converter", ("declared on a chain only", how))


def case_defaults():
    """formatters given as defaults are the pattern's own"""
    r = declaring(Rebulk(default_rules=False), Key(NA, tuple, conv), Key(NB, tuple, conv_b))
    where = choose("general", "kind")
    formatter = choose(own, {NA: own})
    if where == "general":
        r.defaults(formatter=formatter)
    else:
        r.functional_defaults(formatter=formatter)
    r.functional(once, name=NA).functional(once, name=NB)
    out = all_of(r)
    tagged_value(out[0], "own", "a formatter given as default")
    tagged_value(out[1], "own" if formatter is own else "declared b", "a formatter given as default")


def case_key_argument():
    """a key given to the pattern itself wins over a declared one"""
    r = declaring(Rebulk(default_rules=False), Key(NA, tuple, conv))
    where = choose(0, 1, 2)
    if where == 0:
        r.functional(once, key=Key(NA, tuple, own))
    elif where == 1:
        r.functional(once, name=NA, key=[Key(NA, tuple, own)])
    else:
        r.chain(name=NC).functional(once, key=Key(NA, tuple, own)).close()
    for m in all_of(r, T):
        if m.name == NA:
            tagged_value(m, "own", "key argument")
        for c in m.children:
            if c.name == NA:
                tagged_value(c, "own", "key argument")


# ---------------------------------------------------------------- the opt-in check
class Spy(Rule):
    priority = 4096

    def when(self, matches, context):
        event("rule")
        return None


class Renamer(Rule):
    """what a rule does to names is not checked"""
    consequence = RenameMatch(NA)

    def when(self, matches, context):
        return matches.named(NB)


class Base:
    pass


class Derived(Base):
    pass


def answers():
    """(value a formatter returns, is of type Base)"""
    return choose((Base(), True), (Derived(), True), (None, True), (0, False), ("", False), (3, False), ("a", False),
                  ([], False), (object(), False), (Base, False))


def switch():
    on = choose(True, False)
    debug.CHECK_DECLARED_KEYS = on
    return on


def checked(r, bad, on, label):
    """matches() raises exactly when it should, and before any rule"""
    try:
        ms = r.matches(S)
    except TypeError:
        check(on, "check-off", (label, "raised although the check is off"))
        check(bad, "check-on", (label, "raised for a conforming value"))
        check(len(events("rule")) == 0, "before-rules", label)
        return None
    check(not (on and bad), "check-on", (label, "accepted a value that is not of the declared type"))
    check(len(events("rule")) == 1, "rules-run", label)
    return ms


def case_check_values():
    on = switch()
    value, fine = answers()
    private = choose(False, True)
    name = choose(NA, NB, None)
    where = choose(0, 1, 2)
    matches = [(0, 2), (3, 5)]
    r = Rebulk(default_rules=choose(True, False)).rules(Spy).declare_keys(Key(NA, Base))
    kw = {"private": True} if private else {}
    if where == 0:
        r.functional(lambda text: matches, name=name, formatter=lambda raw: value, **kw)
    elif where == 1:
        nested = Rebulk().declare_keys(Key(NC, Base)).functional(lambda text: matches, name=name,
                                                               formatter=lambda raw: value, **kw)
        r.rebulk(nested)
    else:
        nested = Rebulk().declare_keys(Key(NA, Base)).functional(lambda text: matches, name=name,
                                                               formatter=lambda raw: value, **kw)
        r = Rebulk().rules(Spy).rebulk(nested)
    checked(r, not fine and not private and name == NA, on, ("values", where))


def case_check_place():
    """the bad value may be any of the matches of that name"""
    on = switch()
    n = 3
    bad_at = choose(0, 1, 2, None)
    names = [NA, NA, NA] if choose(True, False) else [NB, NA, NA]
    calls = []

    def pattern(i):
        def formatter(raw):
            return "not a Base" if i == bad_at else Base()

        r.functional(lambda text: (i, i + 2), name=names[i], formatter=formatter)

    r = Rebulk(default_rules=False).rules(Spy).declare_keys(Key(NA, Base))
    for i in range(n):
        pattern(i)
    checked(r, bad_at is not None and names[bad_at] == NA, on, "place")


def case_check_literal():
    """literal values are exempt"""
    on = switch()
    r = Rebulk(default_rules=False).rules(Spy).declare_keys(Key(NA, Base), Key(NB, Base))
    r.functional(once, name=NA, value="literal")
    r.functional(once, name=NA, value={NA: 3})
    if choose(True, False):
        r.functional(once, name=NB, formatter=lambda raw: "not a Base")
        checked(r, True, on, "literal")
    else:
        checked(r, False, on, "literal")


def case_check_children():
    """children and parents of regex patterns; a private parent is exempt"""
    on = switch()
    bad = choose(True, False)
    kw = choose({"children": True}, {"every": True}, {"children": True, "private_parent": True})
    r = Rebulk(default_rules=False).rules(Spy).declare_keys(Key("one", Base))
    r.regex("(?P<one>a)b", formatter={"one": lambda raw: "x" if bad else Base()}, **kw)
    setting("regex_total", 1)
    try:
        ms = r.matches(S)
    except TypeError:
        check(on and bad, "check-on", "children")
        check(len(events("rule")) == 0, "before-rules", "children")
        return
    check(not (on and bad and len([m for m in ms if m.name == "one"]) > 0), "check-on", "children accepted")


def case_check_rules():
    """what rules rename afterwards is not the check's business; what nobody declared neither"""
    on = switch()
    r = Rebulk(default_rules=False).rules(Spy, Renamer)
    if choose(True, False):
        r.declare_keys(Key(NA, Base))
    r.functional(once, name=NB, formatter=lambda raw: "x")
    ms = checked(r, False, on, "rules")
    if ms is not None:
        check(len(ms.named(NA)) == 1, "rules-run", "renamed")


def case_check_disabled():
    """keys of a disabled nested rebulk are not enforced, those of an enabled one are"""
    on = switch()
    disabled = choose(True, False, lambda context: True, lambda context: False)
    off = disabled(None) if callable(disabled) else disabled
    r = Rebulk(default_rules=False).rules(Spy).rebulk(Rebulk(disabled=disabled).declare_keys(Key(NA, Base)))
    r.functional(once, name=NA, formatter=lambda raw: "x")
    checked(r, not off, on, "keys of a nested rebulk")


def case_check_parent_wins():
    """the key of the parent is the declared one"""
    on = switch()
    mine, theirs = choose((Base, str), (str, Base))
    r = Rebulk(default_rules=False).rules(Spy).declare_keys(Key(NA, mine))
    r.rebulk(Rebulk().declare_keys(Key(NA, theirs)))
    r.functional(once, name=NA, formatter=lambda raw: "x")
    checked(r, mine is Base, on, "keys of a parent and a nested rebulk")
    check(r.effective_keys()[NA].value_type is mine, "declared-key", "parent first")


def case_direct():
    """the check called directly enforces whatever the switch says"""
    value, fine = answers()
    ms = Rebulk(default_rules=False).declare_keys(Key(NA, Base)).functional(
        once, name=NA, formatter=lambda raw: value).matches(S)
    e = raises(TypeError, ms.check_declared_keys)
    check((e is None) == fine, "check-on", "check_declared_keys()")


def case_check_environment():
    """the check is off unless the environment asks for it"""
    asked = environment("REBULK_CHECK_DECLARED_KEYS") in ("1", "true", "TRUE", "Yes", "on", " 1 ")
    bad = choose(True, False)
    r = Rebulk(default_rules=False).rules(Spy).declare_keys(Key(NA, Base))
    r.functional(once, name=NA, formatter=lambda raw: "x" if bad else Base())
    checked(r, bad, asked, "environment")


# ---------------------------------------------------------------- check_keys
def producing(r, how):
    """one pattern, and the names it can produce"""
    if how == 0:
        r.string("a", name="n1")
        return ["n1"]
    if how == 1:
        r.regex("(?P<n2>a)(?P<n3>b)", "(?P<n4>c)", name="n1")
        return ["n1", "n2", "n3", "n4"]
    if how == 2:
        r.functional(once, name="n1", properties={"n2": [1], "n3": [2]})
        return ["n1", "n2", "n3"]
    if how == 3:
        r.chain(name="n1").string("a", name="n2").regex("(?P<n3>a)").repeater("*").close()
        return ["n1", "n2", "n3"]
    if how == 4:
        c = r.chain()
        c.string("x")
        c.chain(name="n2").functional(once, name="n3").close()
        return ["n2", "n3"]
    if how == 5:
        r.string("a", name="n1", private=True)
        r.string("b", name="n2", marker=True)
        r.string("b", name="n3", disabled=True)
        return ["n1", "n2", "n3"]
    if how == 6:
        r.string("a")
        r.functional(once, properties={"n4": [1]})
        return ["n4"]
    r.rebulk(Rebulk(disabled=choose(True, False)).string("a", name="n2").declare_keys(Key("n5", str), Key("n1", int)))
    return ["n2"]


NAMES = ["n1", "n2", "n3", "n4", "n5"]


def case_check_keys():
    r = Rebulk()
    declared = choose(["n1", "n2", "n3", "n4"], ["n4", "n3", "n2", "n1"], ["n1"], ["n2", "n3"], [])
    first = choose(True, False)
    if first:
        r.declare_keys(*[Key(n, str) for n in declared])
    names = []
    how = choose(0, 1, 2, 3, 4, 5, 6, 7)
    names.extend(producing(r, how))
    if choose(True, False):
        names.extend(producing(r, choose(0, 3)))
    if not first:
        r.declare_keys(*[Key(n, str) for n in declared])
    if how == 7:
        declared = declared + ["n5", "n1"]
    allowed, exempt = choose(((), []), ("n1", ["n1"]), (["n1", "n4"], ["n1", "n4"]), (("n4",), ["n4"]), ("n", []),
                             ("n1n4", []))
    want = [n for n in NAMES if n in declared and n not in names and n not in exempt]
    got = r.check_keys(allowed_unused=allowed)
    check(list(got) == want, "unused-keys", ("patterns", how))
    if not exempt:
        check(list(r.check_keys()) == want, "unused-keys", ("patterns", how, "default"))


def case_check_keys_nested():
    """several nested rebulks, each with patterns and declarations of its own"""
    where = choose(0, 1, 2, 3)
    many = choose(1, 2, 3)
    r = Rebulk()
    names, declared = [], []
    for i in range(many):
        sub = Rebulk(disabled=choose(True, False))
        name = ["n1", "n2", "n3"][i]
        if where != i:
            sub.regex("(?P<" + name + ">a)", "b")
            names.append(name)
        (sub if choose(True, False) else r).declare_keys(Key(name, str))
        declared.append(name)
        r.rebulk(sub)
    check(list(r.check_keys()) == [n for n in declared if n not in names], "unused-keys", ("nested rebulks", many))
