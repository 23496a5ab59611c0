# C29: which regular expression module is used, in every environment.
# The package is imported inside the entry points: importing it must never fail.

CONFIG = {"*": {"max_paths": 4000, "seconds": 120, "regex_total": 1,
                "env": {"REBULK_REGEX_ENABLED": (None, "1", "true", "True", "Y", "0", "false", "", "N", "no", "off", "False"),
                        "REGEX_DISABLED": (None, "1")},
                "available": {"regex": (True, False, "broken")}},
          "case_import_order": {"env": {"REBULK_REGEX_ENABLED": (None, "1")}},
          "case_patterns": {"env": {"REBULK_REGEX_ENABLED": (None, "1", "0")}},
          "case_results": {"env": {"REBULK_REGEX_ENABLED": (None, "1")}},
          "case_captures": {"env": {"REBULK_REGEX_ENABLED": (None, "1", "True", "false")}},
          "case_captures_later": {"env": {"REBULK_REGEX_ENABLED": (None, "1")}},
          "case_captured": {"env": {"REBULK_REGEX_ENABLED": (None, "1")}, "available": {"regex": (True, False)}}}

ASKED = ("1", "true", "True", "Y")


def wanted():
    """whether the environment selects the regex module"""
    return environment("REBULK_REGEX_ENABLED") in ASKED and available("regex") is True


def name_of(on):
    return "regex" if on else "re"


def imported():
    """the package, or None when importing it fails"""
    try:
        import rebulk
    except Exception as e:
        fail("import", ("the package cannot be imported:", type(e).__name__))
        return None
    check(True, "import", "the package is imported")
    return rebulk


def compiled(label, at_least=1):
    """every expression was compiled by the selected module"""
    want = name_of(wanted())
    seen = events("re.compile")
    check(len(seen) >= at_least, "one-backend", (label, "nothing was compiled"))
    for e in seen:
        check(e[0] == want, "one-backend", (label, "compiled by", e[0], "instead of", want))


def case_backend():
    """the module, the flag and its copies"""
    p = imported()
    if p is None:
        return
    from rebulk import remodule, pattern
    from rebulk.remodule import REGEX_ENABLED, re
    on = wanted()
    check(remodule.REGEX_ENABLED is on, "flag", ("REGEX_ENABLED is", remodule.REGEX_ENABLED))
    check(p.REGEX_ENABLED is on, "flag", ("rebulk.REGEX_ENABLED is", p.REGEX_ENABLED))
    check(REGEX_ENABLED is on, "flag", "REGEX_ENABLED")
    check(re is remodule.re, "one-backend", "the module")
    if on:
        import regex
        check(re is regex, "one-backend", "the standard module although the environment selects regex")
    else:
        import re as standard
        check(re is standard, "one-backend", "not the standard module")


def case_import_order():
    """whatever is imported first"""
    which = choose("pattern", "remodule", "chain", "introspector", "key", "rules")
    try:
        if which == "pattern":
            from rebulk.pattern import RePattern
        elif which == "remodule":
            from rebulk.remodule import re
        elif which == "chain":
            from rebulk.chain import Chain
        elif which == "introspector":
            from rebulk.introspector import introspect
        elif which == "key":
            from rebulk.key import Key
        else:
            from rebulk.rules import Rule
        from rebulk import Rebulk
    except Exception as e:
        fail("import", ("the package cannot be imported:", type(e).__name__))
        return
    from rebulk import REGEX_ENABLED
    check(REGEX_ENABLED is wanted(), "flag", ("first import", which))
    Rebulk().regex("a")
    compiled(("first import", which))


def case_patterns():
    """every way to add a regular expression"""
    p = imported()
    if p is None:
        return
    from rebulk.pattern import RePattern
    how = choose("rebulk", "dict", "tuple", "chain", "chain part", "nested", "flags", "abbreviations", "direct", "builder", "second")
    r = p.Rebulk()
    n = 1
    if how == "rebulk":
        r.regex("(?P<one>a)", "b", name="n")
        n = 2
    elif how == "dict":
        r.regex({"pattern": "ab"})
    elif how == "tuple":
        r.regex(("ab", 2))
    elif how == "chain":
        r.chain().regex("ab").close()
    elif how == "chain part":
        r.chain().regex("ab").repeater("*").regex("cd").repeater("{1,2}").close()
        n = 2
    elif how == "nested":
        r.rebulk(p.Rebulk().regex("ab"), p.Rebulk().chain().chain().regex("cd").close())
    elif how == "flags":
        r.regex_defaults(flags=2)
        r.regex("ab")
    elif how == "abbreviations":
        r.defaults(abbreviations=[("a", "b")])
        r.regex("ab", {"pattern": "ac"})
        n = 2
    elif how == "direct":
        RePattern("ab", "cd")
        n = 2
    elif how == "builder":
        r.pattern(RePattern("ab"))
    else:
        r.regex("ab")
        r.matches("xaby")
        p.Rebulk().regex("cd").matches("cd")
        n = 2
    compiled(how, n)
    if how == "chain part":
        for e in events("re.match"):
            check(e[0] == name_of(wanted()), "one-backend", "repeater")


def case_results():
    """searching works in every environment"""
    p = imported()
    if p is None:
        return
    r = p.Rebulk().regex("(?P<one>a)", children=choose(True, False), **choose({}, {"repeated_captures": False}))
    try:
        r.matches("ab")
    except Exception as e:
        fail("import", ("searching fails:", type(e).__name__))
        return
    check(True, "import", "searching")


def case_captures():
    """repeated captures: asked for, switched off, or not mentioned"""
    p = imported()
    if p is None:
        return
    from rebulk.pattern import RePattern
    option, asked = choose((None, None), (True, True), (False, False), (1, True), (0, False), ("", False))
    options = {} if asked is None else {"repeated_captures": option}
    how = choose("direct", "regex", "defaults", "regex_defaults", "chain part", "chain defaults")
    on = wanted()
    if how in ("direct", "regex"):
        options.update(choose({}, {"private": True, "marker": True, "tags": ["t"]}, {"disabled": True, "name": "n"},
                              {"children": True, "every": True, "flags": 2, "validate_all": True},
                              {"abbreviations": [("a", "b")], "private_children": True, "value": "v"}))

    def build():
        if how == "direct":
            return RePattern("a", **options)
        r = p.Rebulk()
        if how == "regex":
            r.regex("a", **options)
        elif how == "defaults":
            r.defaults(**options).regex("a")
        elif how == "regex_defaults":
            r.regex_defaults(**options).regex("a")
        elif how == "chain part":
            c = r.chain()
            c.regex("a", **options)
            return r.effective_patterns()[0].parts[0].pattern
        else:
            r.defaults(**options)
            c = r.chain()
            c.regex("a")
            return r.effective_patterns()[0].parts[0].pattern
        return r.effective_patterns()[0]

    try:
        q = build()
    except NotImplementedError:
        check(asked is True and not on, "repeated-captures", (how, "refused", option))
        return
    except Exception as e:
        fail("repeated-captures", (how, "raises", type(e).__name__))
        return
    check(not (asked is True and not on), "repeated-captures", (how, "accepted without the regex module", option))
    want = on if asked is None else (asked and on)
    check((True if q.repeated_captures else False) == want, "repeated-captures", (how, "used", q.repeated_captures, "expected", want))


def case_captures_later():
    """one pattern never decides for another one"""
    p = imported()
    if p is None:
        return
    from rebulk.pattern import RePattern
    on = wanted()
    try:
        RePattern("a", repeated_captures=choose(True, False))
    except NotImplementedError:
        pass
    q = RePattern("b")
    check((True if q.repeated_captures else False) == on, "repeated-captures", "a later pattern")
    from rebulk import remodule
    check(remodule.REGEX_ENABLED is on, "flag", "changed by a pattern")


def case_captured():
    """each capture becomes a child with that module only, the last capture otherwise"""
    p = imported()
    if p is None:
        return
    option, asked = choose((None, None), (False, False), (True, True))
    on = wanted()
    if asked and not on:
        return
    options = {} if asked is None else {"repeated_captures": option}
    from rebulk.pattern import RePattern
    children = choose(True, False)
    q = RePattern("(?P<one>a)", children=children, private_parent=choose(True, False), **options)
    text = unknown("text", "str")
    le(8, len(text))
    found = q.matches(text)
    if children:
        found = [m for m in found if m.name == "one"]
    else:
        found = [c for m in found for c in m.children]
    repeated = on if asked is None else (asked and on)
    n = 0
    for e in events("regex"):
        spans = [s for s in e[4][0] if s[0] < s[1]]
        if repeated:
            n = n + len(spans)
        else:
            last = e[4][0][-1:]
            n = n + len([s for s in last if s[0] < s[1]])
    check(len(found) == n, "repeated-captures", ("children", len(found), "expected", n))
