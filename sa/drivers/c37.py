# C37: what is searched is what was configured: expressions, flags and abbreviations, over the whole text.
import re
from rebulk import Rebulk
from rebulk.chain import Chain
from rebulk.pattern import RePattern, StringPattern, FunctionalPattern
from common import NA, NB, NC, same_items

CONFIG = {"*": {"max_paths": 60000, "seconds": 300, "regex_total": 0, "k": 1}}

S = unknown("text", "str")
le(3, len(S))
P, Q = distinct("str", "expression", "other expression")
KEY, REPLACEMENT = unknown("key", "str"), unknown("replacement", "str")
le(1, len(KEY))
F, G = unknown("flags", "int"), unknown("other flags", "int")


def abbreviations():
    return choose(None, [], [("-", "[ab]"), ("[", "z")], [("-", "<->"), ("<->", "a"), ("a", "aa-")], [["-", "-x"], ["-", "y"], ["b", "-"]],
                  [(KEY, REPLACEMENT), ("-", "x")], (("a", ""),))


def replaced(text, pairs):
    for key, replacement in pairs or []:
        text = text.replace(key, replacement)
    return text


def text():
    return choose(P, "a-b[c]-", "-")


def given(t, flags):
    """an expression in each of its forms, what it must be compiled to, and whether it is compiled by rebulk"""
    how = choose("str", "dict", "dict without flags", "tuple", "list", "tuple without flags", "compiled")
    if how == "str":
        return how, t, flags
    if how == "dict":
        return how, {"pattern": t, "flags": G}, G
    if how == "dict without flags":
        return how, {"pattern": t}, 0
    if how == "tuple":
        return how, (t, G), G
    if how == "list":
        return how, [t, G], G
    if how == "tuple without flags":
        return how, (t,), 0
    return how, re.compile(t, G), G


def expected(how, t, pairs):
    """abbreviations are for expressions given as text or dict"""
    return replaced(t, pairs) if how in ("str", "dict", "dict without flags") else t


def searches():
    """expression, flags and text of each search that came to its end"""
    return [(e[0].pattern, e[0].flags, e[1]) for e in events("regex-end")]


def same_search(got, want, label):
    check(len(got) == len(want), "searched", (label, "searches", len(got), "expected", len(want)))
    for g, w in zip(got, want):
        check(g[0] == w[0], "expression", (label, "searched for", g[0], "instead of", w[0]))
        check(g[1] == w[1], "flags", (label, "flags", g[1], "instead of", w[1]))
        check(g[2] is w[2] or g[2] == w[2], "searched", (label, "the text"))


def options(pairs, flags):
    out = {}
    if pairs is not None:
        out["abbreviations"] = pairs
    if flags is not None:
        out["flags"] = flags
    return out


def case_expression():
    """one expression of every form, with and without abbreviations and flags"""
    pairs = abbreviations()
    flags = choose(None, F)
    t = text()
    how, e, used = given(t, flags if flags is not None else 0)
    before = snapshot(e) if how in ("dict", "dict without flags", "list") else None
    p = RePattern(e, name=NA, **options(pairs, flags))
    p.matches(S)
    same_search(searches(), [(expected(how, t, pairs), used, S)], how)
    if before is not None:
        check(changed(before) is None, "expression", (how, "the given expression was changed"))
    if how == "compiled":
        check(same_items(p.patterns, [e]), "expression", "a compiled expression is used as it is")


def case_empty():
    """an empty expression stays empty"""
    p = RePattern("", **options(abbreviations(), None))
    p.matches(S)
    same_search(searches(), [("", 0, S)], "empty")


def case_several():
    """several expressions of one pattern, each searched once, in order"""
    pairs = choose(None, [("-", "[ab]"), ("b", "c")])
    how, e, used = given("x-", 0)
    p = RePattern(P, e, "-", name=NA, **options(pairs, None))
    for n in range(choose(1, 2)):
        p.matches(S)
    want = [(replaced(P, pairs), 0, S), (expected(how, "x-", pairs), used, S), (replaced("-", pairs), 0, S)]
    same_search(searches(), want * (n + 1), ("several", how))


def case_twice():
    """what is given twice is searched twice"""
    same = re.compile(P)
    e = choose(P, same, {"pattern": P}, (P,))
    RePattern(e, e, Q, e).matches(S)
    same_search(searches(), [(P, 0, S), (P, 0, S), (Q, 0, S), (P, 0, S)], "twice")
    StringPattern("ab", "c", "ab").matches(S)
    first = [e[1] for e in finds() if e[2] is None or e[2] == 0]
    check(first == ["ab", "c", "ab"], "searched", "strings given twice")


def case_builders():
    """on a rebulk, a chain and a nested chain; options of the pattern, of its kind and of all"""
    pairs = [("-", "[ab]"), ("b", "c")]
    level = choose("pattern", "kind", "all", "nothing")
    o = options(pairs, F) if level != "nothing" else {}
    r = Rebulk(default_rules=False)
    how = choose("rebulk", "chain", "nested chain", "build", "later", "nested rebulk")
    explicit = o if level == "pattern" else {}
    if level == "kind":
        r.regex_defaults(**o)
    elif level == "all":
        r.defaults(**o)
    if how == "rebulk":
        r.regex("x-", **explicit)
    elif how == "chain":
        r.chain().regex("x-", **explicit)
    elif how == "nested chain":
        r.chain().chain().regex("x-", **explicit)
    elif how == "build":
        r.pattern(r.build_re("x-", **explicit))
    elif how == "later":
        r.regex("x-", **explicit)
        r.regex_defaults(abbreviations=[("x", "y")])
        r.defaults(flags=G)
    else:
        r = Rebulk(default_rules=False).rebulk(r.regex("x-", **explicit))
    r.matches(S)
    want = ("x-", 0, S) if level == "nothing" else ("x[ac]", F, S)
    same_search(searches(), [want], (how, level))


def case_second_builder():
    """abbreviations of one pattern are not those of another"""
    r = Rebulk(default_rules=False)
    r.regex("-", abbreviations=[("-", "x")])
    r.regex("-y", **choose({}, {"abbreviations": [("y", "z")]}, {"flags": F}))
    r.regex("-")
    r.matches(S)
    got = searches()
    check(len(got) == 3, "searched", "three patterns")
    check(got[0][0] == "x" and got[2][0] == "-" and got[1][0] in ("-y", "-z"), "expression", "of three patterns")
    check(got[0][1] == 0 and got[2][1] == 0, "flags", "of three patterns")


def case_same_expression():
    """patterns with one expression each have their own flags and abbreviations, in any order"""
    texts = ("a-b", "a-b", choose("axb", "a-b"))
    flags = (F, G, 0)
    pairs = (None, [("-", "x")], None)
    order = choose([0, 1, 2], [2, 1, 0], [1, 2, 0])
    made = choose("patterns", "rebulk", "rebulks")
    ps, want = [], []
    for i in order:
        o = options(pairs[i], flags[i] if i != 2 else None)
        if made == "patterns":
            ps.append(RePattern(texts[i], **o))
        else:
            if made == "rebulks" or not ps:
                ps.append(Rebulk())
            ps[-1].regex(texts[i], **o)
        want.append((replaced(texts[i], pairs[i]), flags[i], S))
    for p in ps:
        p.matches(S)
    same_search(searches(), want, ("same expression", made))


def finds():
    return [e for e in events("find")]


def case_strings():
    """each string is searched in the whole text, as it is or in lower case"""
    ignore = choose(None, False, True, 1)
    words = choose(["aB"], ["aB", "C"], [P], [P, "d"]) if ignore in (None, False) else choose(["aB"], ["aB", "C"])
    for w in words:
        le(1, len(w))
    o = {"ignore_case": ignore} if ignore is not None else {}
    p = StringPattern(*words, **o)
    p.matches(S)
    seen = []
    for e in finds():
        if e[2] is None or e[2] == 0:
            seen.append(e)
    check(len(seen) == len(words), "searched", ("strings", "searches", len(seen)))
    for e, w in zip(seen, words):
        if ignore:
            check(e[1] == w.lower(), "expression", ("string", w, "searched as", e[1]))
            check(len(e[0]) == len(S), "searched", "another text")
            check(e[0] == S.lower() or not len(S.lower()) == len(S), "searched", "text in lower case")
        else:
            check(e[1] == w, "expression", ("string", w, "searched as", e[1]))
            check(e[0] is S or e[0] == S, "searched", "another text")


def case_functions():
    """each function is called once with the whole text"""
    calls = []

    def first(t):
        calls.append((1, t))

    def second(t):
        calls.append((2, t))

    p = FunctionalPattern(*choose([first], [first, second], [second, first]), **choose({}, {"name": NA, "children": True}))
    p.matches(S)
    want = [1 if f is first else 2 for f in p.patterns]
    check([n for n, t in calls] == want, "searched", "functions")
    for n, t in calls:
        check(t is S, "searched", "text given to a function")


def case_nothing_else():
    """declaring patterns searches nothing"""
    r = Rebulk(default_rules=False).regex(P, name=NA).string("a", name=NB)
    r.chain().regex(Q).repeater("+").close()
    r.functional(lambda t: fail("searched", "a function was called"), name=NC)
    check(len(events("regex-end")) == 0 and len(finds()) == 0, "searched", "while declaring")
