# C28: the value and raw text of a match, formatter and validator combinators.
from rebulk import Rebulk
from rebulk.formatters import formatters, default_formatter
from rebulk.match import Match, Matches
from rebulk.pattern import FunctionalPattern, RePattern, StringPattern
from rebulk.validators import allways_true, chars_after, chars_before, chars_surround, validators
from common import NA, NB, NC, dressed, same_items

CONFIG = {"*": {"max_paths": 6000, "seconds": 120, "regex_total": 1}}

S = unknown("text", "str")
T = unknown("other text", "str")
V, W = distinct("atom", "v", "w")


def literal():
    """literal values of every truth value"""
    return choose(None, unknown("literal"), 0, "", [], False, [0], V)


class Formatter:
    """a formatter whose results are unknown, and whose truth value is its own business"""

    def __init__(self, label, result):
        self.label = label
        self.result = result
        self.given = []

    def __call__(self, text):
        event("formatted", self.label)
        self.given.append(text)
        return self.result


def a_formatter():
    i = choose(3)
    if i == 0:
        return None
    if i == 1:
        return Formatter("formatter", unknown("formatted"))
    return Formatter("formatter", choose(None, "", 0, []))


def text_of(m, text, start, end):
    """the raw text; nothing is claimed about an empty input string"""
    if text is None:
        check(m.raw is None, "raw", "without input string")
        return False
    if len(text) == 0:
        return False
    check(m.raw == text[start:end], "raw", ("raw", m.raw))
    return True


def value_of(m, value, formatter, label):
    """value against literal, formatter and raw text"""
    raw = m.raw
    n = len(events("formatted"))
    got = m.value
    if value:
        check(got is value, "value", (label, "literal"))
        check(len(events("formatted")) == n, "value", (label, "formatter used although a literal is set"))
    elif formatter is not None:
        check(len(events("formatted")) == n + 1, "value", (label, "formatter calls"))
        check(got is formatter.result, "value", (label, "formatted"))
        check(len(formatter.given) > 0 and same_text(formatter.given[-1], raw), "value", (label, "text given to the formatter"))
    else:
        check(same_text(got, raw), "value", (label, "raw text"))


def same_text(a, b):
    return a is b or a == b


def case_value():
    text = choose(S, None, "abcdef")
    start = unknown("start", "int")
    end = unknown("end", "int")
    le(0, start)
    le(start, end)
    value = literal()
    formatter = a_formatter()
    m = Match(start, end, value=value, formatter=formatter, input_string=text)
    text_of(m, text, start, end)
    check(m.raw_start == start and m.raw_end == end, "raw", "defaults of the raw span")
    value_of(m, value, formatter, "value")
    check(m.has_literal_value == (True if value else False), "value", "has_literal_value")


def case_raw_span():
    """the raw span is independent of the span when it is set"""
    text = choose(S, "abcdef")
    a, b, c, d = unknown("a", "int"), unknown("b", "int"), unknown("c", "int"), unknown("d", "int")
    le(0, a)
    le(a, b)
    le(0, c)
    le(c, d)
    m = Match(a, b, input_string=text)
    which = choose(0, 1, 2, 3, 4)
    start, end = a, b
    if which in (1, 3):
        m.raw_start = start = choose(c, 0)
    if which in (2, 3):
        m.raw_end = end = d
    if which == 4:
        m.raw_start = c
        m.raw_end = d
        m.raw_start = None
        m.raw_end = None
    check(m.raw_start == start, "raw", "raw_start")
    check(m.raw_end == end, "raw", "raw_end")
    check(m.start == a and m.end == b and m.span == (a, b), "raw", "the span itself")
    text_of(m, text, start, end)
    value_of(m, None, None, "raw span")


def case_changes():
    """every change is seen by the next access"""
    f = Formatter("one", unknown("one"))
    g = Formatter("two", unknown("two"))
    m = Match(2, 5, formatter=choose(f, None), input_string="abcdefgh")
    for x in range(choose(0, 1)):
        m.raw
        m.value
    what = choose("span", "raw", "text", "formatter", "value", "remove value", "raw span removed")
    value, start, end, text = None, 2, 5, "abcdefgh"
    if what == "span":
        m.start = start = 1
        m.end = end = 7
    elif what == "raw":
        m.raw_start = start = 0
        m.raw_end = end = 6
    elif what == "text":
        m.input_string = text = "hgfedcba"
    elif what == "formatter":
        m.formatter = g
    elif what == "value":
        m.value = value = V
        assume(V)
    elif what == "remove value":
        m.value = V
        m.value
        m.value = None
    else:
        m.raw_start = 0
        m.raw
        m.raw_start = None
    text_of(m, text, start, end)
    value_of(m, value, m.formatter, ("after a change of", what))
    value_of(m, value, m.formatter, ("again, after a change of", what))


# ---------------------------------------------------------------- matches of patterns
TEXT = "xx ab-cd yy"


def pair(text):
    return [(3, 5), (6, 8)]


def case_patterns():
    """matches of every kind of pattern with formatters and literals"""
    kind = choose(0, 1, 2)
    f = Formatter("formatter", unknown("formatted"))
    value, effective = choose((None, None), (V, V), ({NA: V}, V), ({NB: V}, None), ({None: V}, None))
    assume(V)
    formatter = choose(None, f, {NA: f}, {NB: f}, formatters(f))
    used = f if formatter is not None and formatter != {NB: f} else None
    options = dict(name=NA, value=value, formatter=formatter)
    if value == {None: V}:
        options["name"] = NA
        effective = "skip"
    if kind == 0:
        p = StringPattern("ab", "cd", **options)
    elif kind == 1:
        p = FunctionalPattern(pair, **options)
    else:
        p = RePattern("ab|cd", **options)
    for m in p.matches(TEXT):
        if kind != 2:
            check(m.raw == TEXT[m.start:m.end] and m.raw in ("ab", "cd"), "raw", ("raw text of a match, kind", kind))
        if effective != "skip":
            value_of(m, effective, used, ("match of a pattern, kind", kind))


def case_groups():
    """children have formatters and literals of their own"""
    f, g = Formatter("one", unknown("one")), Formatter("two", unknown("two"))
    v = choose({}, {"one": V}, {"two": W})
    assume(V)
    assume(W)
    p = RePattern("(?P<one>a)(?P<two>b)", name=NA, children=True, formatter={"one": f, "two": g}, value=v)
    for m in p.matches(TEXT):
        if m.name == "one":
            value_of(m, v.get("one"), f, "group one")
        elif m.name == "two":
            value_of(m, v.get("two"), g, "group two")
        check(m.raw == TEXT[m.start:m.end], "raw", "raw text of a group")


def case_functional_own():
    """a functional pattern may give the value of its match itself; the formatter is the one of the pattern"""
    f = Formatter("formatter", unknown("formatted"))
    more = choose({}, {"value": V}, {"value": None}, {"value": 0})
    as_dict = choose(False, True)
    assume(V)
    r = dict(more, start=3, end=5) if as_dict else (3, 5, more)
    p = FunctionalPattern(lambda text: r, name=NA, formatter=f)
    for m in p.matches(TEXT):
        value_of(m, more.get("value"), f, "functional")


# ---------------------------------------------------------------- combinators
class Step:
    """a function of a chain"""

    def __init__(self, label, result):
        self.label = label
        self.result = result

    def __call__(self, x):
        event("step", self.label, x)
        return self.result


def case_formatters():
    n = choose(0, 1, 2, 3)
    a, b, c = choose(unknown("ra"), None, ""), choose(unknown("rb"), 0), unknown("rc")
    steps = [Step("a", a), Step("b", b), Step("c", c)][:n]
    first = choose(S, None, "")
    chain = formatters(*steps)
    for again in range(2):
        before = len(events("step"))
        got = chain(first)
        done = events("step")[before:]
        check(len(done) == n, "formatters", "each function once")
        given = first
        for i in range(n):
            if i < len(done):
                check(done[i][0] == steps[i].label, "formatters", ("order", i))
                check(done[i][1] is given, "formatters", ("argument of function", i))
            given = steps[i].result
        check(got is given, "formatters", "result")
    check(default_formatter(first) is first, "formatters", "default_formatter")


def case_formatters_nested():
    a, b, c = unknown("ra"), unknown("rb"), unknown("rc")
    sa, sb, sc = Step("a", a), Step("b", b), Step("c", c)
    chain = choose(formatters(sa, formatters(sb, sc)), formatters(formatters(sa, sb), sc),
                   formatters(sa, default_formatter, sb, sc), formatters(sa, formatters(), sb, sc))
    got = chain(S)
    done = events("step")
    check([d[0] for d in done] == ["a", "b", "c"], "formatters", "order of nested formatters")
    check(got is c, "formatters", "result of nested formatters")


def case_formatters_same():
    """the same function several times"""
    s = Step("a", unknown("ra"))
    chain = formatters(s, s)
    chain(S)
    check(len(events("step")) == 2, "formatters", "a function that is given twice")


def case_validators():
    n = choose(0, 1, 2, 3)
    results = [choose(unknown("va"), True, None), choose(unknown("vb"), "", True), unknown("vc")][:n]
    steps = []
    for i in range(n):
        steps.append(Step(i, results[i]))
    m = dressed(Match(1, 3, value=choose("v", None), input_string=choose("abcdef", None)))
    want = True
    for r in results:
        if not r:
            want = False
    accept = validators(*steps)
    for again in range(2):
        got = accept(m)
        check((True if got else False) == want, "validators", ("verdict of", n))
    for e in events("step"):
        check(e[1] is m, "validators", "the match is given to each function")
    check(True if allways_true(m) else False, "validators", "allways_true")


def case_validators_nested():
    a, b, c = unknown("va"), unknown("vb"), unknown("vc")
    sa, sb, sc = Step("a", a), Step("b", b), Step("c", c)
    accept = choose(validators(sa, validators(sb, sc)), validators(validators(sa, sb), sc), validators(sa, allways_true, sb, sc),
                    validators(sa, validators(), sb, sc))
    m = Match(1, 3, value="v")
    want = True if a and b and c else False
    check((True if accept(m) else False) == want, "validators", "nested")


def case_chars():
    """the neighbours of a match in an unknown text"""
    start = unknown("start", "int")
    end = unknown("end", "int")
    le(0, start)
    le(start, end)
    le(end, len(S))
    chars = choose("-.", ["-", "."], frozenset(["-"]), "", [])
    m = dressed(Match(start, end, value=choose("v", None), input_string=S))
    before = True
    if start > 0:
        before = S[start - 1] in chars
    after = True
    if end < len(S):
        after = S[end] in chars
    check(truth(chars_before(chars, m)) == before, "chars", ("chars_before", chars))
    check(truth(chars_after(chars, m)) == after, "chars", ("chars_after", chars))
    check(truth(chars_surround(chars, m)) == (before and after), "chars", ("chars_surround", chars))


def truth(x):
    return True if x else False


def case_chars_concrete():
    """whole texts, so that nothing depends on the text being unknown"""
    text = choose("a", "-a-", "ba-", "-ab", "bab", "")
    start, end = choose((0, 1), (1, 2), (0, 0), (2, 3), (0, 3))
    if end > len(text):
        return
    m = dressed(Match(start, end, value="v", input_string=text))
    before = start == 0 or text[start - 1] in "-_"
    after = end == len(text) or text[end] in "-_"
    check(truth(chars_before("-_", m)) == before, "chars", ("chars_before", text, start))
    check(truth(chars_after("-_", m)) == after, "chars", ("chars_after", text, end))
    check(truth(chars_surround("-_", m)) == (before and after), "chars", ("chars_surround", text, start, end))


def case_chars_raw_span():
    """the neighbours are those of the match, whatever its raw span"""
    text = choose("-a-b", "bab-", "aaaa", "-aa-")
    m = Match(1, 2, input_string=text, value=choose("v", None))
    m.raw_start = choose(None, 0, 1, 2)
    m.raw_end = choose(None, 2, 3, 4)
    check(truth(chars_before("-", m)) == (text[0] == "-"), "chars", ("chars_before and the raw span", text))
    check(truth(chars_after("-", m)) == (text[2] == "-"), "chars", ("chars_after and the raw span", text))
    check(truth(chars_surround("-", m)) == (text[0] == "-" and text[2] == "-"), "chars", ("chars_surround and the raw span", text))
