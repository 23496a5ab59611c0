# C14: no empty match, no empty regex child; every non-empty occurrence is yielded.
from rebulk import Rebulk
from rebulk.pattern import StringPattern, RePattern, FunctionalPattern
from common import NA, NB, NC, same_items, has

CONFIG = {"*": {"max_paths": 6000, "seconds": 200, "regex_total": 2},
          "case_chain_parts": {"k": 1},
          "case_repeated": {"available": {"regex": True}, "env": {"REBULK_REGEX_ENABLED": "1"}, "regex_total": 1}}

S = unknown("text", "str")
VA = distinct("str", "va")[0]


def spans(ms):
    return [(m.start, m.end) for m in ms]


def non_empty(ms, label):
    for m in ms:
        check(m.start < m.end, "no-empty-match", (label, "span", m.start, m.end))


def both(p):
    """the matches of a pattern; those before processing are never empty either"""
    out, raw = p.matches(S, None, True)
    for m in raw:
        check(m.start < m.end, "no-empty-match", ("unprocessed", m.start, m.end))
    return out


def found():
    """position of every occurrence the searches of the path found; a search goes on where the last one ended"""
    if not len(S):
        return [e[4] for e in events("find") if e[4] != -1]
    places, at, done = [], 0, len(events("find")) == 0
    for e in events("find"):
        check(not done, "every-occurrence", "searched again after the end")
        check((0 if e[2] is None else e[2]) <= at, "every-occurrence", "a part of the text is not searched")
        check(e[3] is None or e[3] == len(S), "every-occurrence", "the end of the text is not searched")
        if e[4] == -1:
            done = True
        else:
            places.append(e[4])
            at = e[4] + (len(e[1]) if len(e[1]) > 0 else 1)
    check(done, "every-occurrence", "the search stopped early")
    return places


def case_string():
    """every occurrence of an unknown string, possibly empty, in an unknown text, possibly empty"""
    sub = choose(unknown("sub", "str"), "", "ab")
    opts = choose({}, {"name": NA, "private": True}, {"every": True})
    p = StringPattern(sub, **opts)
    out = both(p)
    non_empty(out, "string")
    places = found()
    if len(sub) > 0:
        check(len(out) == len(places), "every-occurrence", ("string: found", len(places), "yielded", len(out)))
        for i in range(len(out)):
            check(out[i].start == places[i] and out[i].end == places[i] + len(sub), "every-occurrence", "string")
    else:
        check(len(out) == 0, "no-empty-match", "empty string pattern")


def case_string_ignore_case():
    sub = choose(unknown("sub", "str"), "", "Ab") if thorough() else choose("", "Ab")
    p = StringPattern(sub, ignore_case=True, name=NA)
    out = both(p)
    non_empty(out, "string")
    places = found()
    check(len(out) == (len(places) if len(sub) > 0 else 0), "every-occurrence",
          ("string, ignore_case: found", len(places), "yielded", len(out)))


def case_strings():
    """several strings in one pattern, some of them empty"""
    a, b = unknown("sub", "str"), unknown("other", "str")
    r = Rebulk(default_rules=False).string(a, "", b, name=NA)
    out = r.matches(S)
    non_empty(out, "strings")
    want = len([e for e in events("find") if e[4] != -1 and len(e[1]) > 0])
    check(len(out) == want, "every-occurrence", ("strings", want, len(out)))


PATTERNS = ["(?P<one>a)?(b)?", "(a)(?P<two>b*)(c)", "a*", "(?P<one>(x)|(y))"]


def regex_checks(out):
    """the matches of one regex pattern against what the regular expression found"""
    out = [m for m in out if m.parent is None]
    check(len(events("regex-end")) == 1, "every-occurrence", "the search stopped early")
    hits = [e for e in events("regex") if e[2] < e[3]]
    check(len(out) == len(hits), "every-occurrence", ("regex: found", len(hits), "yielded", len(out)))
    non_empty(out, "regex")
    for m, e in zip(out, hits):
        check(m.start == e[2] and m.end == e[3], "every-occurrence", "regex")
        want = []
        for group in e[4]:
            for s, t in group:
                if s < t:
                    want.append((s, t))
        check(len(m.children) == len(want), "group-children", ("groups that took part", len(want), "children", len(m.children)))
        for c, w in zip(m.children, want):
            check(c.start == w[0] and c.end == w[1], "group-children", "span")
            check(c.start < c.end, "no-empty-match", "regex child")


def case_regex():
    text = choose(*PATTERNS)
    if not thorough():
        setting("regex_total", 2 if text == "a*" else 1)
    p = RePattern(text, name=NA)
    regex_checks(both(p))


def case_regex_several():
    p = RePattern("(?P<one>a)?b*", name=NA, every=choose(True, False))
    regex_checks(both(p))


def case_regex_children():
    """emitted children are never empty"""
    r = Rebulk(default_rules=False).regex("(?P<one>a)?(b)?", **choose({"children": True}, {"every": True}, {"private_children": True}))
    setting("regex_total", 1)
    out = r.matches(S)
    non_empty(out, "emitted")
    want = 0
    for e in events("regex"):
        if e[2] < e[3]:
            if r._patterns[0].every or r._patterns[0].private_children:
                want = want + 1
            for group in e[4]:
                for s, t in group:
                    if s < t:
                        want = want + 1
    check(len(out) == want, "every-occurrence", ("children", want, len(out)))


def case_repeated():
    """repeated captures of the regex module"""
    p = RePattern("(a)*(?P<two>b)*", name=NA)
    regex_checks(both(p))


def functional_checks(results, ret):
    out = both(FunctionalPattern(lambda text: ret, name=NA))
    non_empty(out, "functional")
    want = [(s, e) for s, e in results if s < e]
    check(len(out) == len(want), "every-occurrence", ("functional: returned", len(want), "yielded", len(out)))
    for m, w in zip(out, want):
        check(m.start == w[0] and m.end == w[1], "every-occurrence", "functional")


def span(label):
    s, e = unknown("start " + label, "int"), unknown("end " + label, "int")
    le(0, s)
    le(s, e)
    return s, e


def case_functional_one():
    s, e = span("1")
    form = choose(0, 1, 2, 3, 4)
    ret = [(s, e), [s, e], (s, e, {"value": VA}), {"start": s, "end": e}, {"start": s, "end": e, "name": NB}][form]
    functional_checks([(s, e)], ret)


def case_functional_many():
    one, two, three = span("1"), span("2"), span("3")
    form = choose(0, 1, 2, 3)

    def gen():
        yield one
        yield two
        yield three

    ret = [[one, two, three], (one, two, three), gen(),
           [{"start": one[0], "end": one[1]}, two + ({"value": VA},), list(three)]][form]
    functional_checks([one, two, three], ret)


def case_functional_nothing():
    functional_checks([], choose(None, [], (), {}, False, 0))


def case_functional_inverted():
    """an inverted span is refused, loudly or not, but never yielded"""
    s, e = unknown("start", "int"), unknown("end", "int")
    le(0, e)
    lt(e, s)
    r = Rebulk(default_rules=False).functional(lambda text: choose((s, e), {"start": s, "end": e}), name=NA)
    try:
        out = r.matches(S)
    except ValueError:
        check(True, "no-empty-match", "refused")
        return
    check(len(out) == 0, "no-empty-match", "inverted functional result")


def case_chain_parts():
    """parts of chains"""
    setting("regex_total", 1)
    r = Rebulk(default_rules=False)
    r.chain(every=True).regex("(?P<one>a)?b*" if thorough() else "(?P<one>a)", every=True).string(unknown("sub", "str") if thorough() else "cd").close()
    for m in r.matches(S):
        check(m.start < m.end, "no-empty-match", ("chain", m.start, m.end))
