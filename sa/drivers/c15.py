# C15: spans, raw texts, input strings and links of matches refer to the string given to matches().
from rebulk import Rebulk
from rebulk.match import Match
from rebulk.pattern import StringPattern, RePattern, FunctionalPattern
from common import NA, NB, NC, NO, TX, same_items, has

CONFIG = {"*": {"max_paths": 4000, "seconds": 120, "regex_total": 1},
          "case_string": {"k": 1}, "case_string_ignore_case": {"k": 1}, "case_chain_strings": {"k": 1},
          "case_chain_ignore_case": {"k": 1},
                    "case_chain_failed": {"max_loop": 10},
          "case_repeated": {"available": {"regex": True}, "env": {"REBULK_REGEX_ENABLED": "1"}}}

S = unknown("text", "str")
le(24, len(S))
OTHER = unknown("another text", "str")
le(30, len(OTHER))


U = unknown("short text", "str")


def where(text):
    """position in S of the beginning of a searched text, or None when it is no aligned part of S"""
    if text is S or text is U:
        return 0
    p = provenance(text)
    if p[0] == "slice" and (p[1] is S or p[1] is U):
        return p[2]
    if p[0] in ("lower", "upper", "casefold", "translate", "swapcase"):
        base = where(p[1])
        if base is not None and known("==", len(text), len(p[1])):
            return base
        return None
    if p[0] == "join":
        # one piece for each character
        at = None
        n = 0
        for piece in p[1:]:
            q = provenance(piece)
            if q[0] in ("lower", "upper", "casefold"):
                if not known("==", len(piece), 1):
                    return None
                piece = q[1]
                q = provenance(piece)
            if piece is S or piece is U:
                start = 0
            elif q[0] == "slice" and (q[1] is S or q[1] is U):
                start = q[2]
            else:
                return None
            if not known("==", len(piece), 1):
                return None
            if at is None:
                at = start
            elif not known("==", start, at + n):
                return None
            n = n + 1
        return at
    return None


def refers(m, start, end, label, text=S):
    check(m.start == start and m.end == end, "span-of-the-occurrence", (label, "span", m.start, m.end, "found", start, end))
    check(m.input_string is text, "input-string", (label,))
    check(m.raw_start == start and m.raw_end == end, "raw-span", (label,))
    check(m.raw == text[start:end], "raw-text", (label, m.raw))


def occurrences(kind_of_event="find"):
    """(start, end) in S of what the searches of the path found"""
    out = []
    for e in events("find"):
        if e[4] != -1 and not known("==", len(e[1]), 0):
            base = where(e[0])
            check(base is not None, "span-of-the-occurrence", ("searched in", e[0]))
            out.append((base + e[4], base + e[4] + len(e[1])))
    return out


def case_string():
    sub = unknown("sub", "str")
    le(1, len(sub))
    opts = choose({}, {"name": NA, "tags": [TX]}, {"marker": True}, {"children": True, "private_parent": True})
    p = StringPattern(sub, **opts)
    out = p.matches(S)
    places = occurrences()
    check(len(out) == len(places), "span-of-the-occurrence", "number of occurrences")
    for m, w in zip(out, places):
        refers(m, w[0], w[1], "string")
        check(m.pattern is p, "pattern-link", "string")
        check(m.parent is None, "parent-link", "string")


def case_string_ignore_case():
    sub = choose("Ab", unknown("sub", "str")) if thorough() else "Ab"
    if sub != "Ab":
        le(1, len(sub))
    r = Rebulk(default_rules=False).string(sub, ignore_case=True)
    out = r.matches(U)
    places = occurrences()
    check(len(out) == len(places), "span-of-the-occurrence", "number of occurrences")
    for m, w in zip(out, places):
        check(m.start == w[0], "span-of-the-occurrence", "ignore_case")
        refers(m, w[0], w[0] + len(sub), "ignore_case", U)


def regex_links(m, e, names, base, p, label):
    refers(m, base + e[2], base + e[3], label)
    check(m.pattern is p, "pattern-link", (label,))
    want = []
    for g in range(len(e[4])):
        for s, t in e[4][g]:
            if s < t:
                want.append((s, t, names[g]))
    check(len(m.children) == len(want), "span-of-the-occurrence", (label, "children"))
    for c, w in zip(m.children, want):
        refers(c, base + w[0], base + w[1], (label, "group"))
        check(c.parent is m, "parent-link", (label, "group"))
        check(c.pattern is p, "pattern-link", (label, "group"))
        check(c.name == w[2], "group-name", (label, c.name, w[2]))


def case_regex():
    name = choose(NA, None)
    text, names = choose(("(?P<one>a)(b)?", ["one", name]), ("(x)?(?P<two>y)(z)", [name, "two", name]), ("a", []))
    p = RePattern(text, name=name, **choose({}, {"every": True}, {"private_children": True, "tags": [TX]}))
    out, raw = p.matches(S, with_raw_matches=True)
    hits = [e for e in events("regex") if e[2] < e[3]]
    check(len(raw) == len(hits), "span-of-the-occurrence", "number of occurrences")
    for m, e in zip(raw, hits):
        regex_links(m, e, names, 0, p, "regex")
    for m in out:
        check(has(raw, m) or has(raw, m.parent), "parent-link", "emitted")


def case_repeated():
    p = RePattern("(?P<one>a)*(b)", name=NA)
    out, raw = p.matches(S, with_raw_matches=True)
    hits = [e for e in events("regex") if e[2] < e[3]]
    for m, e in zip(raw, hits):
        regex_links(m, e, ["one", NA], 0, p, "repeated captures")


def case_functional():
    """nothing a functional pattern returns redirects its matches"""
    s, e = unknown("start", "int"), unknown("end", "int")
    le(0, s)
    lt(s, e)
    le(e, len(S))
    stranger = StringPattern("zz", name=NB)
    extra = choose({"input_string": OTHER}, {"pattern": stranger}, {"input_string": OTHER, "pattern": stranger, "name": NC},
                   {"input_string": None}, {"pattern": None}, {})
    form = choose(0, 1, 2)
    ret = [dict(extra, start=s, end=e), (s, e, extra), [(s, e, extra)]][form]
    p = FunctionalPattern(lambda text: ret, **choose({}, {"name": NA}))
    out = p.matches(S)
    check(len(out) == 1, "span-of-the-occurrence", "functional")
    refers(out[0], s, e, "functional")
    check(out[0].pattern is p, "pattern-link", "functional")


def case_functional_options():
    """options of the pattern do not redirect its matches either"""
    kw = choose({"start": 3}, {"end": 9}, {"parent": unknown("parent")}, {})
    kind = choose(0, 1)
    s, e = unknown("start", "int"), unknown("end", "int")
    le(0, s)
    lt(s, e)
    le(e, len(S))
    if kind == 0:
        p = FunctionalPattern(lambda text: (s, e), **kw)
        out = p.matches(S)
        refers(out[0], s, e, "functional")
        check(out[0].parent is None, "parent-link", "functional")
    else:
        p = RePattern("a(b)", **kw)
        out = p.matches(S)
        for m, ev in zip(out, [x for x in events("regex") if x[2] < x[3]]):
            regex_links(m, ev, [None], 0, p, "regex")
            check(m.parent is None, "parent-link", "regex")


# ---------------------------------------------------------------- chains
def part(label, *answers):
    """a functional part with its own answers per call: spans of the text it is given"""
    calls = []

    def find(text, context):
        n = len(calls)
        calls.append(n)
        out = []
        base = where(text)
        check(base is not None, "span-of-the-occurrence", ("the text given to a part is no part of the input", text))
        for s, e in (answers[n] if n < len(answers) else []):
            token = unknown("value of " + label)
            assume(token)
            event("answer", token, base + s, base + e)
            out.append((s, e, {"value": token}))
        return out

    return find


def answered(ms, label):
    """each match of a part is where the part found it"""
    for m in ms:
        for e in events("answer"):
            if m.value is e[0]:
                refers(m, e[1], e[2], label)


def chain_links(chains, label):
    for c in chains:
        check(c.input_string is S, "input-string", (label, "chain"))
        check(len(c.children) > 0, "parent-link", (label, "a chain without parts"))
        for x in c.children:
            check(c.start <= x.start and x.end <= c.end, "span-of-the-occurrence", (label, "a part outside its chain"))
        check(c.start == c.children[0].start and c.end == c.children[-1].end, "span-of-the-occurrence",
              (label, "span of the chain"))
        check(c.raw == S[c.start:c.end], "raw-text", (label, "chain"))
        answered(c.children, label)
        for x in c.children:
            check(x.initiator is c, "parent-link", (label, "part"))


def case_chain():
    """two parts at an unknown place"""
    at, n1, n2 = unknown("at", "int"), unknown("length 1", "int"), unknown("length 2", "int")
    le(0, at)
    le(at, 6)
    le(1, n1)
    le(n1, 3)
    le(1, n2)
    le(n2, 3)
    r = Rebulk(default_rules=False)
    r.chain(name=NC, **choose({}, {"every": True}, {"children": True}, {"marker": True}))\
        .functional(part("one", [(at, at + n1)]), name=NA)\
        .functional(part("two", [(0, n2)]), name=NB).close()
    ms = r.matches(S)
    out = list(ms) + list(ms.markers)
    chains = []
    for m in out:
        answered([m], "chain")
        if not has(chains, m.initiator):
            chains.append(m.initiator)
    check(len(chains) == 1, "span-of-the-occurrence", "chains found")
    chain_links(chains, "chain")
    check(chains[0].start == at and chains[0].end == at + n1 + n2, "span-of-the-occurrence", "chain")


def case_chain_later():
    """three parts, repeated parts, and several chains in one text"""
    g = unknown("gap", "int")
    le(0, g)
    le(g, 2)
    second = choose(("+", [(0, 2), (2, 3)]), ("{0,1}", []), ("*", [(0, 1), (1, 2), (2, 4)]))
    r = Rebulk(default_rules=False)
    r.chain(name=NC).functional(part("one", [(g, g + 2)], [(g, g + 1)]), name=NA)\
        .functional(part("two", second[1], second[1]), name=NB).repeater(second[0])\
        .functional(part("three", [(0, 3)], [(0, 1)]), name=NA).close()
    out = r.matches(S)
    check(len(out) == 2, "span-of-the-occurrence", ("chains", len(out)))
    chain_links(out, "later part")


def case_chain_failed():
    """after a partial chain that failed, the next one is where it was found"""
    g1, g2 = unknown("gap 1", "int"), unknown("gap 2", "int")
    le(0, g1)
    le(g1, 2)
    le(0, g2)
    le(g2, 2)
    hidden = choose(False, True)
    missing = choose([], [(1, 2)])
    r = Rebulk(default_rules=False)
    b = r.chain(name=NC).functional(part("one", [(g1, g1 + 2)], [(g2, g2 + 3)]), name=NA)
    if hidden:
        b = b.hidden()
    b.functional(part("two", [(0, 2)], [(0, 1)]), name=NB)\
        .functional(part("three", missing, [(0, 3)]), name=NA).close()
    out = r.matches(S)
    check(len(out) == 1, "span-of-the-occurrence", ("chains", len(out)))
    chain_links(out, "after a failed chain")


def case_chain_nested():
    """a chain as a part of a chain"""
    g = unknown("gap", "int")
    le(0, g)
    le(g, 2)
    r = Rebulk(default_rules=False)
    b = r.chain(name=NC)
    b.functional(part("one", [(g, g + 2)]), name=NA)
    b.chain(name=NO, **choose({}, {"children": True}, {"every": True}))\
        .functional(part("two", [(0, 2)]), name=NB).functional(part("three", [(0, 3)]), name=NB).close()
    b.functional(part("four", [(0, 1)]), name=NA).close()
    out = r.matches(S)
    check(len(out) == 1, "span-of-the-occurrence", ("chains", len(out)))
    answered(out[0].children, "nested chain")
    check(out[0].start == g and out[0].end == g + 8, "span-of-the-occurrence", "nested chain")
    for c in out[0].children:
        check(c.input_string is S, "input-string", "nested chain")
        check(c.raw == S[c.start:c.end], "raw-text", "nested chain")
        for x in c.children:
            answered([x], "nested chain")


def case_chain_strings():
    """string parts"""
    r = Rebulk(default_rules=False)
    r.chain(every=True).string("ab", name=NA).string("cd", name=NB).close()
    out = r.matches(S)
    places = occurrences()
    for m in out:
        if m.name in (NA, NB):
            refers(m, m.start, m.start + 2, "string part")
            check(len([p for p in places if p[0] == m.start and p[1] == m.end]) > 0, "span-of-the-occurrence", "string part")
        check(m.input_string is S, "input-string", "string part")


def case_chain_ignore_case():
    r = Rebulk(default_rules=False)
    le(4, len(U))
    r.chain(every=True).functional(part("one", [(1, 2)]), name=NA).string("Ab", name=NB, ignore_case=True).close()
    out = r.matches(U)
    for m in out:
        if m.name == NB:
            refers(m, 2, 4, "string part, ignore_case", U)


def case_chain_regex():
    """regex parts with groups"""
    r = Rebulk(default_rules=False)
    which = choose(0, 1)
    g = unknown("gap", "int")
    le(0, g)
    le(g, 2)
    r.chain(name=NC, every=True).functional(part("one", [(g, g + 2)]), name=NB)\
        .regex(["(?P<one>a)b", "a(b)"][which], name=NA, **choose({"every": True}, {"children": True}, {}) if thorough() else [{"every": True}, {"children": True}][which]).close()
    out = r.matches(S)
    for c in out:
        if c.name == NC:
            lo, hi = c.children[0].start, c.children[0].end
            for x in c.children:
                lo, hi = min(lo, x.start), max(hi, x.end)
                check(x.initiator is c, "parent-link", "part of a chain")
            check(c.start == lo and c.end == hi, "span-of-the-occurrence", ("chain around its parts", c.start, c.end, lo, hi))
    p = r._patterns[0].parts[1].pattern
    hits = [e for e in events("regex") if e[2] < e[3]]
    for m in out:
        if m.pattern is p:
            ok = False
            for e in hits:
                base = where(e[1])
                check(base is not None, "span-of-the-occurrence", ("searched in", e[1]))
                ok = ok or m.start == base + e[2] and m.end == base + e[3]
                for gs in e[4]:
                    for s, t in gs:
                        ok = ok or m.start == base + s and m.end == base + t
            check(ok, "span-of-the-occurrence", ("regex part", m.name))
            check(m.raw == S[m.start:m.end], "raw-text", "regex part")
        check(m.input_string is S, "input-string", "regex part")


def case_chain_processed():
    """bounds of the raw text set by a processor of a later part"""

    def strip(match):
        match.raw_start, match.raw_end = match.start, match.end
        match.start = match.start + 1
        match.end = match.end - 1

    g = unknown("gap", "int")
    le(0, g)
    le(g, 2)
    r = Rebulk(default_rules=False)
    r.chain(children=True).functional(part("one", [(g, g + 2)]), name=NA)\
        .functional(part("two", [(0, 4)]), name=NB, pre_match_processor=strip)\
        .functional(part("three", [(0, 2)]), name=NO).close()
    out = r.matches(S)
    check(len(out) == 3, "raw-span", ("parts", len(out)))
    for m in out:
        if m.name == NB:
            check(m.start == g + 3 and m.end == g + 5, "span-of-the-occurrence", "processed part")
            check(m.raw_start == g + 2 and m.raw_end == g + 6, "raw-span", ("processed part", m.raw_start, m.raw_end))
            check(m.raw == S[g + 2:g + 6], "raw-text", "processed part")
        else:
            answered([m], "parts around a processed part")


def case_shared_engine():
    """another text searched before does not matter"""
    sub = unknown("sub", "str")
    le(1, len(sub))
    p = FunctionalPattern(lambda text: [(1, 3), (4, 6)], name=NA)
    p.matches(OTHER)
    out = p.matches(S)
    for m, w in zip(out, [(1, 3), (4, 6)]):
        refers(m, w[0], w[1], "second text")
