# C35: a chain match is one run of its parts, repeated as the repeaters allow, and is made of exactly what they found.
from rebulk import Rebulk
from rebulk.match import Match, Matches
from common import NA, NB, NC, NO, TX, same_items, has

CONFIG = {"*": {"max_paths": 4000, "seconds": 120, "regex_total": 1},
          "case_groups_back": {"regex_total": 2}}

S = unknown("text", "str")
le(30, len(S))
O = unknown("offset", "int")
le(0, O)
le(O, 4)


def where(text):
    """position of a searched text in S: it must reach to the end of S"""
    if text is S:
        return 0
    p = provenance(text)
    check(p[0] == "slice" and p[1] is S and (p[3] is None or known("==", p[3], len(S))),
          "next-part-text", ("the text given to a part is no end of the input", text))
    return p[2]


def part(label, log, *answers):
    """a functional part: its answers per call, spans relative to the text it is given; at a place if one is given"""
    calls = []

    def find(text):
        n = len(calls)
        calls.append(n)
        base = where(text)
        log.append(("search", label, n, base))
        out = []
        for s, e in (answers[n] if n < len(answers) else []):
            token = unknown("value of " + label)
            assume(token)
            log.append(("found", label, n, base + s, base + e, token))
            out.append((s, e, {"value": token}))
        return out

    return find


def found(log, label=None, call=None):
    return [e for e in log if e[0] == "found" and (label is None or e[1] == label) and (call is None or e[2] == call)]


def searches(log, label):
    return [e for e in log if e[0] == "search" and e[1] == label]


def made_of(chain, parts, label):
    """the chain match has exactly these part matches, in order and once, and spans them"""
    check(chain.name == NC and chain.input_string is S, "chain-match", (label, "name or input string"))
    check(len(chain.children) == len(parts), "chain-children", (label, len(chain.children), "expected", len(parts)))
    for i in range(len(parts)):
        c = chain.children[i]
        check(c.value is parts[i][5], "chain-children", (label, "the match at", i, "is another one"))
        check(c.start == parts[i][3] and c.end == parts[i][4], "chain-children", (label, "span of the match at", i))
        check(c.parent is chain, "chain-parent", (label, "parent of the match at", i))
    check(chain.start == parts[0][3], "chain-span", (label, "start", chain.start))
    check(chain.end == parts[-1][4], "chain-span", (label, "end", chain.end))


def case_hidden():
    """visible parts make the match; hidden ones have to match and leave nothing"""
    log = []
    r = Rebulk(default_rules=False)
    b = r.chain(name=NC)
    shown = []
    for label, at in (("one", O), ("two", 0), ("three", 0)):
        b = b.functional(part(label, log, [(at, at + 2)]), name=choose(NA, NB) if label == "one" else NB)
        how = choose(None, "hidden()", "hidden(True)", "hidden(False)")
        if how == "hidden()":
            check(b.hidden() is b, "fluent", "hidden()")
        elif how == "hidden(True)":
            b = b.hidden(True)
        elif how == "hidden(False)":
            b = b.hidden(False)
        if how in (None, "hidden(False)"):
            shown.append(label)
        check(b.is_hidden == (how in ("hidden()", "hidden(True)")), "hidden-flag", how)
    b.close()
    out = r.matches(S)
    parts = [e for e in found(log) if e[1] in shown]
    if parts:
        check(len(out) == 1, "one-chain", ("hidden parts", len(out)))
        made_of(out[0], parts, "hidden parts")
    else:
        check(len(out) == 0, "one-chain", "only hidden parts")
    check(searches(log, "two")[0][3] == O + 2, "next-part-text", "second part")
    check(searches(log, "three")[0][3] == O + 4, "next-part-text", "third part")


def case_hidden_required():
    """a hidden part that does not match"""
    log = []
    r = Rebulk(default_rules=False)
    required = choose(True, False)
    b = r.chain(name=NC).functional(part("one", log, [(O, O + 2)]), name=NA)
    b = b.functional(part("two", log, []), name=NB).hidden()
    if not required:
        b = b.repeater(choose("?", "*", "{0,2}"))
    b.functional(part("three", log, [(0, 1)]), name=NB).close()
    out = r.matches(S)
    if required:
        check(len(out) == 0, "required-part", "a hidden part that was not found")
    else:
        check(len(out) == 1, "one-chain", "an optional hidden part")
        made_of(out[0], found(log, "one") + found(log, "three"), "an optional hidden part")


NOTATIONS = [(None, 1, 1), (1, 1, 1), (2, 2, 2), ("2", 2, 2), (0, 0, 0), ("?", 0, 1), ("+", 1, None), ("*", 0, None),
             ("{1,2}", 1, 2), ("{2,3}", 2, 3), ("{2,}", 2, None), ("{,2}", 0, 2), ("{0,1}", 0, 1),
             ("{ 1 , 2 }", 1, 2), ("{2,2}", 2, 2)]


def case_repeater():
    """as many adjacent matches as the repeater allows, in the middle of a chain"""
    log = []
    notation, low, high = choose(*NOTATIONS)
    k = choose(0, 1, 2, 3)
    n = unknown("length", "int")
    le(1, n)
    le(n, 3)
    spans = [(i * n, i * n + n) for i in range(k)]
    r = Rebulk(default_rules=False)
    b = r.chain(name=NC).functional(part("one", log, [(O, O + 2)]), name=NA)
    b = b.functional(part("two", log, spans), name=NB)
    if notation is not None:
        check(b.repeater(notation) is b, "fluent", "repeater()")
    b.functional(part("three", log, [(0, 3)]), name=NA).close()
    out = r.matches(S)
    if k < low:
        check(len(out) == 0, "minimum", (notation, "found", k))
        check(len(searches(log, "three")) == 0, "minimum", (notation, "found", k, "the next part was searched"))
    else:
        take = k if high is None or k < high else high
        check(len(out) == 1, "repetitions", (notation, "found", k, "chains", len(out)))
        check(searches(log, "three")[0][3] == O + 2 + take * n, "next-part-text", (notation, "found", k))
        made_of(out[0], found(log, "one") + found(log, "two", 0)[:take] + found(log, "three"), (notation, k))


def case_repeater_first():
    """the repeater of the first part: several chains, as long as there are matches"""
    log = []
    notation, low, high = choose(*[x for x in NOTATIONS if x[1] > 0])
    k = choose(1, 2, 3)
    spans = [(O + 2 * i, O + 2 * i + 2) for i in range(k)]
    r = Rebulk(default_rules=False)
    b = r.chain(name=NC).functional(part("one", log, spans), name=NA)
    if notation is not None:
        b = b.repeater(notation)
    b.functional(part("two", log, [(0, 3)]), name=NB).close()
    out = r.matches(S)
    if k < low:
        check(len(out) == 0, "minimum", (notation, "found", k))
    else:
        take = k if high is None or k < high else high
        check(len(out) == 1, "repetitions", (notation, "found", k, "chains", len(out)))
        made_of(out[0], found(log, "one", 0)[:take] + found(log, "two"), (notation, k))


def case_repeater_last():
    """an optional last part"""
    log = []
    notation, low, high = choose(*NOTATIONS)
    k = choose(0, 1, 2)
    r = Rebulk(default_rules=False)
    b = r.chain(name=NC).functional(part("one", log, [(O, O + 2)]), name=NA)
    b = b.functional(part("two", log, [(i, i + 1) for i in range(k)]), name=NB)
    if notation is not None:
        b = b.repeater(notation)
    b.close()
    out = r.matches(S)
    if k < low:
        check(len(out) == 0, "minimum", (notation, "found", k))
    else:
        take = k if high is None or k < high else high
        check(len(out) == 1, "repetitions", (notation, "found", k, "chains", len(out)))
        made_of(out[0], found(log, "one") + found(log, "two", 0)[:take], (notation, k))


def case_repeater_again():
    """the last repeater() counts, and it is the one of its part only"""
    log = []
    r = Rebulk(default_rules=False)
    first = choose("+", "{2,5}", 0, "?")
    second = choose("{1,2}", 2, "*", "?")
    b = r.chain(name=NC).functional(part("one", log, [(O, O + 2)]), name=NA)
    b = b.functional(part("two", log, [(0, 1), (1, 2), (2, 3)]), name=NB).repeater(first).repeater(second)
    b.functional(part("three", log, [(0, 1), (1, 2)]), name=NA).close()
    out = r.matches(S)
    take = 3 if second == "*" else 1 if second == "?" else 2
    check(len(out) == 1, "repetitions", (first, second))
    made_of(out[0], found(log, "one") + found(log, "two", 0)[:take] + found(log, "three", 0)[:1], (first, second))


def case_gap():
    """only adjacent matches belong to the run"""
    log = []
    at = choose(0, 1, 2)
    gap = unknown("gap", "int")
    le(0, gap)
    le(gap, 3)
    spans = []
    here = 0
    for i in range(3):
        if i == at:
            here = here + gap
        spans.append((here, here + 2))
        here = here + 2
    optional = choose(True, False)
    r = Rebulk(default_rules=False)
    b = r.chain(name=NC).functional(part("one", log, [(O, O + 2)]), name=NA)
    b = b.functional(part("two", log, spans), name=NB).repeater("*" if optional else "+")
    b.functional(part("three", log, [(0, 1)]), name=NA).close()
    out = r.matches(S)
    take = 3 if gap == 0 else at
    if take == 0 and not optional:
        check(len(out) == 0, "adjacent", ("gap before", at))
        check(len(searches(log, "three")) == 0, "adjacent", ("gap before", at))
    else:
        check(len(out) == 1, "adjacent", ("gap before", at, "chains", len(out)))
        check(searches(log, "three")[0][3] == O + 2 + 2 * take, "next-part-text", ("gap before", at))
        made_of(out[0], found(log, "one") + found(log, "two", 0)[:take] + found(log, "three", 0), ("gap before", at))


def case_gap_first():
    """the first part may be anywhere, its repetitions are adjacent"""
    log = []
    gap = unknown("gap", "int")
    le(0, gap)
    le(gap, 3)
    r = Rebulk(default_rules=False)
    r.chain(name=NC).functional(part("one", log, [(O, O + 2), (O + 2 + gap, O + 4 + gap)]), name=NA).repeater(choose("+", "{1,2}", "{1,3}"))\
        .functional(part("two", log, [(0, 1)]), name=NB).close()
    out = r.matches(S)
    check(len(out) == 1, "adjacent", ("first part", len(out)))
    made_of(out[0], found(log, "one", 0)[:2 if gap == 0 else 1] + found(log, "two", 0), "first part")


def case_gap_between():
    """parts are adjacent"""
    log = []
    gap = unknown("gap", "int")
    le(0, gap)
    le(gap, 3)
    r = Rebulk(default_rules=False)
    r.chain(name=NC).functional(part("one", log, [(O, O + 2)]), name=NA)\
        .functional(part("two", log, [(gap, gap + 1)]), name=NB).close()
    out = r.matches(S)
    if gap == 0:
        check(len(out) == 1, "adjacent", "second part")
        made_of(out[0], found(log, "one", 0) + found(log, "two", 0), "second part")
    else:
        check(len(out) == 0, "adjacent", "second part")


def case_again():
    """where the search goes on: after a chain at its end, after a failed one behind its first match"""
    log = []
    fails = choose(True, False)
    k = choose(1, 2)
    r = Rebulk(default_rules=False)
    b = r.chain(name=NC).functional(part("one", log, [(O + 2 * i, O + 2 * i + 2) for i in range(k)], [(0, 1)]), name=NA).repeater("+")
    b.functional(part("two", log, [] if fails else [(0, 3)], [(0, 2)]), name=NB).close()
    out = r.matches(S)
    check(len(searches(log, "one")) > 1, "search-goes-on", ("failed", fails))
    if fails:
        check(searches(log, "one")[1][3] == O + 2, "search-goes-on", "after a failed chain")
        check(len(out) == 1, "search-goes-on", ("chains", len(out)))
    else:
        check(searches(log, "one")[1][3] == O + 2 * k + 3, "search-goes-on", "after a chain")
        check(len(out) == 2, "search-goes-on", ("chains", len(out)))
        made_of(out[0], found(log, "one", 0) + found(log, "two", 0), "first chain")
    made_of(out[-1], found(log, "one", 1) + found(log, "two", 1), "second chain")


def case_breaker():
    """chain_breaker is asked for each visible repetition; what it answers true for is left out"""
    log = []
    asked = []
    hidden = choose(False, True)

    def breaker(matches):
        answer = choose(True, False)
        if choose(True, False):
            answer = "yes" if answer else None
        asked.append((answer, list(matches)))
        check(isinstance(matches, Matches), "breaker-argument", "no Matches")
        return answer

    r = Rebulk(default_rules=False)
    b = r.chain(name=NC, chain_breaker=breaker).functional(part("one", log, [(O, O + 2)]), name=NA)
    if hidden:
        b = b.hidden()
    b.functional(part("two", log, [(0, 1), (1, 2)]), name=NB).repeater("+").close()
    out = r.matches(S)
    candidates = found(log, "two", 0) if hidden else found(log, "one", 0) + found(log, "two", 0)
    check(len(asked) == len(candidates), "breaker-argument", ("asked", len(asked)))
    kept = []
    for i in range(len(candidates)):
        want = kept + [candidates[i]]
        answer, given = asked[i]
        check(len(given) == len(want), "breaker-argument", ("matches", len(given), "expected", len(want)))
        for j in range(len(want)):
            check(given[j].value is want[j][5] and given[j].start == want[j][3], "breaker-argument", ("match", j))
        if not answer:
            kept = want
    if kept:
        check(len(out) == 1, "breaker", ("chains", len(out)))
        made_of(out[0], kept, "breaker")
    else:
        check(len(out) == 0, "breaker", "everything left out")


def case_gives_back():
    """a refused chain gives the repetitions of its last part back, last first, until it is accepted"""
    log = []
    asked = []
    k = choose(1, 2, 3)

    def validator(match):
        answer = choose(True, False)
        asked.append((answer, match.start, match.end, len(match.children)))
        return answer

    v = choose("function", "parent entry", "name entry")
    r = Rebulk(default_rules=False)
    b = r.chain(name=NC, validator=validator if v == "function" else {"__parent__": validator} if v == "parent entry" else {NC: validator})
    b.functional(part("one", log, [(O, O + 2)]), name=NA)\
        .functional(part("two", log, [(2 * i, 2 * i + 2) for i in range(k)]), name=NB).repeater("+").close()
    out = r.matches(S)
    parts = found(log, "one", 0) + found(log, "two", 0)
    for i in range(len(asked)):
        check(asked[i][1] == parts[0][3] and asked[i][2] == parts[k - i][4], "gives-back", ("span at try", i))
        check(asked[i][3] == k + 1 - i, "gives-back", ("children at try", i))
        check(asked[i][0] == False or i == len(asked) - 1, "gives-back", "asked again after accepting")
    check(len(asked) > 0 and len(asked) <= k + 1, "gives-back", ("tries", len(asked), "repetitions", k))
    if asked[-1][0]:
        check(len(out) == 1, "gives-back", ("chains", len(out)))
        made_of(out[0], parts[:k + 2 - len(asked)], "gives back")
    else:
        check(len(asked) == k + 1, "gives-back", ("tries", len(asked), "repetitions", k))
        check(len(out) == 0, "refused-chain", ("chains", len(out)))


def case_gives_back_children():
    """emitted matches of a chain that gave back some"""
    log = []
    asked = []

    def validator(match):
        answer = choose(True, False)
        asked.append(answer)
        return answer

    r = Rebulk(default_rules=False)
    r.chain(name=NC, validator={"__parent__": validator}, validate_all=True, **choose({"children": True}, {"every": True}))\
        .functional(part("one", log, [(O, O + 2)]), name=NA)\
        .functional(part("two", log, [(0, 2), (2, 4)]), name=NB).repeater("+").close()
    out = [m for m in r.matches(S) if m.name != NC]
    parts = found(log, "one", 0) + found(log, "two", 0)
    if asked[-1]:
        want = parts[:4 - len(asked)]
        check(len(out) == len(want), "gives-back", ("emitted", len(out), "tries", len(asked)))
        for i in range(len(want)):
            check(out[i].value is want[i][5], "gives-back", ("emitted", i))
    else:
        check(len(out) == 0, "refused-chain", ("children emitted", len(out)))


def case_gives_back_later():
    """a refused chain does not harm the next one"""
    log = []
    verdicts = [choose(True, False), choose(True, False)]
    asked = []

    def validator(match):
        return verdicts[0] if match.start == O else verdicts[1]

    r = Rebulk(default_rules=False)
    r.chain(name=NC, validator=validator).functional(part("one", log, [(O, O + 2)], [(0, 1)]), name=NA)\
        .functional(part("two", log, [(0, 2)], [(0, 3)]), name=NB).close()
    out = r.matches(S)
    check(len(out) == (1 if verdicts[0] else 0) + (1 if verdicts[1] else 0), "refused-chain", ("chains", len(out)))
    if verdicts[0]:
        made_of(out[0], found(log, "one", 0) + found(log, "two", 0), "first chain")
    if verdicts[1]:
        made_of(out[-1], found(log, "one", 1) + found(log, "two", 1), "second chain")


def direct_and_groups(chain, label):
    """matches of the parts, and the groups of these"""
    direct = [c for c in chain.children if c.parent is chain]
    groups = []
    for c in direct:
        groups = groups + list(c.children)
    check(len(chain.children) == len(direct) + len(groups), "chain-children", (label, "each once"))
    for g in groups:
        check(has(chain.children, g), "chain-children", (label, "a group is missing"))
        check(g.initiator is chain, "chain-parent", (label, "initiator of a group"))
    check(len(direct) > 0 and chain.start == direct[0].start and chain.end == direct[-1].end, "chain-span", label)
    return direct, groups


def case_groups():
    """regex parts: their matches and the groups of these, each once"""
    log = []
    r = Rebulk(default_rules=False)
    hidden = choose(False, True)
    b = r.chain(name=NC).functional(part("one", log, [(0, 2)]), name=NA)
    b = b.regex("(?P<x>a)(?P<y>b)", name=NB)
    if hidden:
        b = b.hidden()
    b.functional(part("three", log, [(0, 1)], [(0, 1)]), name=NA).close()
    out = r.matches(S)
    if not out:
        return
    direct, groups = direct_and_groups(out[0], "regex part")
    check([c.name for c in direct] == ([NA, NA] if hidden else [NA, NB, NA]), "chain-children", ("regex parts", len(direct)))
    for g in groups:
        check(not hidden and g.name in ("x", "y"), "chain-children", ("group", g.name))


def case_groups_back():
    """a repetition that is given back takes its groups with it"""
    log = []
    r = Rebulk(default_rules=False)
    asked = []

    def validator(match):
        answer = choose(True, False)
        asked.append(answer)
        return answer

    r.chain(name=NC, validator=validator).functional(part("one", log, [(0, 2)]), name=NA)\
        .regex("(?P<x>a)b", name=NB).repeater("{1,2}").close()
    out = r.matches(S)
    if not out:
        return
    direct, groups = direct_and_groups(out[0], "given back")
    for g in groups:
        check(has(direct, g.parent), "gives-back", ("tries", len(asked), "a group of a repetition that was given back"))
    check(len([e for e in events("regex")]) + 2 - len(asked) >= len(direct), "gives-back", ("tries", len(asked)))


def case_nested():
    """a chain as a part"""
    log = []
    r = Rebulk(default_rules=False)
    b = r.chain(name=NC)
    b.functional(part("one", log, [(O, O + 2)]), name=NA)
    present = choose(True, False)
    b.chain(name=NO).functional(part("two", log, [(0, 2)]), name=NB)\
        .functional(part("three", log, [(0, 1)] if present else []), name=NB).close()
    b.functional(part("four", log, [(0, 1)]), name=NA).close()
    out = r.matches(S)
    if not present:
        check(len(out) == 0, "required-part", "a nested chain that was not found")
        return
    check(len(out) == 1, "one-chain", ("nested", len(out)))
    chain = out[0]
    direct = [c for c in chain.children if c.parent is chain]
    check([c.name for c in direct] == [NA, NO, NA], "chain-children", ("nested", len(direct)))
    inner = direct[1]
    check([c.value for c in inner.children] == [e[5] for e in found(log, "two") + found(log, "three")], "chain-children", "nested")
    check(len(chain.children) == 5, "chain-children", ("nested, all", len(chain.children)))
    check(inner.start == O + 2 and inner.end == O + 5, "chain-span", "nested")
    check(chain.start == O and chain.end == O + 6, "chain-span", "with a nested chain")
    for c in inner.children:
        check(has(chain.children, c) and c.initiator is chain, "chain-parent", "nested")


def case_shared_parts():
    """two chains of one rebulk have parts of their own"""
    log = []
    first = choose("+", "?", 2, None)
    hidden = choose(True, False)
    r = Rebulk(default_rules=False)
    b = r.chain(name=NO).functional(part("a", log, [(O, O + 2), (O + 2, O + 4)]), name=NA)
    if first is not None:
        b = b.repeater(first)
    if hidden:
        b = b.hidden()
    b = b.functional(part("b", log, [(0, 1)]), name=NB)
    b.close()
    r.chain(name=NC).functional(part("one", log, [(O, O + 2), (O + 2, O + 4)]), name=NA)\
        .functional(part("two", log, [(0, 3), (3, 6)]), name=NB).close()
    out = [m for m in r.matches(S) if m.name == NC]
    check(len(out) == 1, "one-chain", "second chain")
    made_of(out[0], found(log, "one", 0)[:1] + found(log, "two", 0)[:1], ("chain after one with", first, hidden))


def case_narrowed():
    """matches whose processor narrows them keep the place they were found at: parts are adjacent to that one"""
    log = []

    def narrow(m):
        m.raw_start, m.raw_end = m.start, m.end
        m.start, m.end = m.start + 1, m.end - 1

    which = choose("pre_match_processor", "post_match_processor")
    fails = choose(False, True)
    r = Rebulk(default_rules=False)
    r.chain(name=NC).functional(part("one", log, [(O, O + 4)], [(0, 4)]), name=NA, **{which: narrow})\
        .functional(part("two", log, [(0, 3), (3, 6)], [(0, 3)]), name=NB, **{which: narrow}).repeater("+")\
        .functional(part("three", log, [] if fails else [(0, 4)], [(0, 4)]), name=NA, **{which: narrow}).close()
    out = r.matches(S)
    check(searches(log, "two")[0][3] == O + 4, "next-part-text", "behind a narrowed match")
    check(searches(log, "three")[0][3] == O + 10, "next-part-text", "behind narrowed repetitions")
    check(len(out) == (1 if fails else 2), "one-chain", ("narrowed parts", len(out)))
    check(searches(log, "one")[1][3] == O + (4 if fails else 14), "search-goes-on", "behind what was found")
    narrowed = [(k, label, call, start + 1, end - 1, value) for k, label, call, start, end, value in found(log)]
    if fails:
        made_of(out[0], [e for e in narrowed if (e[1], e[2]) not in (("one", 0), ("two", 0))], "narrowed, failed")
    else:
        made_of(out[0], [e for e in narrowed if e[2] == 0], "narrowed")
        made_of(out[1], [e for e in narrowed if e[2] == 1], "narrowed")


def case_refused_part():
    """what the validator of a part refuses was found, but is left out"""
    log = []
    refused = []

    def refuse(m):
        answer = choose(True, False)
        refused.append(answer)
        return answer

    kind = choose("functional", "nested chain", "repeated")
    r = Rebulk(default_rules=False)
    b = r.chain(name=NC)
    b.functional(part("one", log, [(O, O + 2)]), name=NA)
    if kind == "nested chain":
        b.chain(name=NO, validator=refuse).functional(part("two", log, [(0, 2)]), name=NB)\
            .functional(part("inner", log, [(0, 3)]), name=NB)
        end = 7
    elif kind == "functional":
        b.functional(part("two", log, [(0, 2)]), name=NB, validator=refuse)
        end = 4
    else:
        b.functional(part("two", log, [(0, 2), (2, 4), (4, 6)]), name=NB, validator=refuse).repeater(choose("+", "{3}"))
        end = 8
    b.functional(part("three", log, [(0, 1)]), name=NA).close()
    out = r.matches(S)
    if kind == "nested chain" and refused == [False, True]:
        # it has given its last part back
        end = 4
    if kind == "repeated":
        # repetitions behind a refused one are no longer adjacent to what is left
        left = [i for i in range(len(refused)) if refused[i]]
        check(len(refused) == 3, "refused-part", "each is asked about once")
        check(searches(log, "three")[0][3] == O + end, "next-part-text", "behind refused repetitions")
        return
    check(len(searches(log, "three")) == 1 and searches(log, "three")[0][3] == O + end, "next-part-text", (kind, "refused"))
    check(len(out) == 1, "one-chain", (kind, "refused"))
    if not refused[-1]:
        made_of(out[0], found(log, "one") + found(log, "three"), (kind, "refused"))
    elif kind == "functional":
        made_of(out[0], found(log), (kind, "accepted"))


def case_gives_back_all():
    """a refused chain of a single part"""
    log = []
    asked = []
    k = choose(1, 2, 3)

    def validator(match):
        answer = choose(True, False) if len(match.children) else False
        asked.append((answer, match.start, match.end, len(match.children)))
        return answer

    r = Rebulk(default_rules=False)
    r.chain(name=NC, validator=validator)\
        .functional(part("one", log, [(O + 2 * i, O + 2 * i + 2) for i in range(k)]), name=NA).repeater("+").close()
    out = r.matches(S)
    parts = found(log, "one", 0)
    tries = [a for a in asked if a[3] > 0]
    for i in range(len(tries)):
        check(tries[i][1] == O and tries[i][2] == parts[k - 1 - i][4], "gives-back", ("single part, span at try", i))
        check(tries[i][3] == k - i, "gives-back", ("single part, children at try", i))
    if tries[-1][0]:
        check(len(out) == 1, "gives-back", ("single part, chains", len(out)))
        made_of(out[0], parts[:k + 1 - len(tries)], "single part")
    else:
        check(len(tries) == k and len(out) == 0, "refused-chain", ("single part, chains", len(out)))
