# C16: every search of the library makes progress.  Texts have a bounded unknown length and unknown contents; a loop
# that turns more often than positions exist, or unbounded recursion, is reported where it happens.  For find loops
# over a text of any length each search must begin after the place of the last occurrence.
from rebulk import Rebulk, CustomRule, Rule
from rebulk.match import Match, Matches, Markers
from rebulk.toposort import toposort, toposort_flatten
from rebulk.utils import find_all
from common import NA, NB, NC, TX

CONFIG = {"*": {"max_paths": 3000, "seconds": 100, "regex_total": 2, "k": 6},
          "case_find_progress": {"k": 2},
          "case_chain_regex": {"regex_total": 2, "k": 1}, "case_string_pattern": {"k": 4},
          "case_chain_strings": {"k": 3}}

S = unknown("text", "str")
ANY = unknown("text of any length", "str")


def bounded(n):
    setting("terminates", 3 * n + 8)
    setting("fuel", 60000)
    le(len(S), n)


def ended(label):
    check(True, "ended", (label,))


def unknown_int(label, lo, hi):
    i = unknown(label, "int")
    le(lo, i)
    le(i, hi)
    return i


def case_find_all():
    """all occurrences of an unknown string, also empty, in an unknown text, also empty, also of a part of the text"""
    bounded(3)
    sub = choose(unknown("sub", "str"), "", "ab")
    kw = choose({}, {"start": 0}, {"start": 1}, {"start": 2, "end": 3}, {"end": 2}, {"start": 3}, {"end": 0}, {"start": 9})
    out = list(find_all(S, sub, **kw))
    check(len(out) <= 4, "ended", "find_all")


def case_find_ignore_case():
    bounded(2)
    sub = choose("", "aB")
    out = list(find_all(S, sub, ignore_case=True))
    check(len(out) <= 3, "ended", "find_all")


def case_find_progress():
    """a text of any length: each search begins after the last occurrence"""
    sub = choose(unknown("sub", "str"), "", "ab")
    out = list(find_all(ANY, sub))
    last = None
    for e in events("find"):
        if last is not None:
            begin = 0 if e[2] is None else e[2]
            check(last < begin, "no-progress", "a search begins where the last occurrence was found")
        last = e[4]


def case_string_pattern():
    bounded(2)
    r = Rebulk(default_rules=False).string(choose(unknown("sub", "str"), ""), "", name=NA)
    r.matches(S)
    ended("string patterns")


def some_matches():
    """nothing, or one or two matches at unknown places"""
    ms = Matches(input_string=choose(S, None))
    for i in range(choose(0, 1, 2) if thorough() else choose(0, 1)):
        s, n = unknown_int("start", 0, 3), unknown_int("length", 0, 2)
        ms.append(Match(s, s + n, input_string=S, name=[NA, NB][i]))
    return ms


def case_neighbours():
    """previous and next of a match of the sequence or of none, with a predicate that refuses"""
    bounded(4)
    if choose(False, True):
        # long and short ones, one in the other
        ms = Matches(choose([Match(0, 2), Match(1, 4), Match(2, 3)], [Match(0, 4), Match(0, 2), Match(1, 2)],
                            [Match(0, 1), Match(1, 4), Match(2, 3), Match(2, 4)]), choose(S, None))
        m = choose(*list(ms))
    else:
        ms = some_matches()
        m = None
    if m is not None:
        pass
    elif choose(True, False) and len(ms):
        m = ms[0]
    else:
        s = choose(-1, 0, 2, 6)
        m = Match(s, s + choose(0, 1))
    args = choose((), (lambda x: False,), (0,))
    if choose(True, False):
        ms.previous(m, *args)
    else:
        ms.next(m, *args)
    ended("neighbours")


def case_walks():
    """positions before, inside and after the text"""
    bounded(3)
    ms = Matches(input_string=S)
    le(3, len(S))
    s, n = unknown_int("start", 0, 2), unknown_int("length", 1, 2)
    le(s + n, 3)
    ms.append(Match(s, s + n, input_string=S))
    at = choose(0, 2, 5, -1)
    which = choose(0, 1, 2, 3, 4, 5)
    if which == 0:
        ms.chain_before(at, "-", start=choose(0, 1))
    elif which == 1:
        ms.chain_after(at, "-", end=choose(None, 2))
    elif which == 2:
        ms.range(at, choose(None, 1, 9))
    elif which == 3:
        ms.at_index(at)
        ms.at_span((at, 3))
    elif which == 4:
        ms.conflicting(Match(max(at, 0), 6))
    else:
        ms.at_match(Match(max(at, 0), 4))
    ended("walks")


def case_holes():
    bounded(3)
    le(3, len(S))
    ms = Matches(input_string=S)
    s, n = unknown_int("start", 0, 2), unknown_int("length", 1, 2)
    le(s + n, 3)
    ms.append(Match(s, s + n, input_string=S))
    ms.holes(choose(0, 2, 5), choose(None, 2, 9), ignore=choose(None, lambda m: True))
    ended("holes")


def case_pieces():
    """crop and split, also of pieces that lie on each other"""
    bounded(6)
    le(6, len(S))
    m = Match(1, 5, input_string=S)
    a, b = unknown_int("crop start", 0, 6), unknown_int("crop end", 0, 6)
    le(a, b)
    m.crop(choose([(a, b)], [(a, b), (2, 3), (2, 3)], (a, b)))
    m.split("")
    ended("pieces")


def case_initiator():
    """parents of any depth"""
    bounded(4)
    m = Match(0, choose(0, 2), input_string=S)
    for i in range(choose(0, 1, 3, 5)):
        m = Match(0, choose(2, 0) if i == 0 else 2, parent=m, input_string=S)
    setting("terminates", 10)
    top = m.initiator
    check(top.parent is None or len(top.parent) == 0, "ended", "initiator")
    m.names
    m.named(NA)
    m == Match(0, 2, parent=m.parent, input_string=S)
    repr(m)


def case_close():
    """chains nested in chains are closed"""
    setting("terminates", 12)
    setting("fuel", 40000)
    r = Rebulk()
    b = r.chain()
    for i in range(choose(0, 1, 2, 4)):
        b.functional(lambda text: None)
        b = b.chain()
    last = b.functional(lambda text: None)
    back = choose(b, last).close()
    check(back is r, "ended", "close")


# ---------------------------------------------------------------- chains
def chain_text():
    bounded(4 if thorough() else 3)
    if not thorough():
        le(3, len(S))


def answers(label, *table):
    """a part that answers from a table, the last entry for ever"""
    calls = []

    def find(text, context):
        n = len(calls)
        calls.append(n)
        return table[n] if n < len(table) else table[-1]

    return find


def repeater(part):
    rep = choose("1", "+", "*", "?", "{0,2}", "2") if thorough() else choose("1", "+", "*", "?")
    if rep != "1":
        part.repeater(rep)


def case_chain():
    """parts that find something in every text, or nothing, with every repeater"""
    chain_text()
    one, two = choose(([(0, 1)], [(0, 1)]), ([(0, 1)], []), ([], [(0, 1)]), ([], []), ([(0, 0)], [(0, 0)]),
                      ([(0, 2), (2, 3)], [(1, 2)]), ([(1, 2)], [(0, 0)]), ([(7, 9)], [(0, 1)]), ([(0, 1)], [(7, 9)]))
    r = Rebulk(default_rules=False)
    b = r.chain()
    p = b.functional(answers("one", one), name=NA)
    repeater(p)
    p.hidden(choose(False, True))
    p = b.functional(answers("two", two), name=NB)
    repeater(p)
    r.matches(S)
    ended("chain")


def case_chain_states():
    """parts whose answers change from call to call"""
    chain_text()
    r = Rebulk(default_rules=False)
    b = r.chain(chain_breaker=choose(None, lambda matches: True))
    p = b.functional(answers("one", [(0, 1)], choose([(0, 1)], []), choose([(1, 2)], [])), name=NA)
    p.hidden(choose(False, True))
    p = b.functional(answers("two", choose([(0, 1)], []), choose([(0, 1)], [])), name=NB)
    p.repeater(choose("?", "+"))
    b.functional(answers("three", [], choose([(0, 1)], [])), name=NA)
    r.matches(S)
    ended("chain")


def empty_at_start(match):
    match.end = match.start


def empty_at_end(match):
    match.start = match.end


def raw_nothing(match):
    match.raw_end = match.raw_start


def raw_back(match):
    match.raw_end = 0


def refuse(match):
    return False


def case_chain_processed():
    """parts emptied, refused or moved by their processors"""
    chain_text()
    hook = choose(empty_at_start, empty_at_end, raw_nothing, raw_back, refuse)
    when = choose("pre_match_processor", "post_match_processor", "validator")
    where = choose(0, 1)
    opts = [{}, {}]
    opts[where] = {when: hook if when != "validator" else lambda match: hook(match) or choose(False, True)}
    r = Rebulk(default_rules=False)
    b = r.chain()
    p = b.functional(answers("one", [(0, 1)]), name=NA, **opts[0])
    found, rep = choose(([(0, 1)], "?"), ([(0, 1)], "1"), ([(0, 1)], "+"), ([], "*"), ([(0, 0)], "?"))
    p = b.functional(answers("two", found), name=NB, **opts[1])
    p.repeater(rep)
    r.matches(S)
    ended("chain")


def case_chain_options():
    """parts that emit nothing, or other things than what they found"""
    chain_text()
    opts = choose({"children": True}, {"ignore_names": [NA]}, {"private": True}, {"post_processor": lambda ms, p: []}, {"disabled": True})
    r = Rebulk(default_rules=False)
    b = r.chain(**choose({}, {"validator": lambda m: False}, {"children": True}))
    b.functional(answers("one", [(0, 1)]), name=NA, **opts).repeater(choose("1", "*"))
    b.functional(answers("two", choose([(0, 1)], [])), name=NB).repeater(choose("1", "?"))
    r.matches(S)
    ended("chain")


def case_chain_strings():
    """string parts, also empty ones"""
    chain_text()
    r = Rebulk(default_rules=False)
    b = r.chain()
    b.string(choose("", "a"), name=NA).repeater(choose("1", "*"))
    b.string(choose("", "b"), name=NB).repeater(choose("1", "*"))
    r.matches(S)
    ended("chain")


def case_chain_regex():
    chain_text()
    r = Rebulk(default_rules=False)
    b = r.chain()
    b.regex("a*", name=NA).repeater(choose("1", "*"))
    b.regex("(b)?", name=NB, children=choose(True, False))
    r.matches(S)
    ended("chain")


def case_chain_nested():
    """a chain as a part of a chain"""
    chain_text()
    r = Rebulk(default_rules=False)
    b = r.chain()
    b.functional(answers("one", choose([(0, 1)], [])), name=NA).repeater(choose("1", "?"))
    c = b.chain(**choose({}, {"children": True}))
    c.functional(answers("two", [(0, 1)], choose([], [(0, 1)])), name=NB).repeater(choose("1", "+"))
    c.functional(answers("three", choose([(0, 1)], [])), name=NC).repeater(choose("1", "*"))
    r.matches(S)
    ended("chain")


# ---------------------------------------------------------------- rules
class One(CustomRule):
    def when(self, matches, context):
        return False

    def then(self, matches, when_response, context):
        pass


class Two(One):
    pass


class Three(One):
    pass


class Four(One):
    pass


def case_toposort():
    """every dependency graph of three items, with cycles, self dependencies and unregistered ones"""
    setting("terminates", 10)
    setting("fuel", 40000)
    a, b, c, d = distinct("atom", "a", "b", "c", "d")

    def some():
        out = set()
        for x in choose([], [a], [b], [c], [d], [a, b], [b, c]):
            out.add(x)
        return out

    data = {a: some(), b: some(), c: choose(set(), {a}, {b, d})}
    try:
        out = list(toposort(data))
    except ValueError:
        check(True, "ended", "cycle")
        return
    n = 0
    for x in out:
        n = n + len(x)
        check(len(x) > 0, "no-progress", "an empty group of items")
    check(n >= 3, "ended", "toposort")


def case_rules():
    """rules that depend on each other in every way"""
    setting("terminates", 10)
    setting("fuel", 60000)
    classes = [One, Two, Three]
    for c in classes:
        c.dependency = choose(None, One, Two, Three, Four, [One, Two], [Two, Three])
    r = Rebulk(default_rules=False).rules(*classes)
    try:
        r.matches(S)
    except ValueError:
        check(True, "ended", "cycle")
        return
    ended("rules")


def case_conflicts():
    """conflict resolution among matches on the same place"""
    bounded(4)
    le(4, len(S))
    r = Rebulk()
    solver = choose(None, lambda a, b: "__default__", lambda a, b: a, lambda a, b: b, lambda a, b: None)
    r.functional(lambda text: [(0, 2), (1, 3)], name=NA, conflict_solver=solver)
    r.functional(lambda text: [(0, 2), (0, 4)], name=NB, conflict_solver=choose(None, lambda a, b: a))
    r.matches(S)
    ended("conflicts")


def case_debug_frames():
    """looking for the definition of a pattern in debug mode"""
    setting("terminates", 40)
    from rebulk import debug
    debug.DEBUG = True
    Rebulk().string("ab").chain().regex("a").close()
    Match(0, 1)
    ended("debug")
