# C06: private matches stay internal but visible to rules.
from rebulk import Rebulk, Rule, CustomRule, AppendMatch, RenameMatch, RemoveMatch
from rebulk.match import Match, Matches
from rebulk.processors import ConflictSolver, PrivateRemover, POST_PROCESS, PRE_PROCESS
from common import NA, NB, NC, TX, TY, same_items, has, without

CONFIG = {"*": {"max_paths": 1500, "seconds": 100, "regex_total": 1}}

S = unknown("text", "str")
le(20, len(S))
VA, VB, VC, VD = distinct("str", "va", "vb", "vc", "vd")


def spy(level):
    class Spy(Rule):
        # one class per level
        priority = level

        def when(self, matches, context):
            event("seen", level, list(matches))
            return None

    return Spy


SPIES = (POST_PROCESS + 1, -2047, 0, PRE_PROCESS + 1, PRE_PROCESS - 1, POST_PROCESS - 1)


def checked(r, produced):
    """every private match is seen by the rules before the clean-up, none is in the result, nothing else is missing"""
    r.rules(*[spy(p)() for p in SPIES])
    ms = r.matches(S)
    for m in ms:
        check(not m.private, "no-private-result", ("private match in the result", m.span))
    for level, seen in events("seen"):
        if level <= -2048:
            continue
        for m in produced:
            if m.private:
                check(has(seen, m), "visible-to-rules", ("a private match is missing at priority", level, m.span))
    for m in produced:
        if not m.private:
            check(has(ms, m), "public-kept", ("a public match was removed", m.span))
    return ms


def collect(r, produced):
    """keep the matches patterns produced"""

    class Collect(Rule):
        priority = PRE_PROCESS * 2

        def when(self, matches, context):
            produced.extend(list(matches))

    return r.rules(Collect)


def at(span):
    return lambda text: span


def flags():
    # falsy and truthy flags
    return choose(None, False, True)


def case_disjoint():
    pa, pb, pc = flags(), flags(), flags()
    r = Rebulk()
    r.functional(lambda text: (0, 2), name=NA, private=pa).functional(lambda text: (2, 4), name=NB, private=pb)
    r.functional(lambda text: {"start": 4, "end": 6, "private": pc}, tags=[TX], value=choose(None, VA))
    produced = []
    collect(r, produced)
    ms = checked(r, produced)
    check(len(ms) == len([p for p in (pa, pb, pc) if not p]), "public-kept", "count")


def case_overlap():
    """a public match and private matches over it, of any relative length, with or without a solver"""
    layout = choose(0, 1, 2, 3, 4)
    pub, priv = [((0, 4), (1, 3)), ((1, 3), (0, 4)), ((0, 4), (0, 4)), ((0, 3), (2, 5)), ((2, 3), (0, 6))][layout]
    order = choose(True, False)
    which = choose(0, 1, 2, 3)
    kw = {}
    if which == 1:
        kw["conflict_solver"] = lambda match, other: match
    elif which == 2:
        kw["conflict_solver"] = lambda match, other: other
    elif which == 3:
        kw["conflict_solver"] = lambda match, other: "__default__"
    same = choose(True, False)
    r = Rebulk()
    if order:
        r.functional(lambda text: pub, name=NA, **kw)
    r.functional(lambda text: priv, name=NA if same else NB, private=True, **kw)
    if not order:
        r.functional(lambda text: pub, name=NA, **kw)
    produced = []
    collect(r, produced)
    checked(r, produced)


def case_equal():
    """a private match equal to a public one that loses a conflict, or not"""
    order = choose(0, 1, 2)
    loses = choose(True, False)
    r = Rebulk()
    pats = [lambda: r.functional(lambda text: (0, 2), name=NA, value=VA, private=True),
            lambda: r.functional(lambda text: (0, 2), name=NA, value=VA)]
    if loses:
        pats.append(lambda: r.functional(lambda text: (0, 4), name=NB))
    for i in range(len(pats)):
        pats[(i + order) % len(pats)]()
    produced = []
    collect(r, produced)
    r.rules(*[spy(p)() for p in SPIES])
    ms = r.matches(S)
    for m in ms:
        check(not m.private, "no-private-result", ("private match in the result", m.span))
    for m in produced:
        if not m.private and not (loses and m.span == (0, 2)):
            check(has(ms, m), "public-kept", ("a public match was removed", m.span))
        if m.private:
            for level, seen in events("seen"):
                check(level <= -2048 or has(seen, m), "visible-to-rules", ("a private match is missing at", level))


def case_three():
    """chains of overlaps with a private match in between"""
    r = Rebulk()
    spans = [(0, 3), (2, 6), (5, 7)]
    order = choose([0, 1, 2], [2, 1, 0], [1, 0, 2])
    hidden = choose(0, 1, 2)
    produced = []
    collect(r, produced)
    for i in order:
        r.functional(at(spans[i]), name=[NA, NB, NC][i], private=i == hidden)
    r.rules(*[spy(p)() for p in SPIES])
    ms = r.matches(S)
    for m in ms:
        check(not m.private, "no-private-result", ("private match in the result", m.span))
    for m in produced:
        if m.private:
            for level, seen in events("seen"):
                check(level <= -2048 or has(seen, m), "visible-to-rules", ("a private match is missing at", level))
    # public matches may only lose against public ones
    left = {0: [(2, 6), (5, 7)], 1: [(0, 3), (5, 7)], 2: [(0, 3), (2, 6)]}[hidden]
    spans_left = [m.span for m in ms]
    if hidden == 0:
        check((2, 6) in spans_left, "public-kept", "the longer public match")
    elif hidden == 1:
        check((0, 3) in spans_left and (5, 7) in spans_left, "public-kept", "disjoint public matches")
    else:
        check((2, 6) in spans_left, "public-kept", "the longer public match")


def case_regex():
    """privacy options of a pattern with groups"""
    mode = choose(0, 1, 2, 3)
    kw = [{"private_parent": True, "children": True}, {"private_children": True}, {"every": True, "private_names": ["one"]},
          {"private": True, "children": True}][mode]
    r = Rebulk().regex("(?P<one>a)(?P<two>b)", **kw)
    produced = []
    collect(r, produced)
    checked_regex(r, produced)


def checked_regex(r, produced):
    r.rules(*[spy(p)() for p in SPIES])
    ms = r.matches(S)
    for m in ms:
        check(not m.private, "no-private-result", ("private match in the result", m.name))
    for level, seen in events("seen"):
        for m in produced:
            if m.private and level > -2048:
                check(has(seen, m), "visible-to-rules", ("a private match is missing at priority", level))
    for m in produced:
        # they overlap nothing, or only matches of the same initiator
        check(m.private or has(ms, m), "public-kept", ("a public match was removed", m.name))


def case_rule_made():
    """privacy set by a rule, at once or later, on given or new matches"""
    at = choose(POST_PROCESS + 1, 0, 5)

    class Hide(Rule):
        priority = at

        def when(self, matches, context):
            return matches.named(NA)

        def then(self, matches, when_response, context):
            for m in when_response:
                m.private = True
            matches.append(Match(8, 9, value=VD, private=True))

    r = Rebulk().functional(lambda text: [(0, 2), (6, 7)], name=NA).functional(lambda text: (3, 4), name=NB).rules(Hide)
    ms = r.matches(S)
    check([m.name for m in ms] == [NB], "no-private-result", "private matches made by a rule")


def case_solver_direct():
    """the resolution alone never answers a private match"""
    pa, pb, pc = flags(), flags(), flags()
    a = Match(0, 3, name=NA, value=VA, private=pa, input_string=S)
    b = Match(2, 6, name=NB, value=VB, private=pb, input_string=S)
    c = Match(1, 2, name=NC, value=VC, private=pc, input_string=S)
    if choose(True, False):
        a.conflict_solver = lambda m, o: m
        c.conflict_solver = lambda m, o: o
    ms = Matches([a, b, c], input_string=S)
    removed = list(ConflictSolver().when(ms, None))
    for m in removed:
        check(not m.private, "private-not-resolved", "conflict resolution removes a private match")
        others = [x for x in (a, b, c) if x is not m and not x.private and x.start < m.end and m.start < x.end]
        check(len(others) > 0, "public-kept", "removed without a public conflict")
    got = PrivateRemover().when(ms, None)
    check(same_items(got, [m for m in ms if m.private]), "no-private-result", "clean-up")


def case_no_default_rules():
    """without default rules private matches stay"""
    r = Rebulk(default_rules=False).functional(lambda text: (0, 2), private=True)
    check(len(r.matches(S)) == 1, "public-kept", "no clean-up without default rules")


def case_nested():
    """the clean-up also covers nested rebulks, whose own default rules do not run twice"""
    child = Rebulk(default_rules=choose(True, False)).functional(lambda text: (3, 5), private=flags(), name=NB)
    r = Rebulk().functional(lambda text: (0, 2), name=NA, private=flags()).rebulk(child)
    produced = []
    collect(r, produced)
    checked(r, produced)


def case_chain():
    r = Rebulk()
    r.chain(children=choose(True, False), private=choose(True, False), private_children=choose(True, False)) \
        .functional(lambda text: (0, 2), name=NA, private=choose(True, False)).close()
    produced = []
    collect(r, produced)
    checked_regex(r, produced)
