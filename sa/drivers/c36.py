# C36: crop() and split() cut a match into the right pieces, which keep what the match is.
from rebulk.match import Match, Matches
from common import NA, NB, TX, TY, same_items

CONFIG = {"*": {"max_paths": 6000, "seconds": 200}}

N = 5 if thorough() else 4
S = unknown("text", "str")
le(len(S), N + 1)
le(N + 1, len(S))
SEPS = unknown("separators", "str")
V = unknown("value", "str")
W = unknown("formatted")


def runs(a, b):
    """maximal runs of characters of the match that are no separators"""
    out = []
    i = a
    while i < b:
        if S[i] in SEPS:
            i += 1
            continue
        j = i
        while j < b and S[j] not in SEPS:
            j += 1
        out.append((i, j))
        i = j
    return out


def span():
    s = choose(N)
    return s, s + 1 + choose(N - s)


def case_split():
    """split() gives the runs between separators, in order"""
    a, b = span()
    m = Match(a, b, input_string=S)
    pieces = m.split(SEPS)
    want = runs(a, b)
    check([p.span for p in pieces] == want, "split", ("pieces", [p.span for p in pieces], "of", (a, b), "expected", want))
    for p in pieces:
        check(p.raw == S[p.start:p.end] and p.value == S[p.start:p.end], "piece", "text of a piece")
        check(p is not m, "piece", "the match itself is a piece")
    check(m.span == (a, b), "match-unchanged", ("span after split", m.span))


def case_split_whole():
    """a match of the whole text"""
    m = Match(0, N + 1, input_string=S)
    want = runs(0, N + 1)
    check([p.span for p in m.split(SEPS)] == want, "split", "whole text")
    again = m.split(SEPS)
    check([p.span for p in again] == want, "split", "whole text, again")
    for p in again:
        check([q.span for q in p.split(SEPS)] == [p.span], "split", "a piece has no separators")


def case_split_none():
    """nothing to split by, nothing to split, only separators"""
    a, b = span()
    m = Match(a, b, input_string=S)
    check([p.span for p in m.split("")] == [(a, b)], "split", "no separators")
    check(m.split("")[0] is not m, "piece", "the match itself is a piece")
    check(m.split(S) == [], "split", "only separators")
    check(Match(a, a, input_string=S).split(SEPS) == [], "split", "empty match")


def whole(given):
    """a match with every attribute"""
    parent = Match(0, N + 1, name=NB, input_string=S) if choose(True, False) else None
    formatter = (lambda raw: W) if choose(True, False) else None
    solver = lambda one, other: None
    m = Match(0, N + 1, value=given, name=NA, tags=[TX, TY], marker=choose(True, False), parent=parent,
              private=choose(True, False), input_string=S, formatter=formatter, conflict_solver=solver)
    m.match_index = 3
    if choose(True, False):
        m.children.append(Match(1, 2, name=NB, parent=m, input_string=S, tags=[TY]))
    len(m.children)
    return m


def kept(p, m, label):
    check(p.name == m.name, "piece", (label, "name"))
    check(p.tags == m.tags and p.tags is not m.tags, "piece", (label, "tags"))
    check(p._value == m._value, "piece", (label, "literal value"))
    check(bool(p.marker) == bool(m.marker), "piece", (label, "marker"))
    check(bool(p.private) == bool(m.private), "piece", (label, "private"))
    check(p.formatter is m.formatter, "piece", (label, "formatter"))
    check(p.conflict_solver is m.conflict_solver, "piece", (label, "conflict solver"))
    check(p.input_string == m.input_string, "piece", (label, "input string"))
    check(p.match_index == m.match_index, "piece", (label, "match index"))
    check((p.parent is None) == (m.parent is None), "piece", (label, "parent"))
    if m.parent is not None:
        check(p.parent.span == m.parent.span and p.parent.name == m.parent.name, "piece", (label, "parent"))
        check(p.initiator.span == m.parent.span, "piece", (label, "initiator"))
    check(len(p.children) == len(m.children), "piece", (label, "children"))
    for c, d in zip(p.children, m.children):
        check(c.span == d.span and c.name == d.name and c.tags == d.tags, "piece", (label, "child"))
        check(c is not d, "piece", (label, "shared child"))
        check(c.parent is p, "piece", (label, "parent of a child"))
    check(p.raw == S[p.start:p.end], "piece", (label, "raw"))
    if m._value:
        check(p.value == m._value, "piece", (label, "value"))
    elif m.formatter:
        check(p.value is W, "piece", (label, "formatted value"))
    else:
        check(p.value == S[p.start:p.end], "piece", (label, "text value"))


def case_split_keeps():
    """pieces of split() keep everything but the span"""
    m = whole(choose(None, V, ["v"]))
    before = snapshot(m)
    pieces = m.split(SEPS)
    check([p.span for p in pieces] == runs(0, N + 1), "split", "a match with every attribute")
    for p in pieces:
        kept(p, m, "split")
    check(changed(before) is None, "match-unchanged", ("split", changed(before)))


def case_crop_keeps():
    """pieces of crop() keep everything but the span"""
    m = whole(choose(None, V, ["v"]))
    crops = choose((1, 3), [(1, 3)], [Match(0, 2), (3, 4)], Match(3, N + 3, parent=m.parent), [], [(1, 2), (3, 4)], [(0, N + 1)], [(7, 9)])
    before = snapshot(m)
    pieces = m.crop(crops)
    for p in pieces:
        kept(p, m, "crop")
        check(p is not m, "piece", "the match itself is a piece")
    check(changed(before) is None, "match-unchanged", ("crop", changed(before)))


def case_crop_matches_untouched():
    """the matches that are cropped away stay as they are"""
    m = Match(0, N + 1, input_string=S)
    away = Match(1, 3, name=NB, tags=[TY], value=V, input_string=S)
    others = Matches([away, Match(3, 4, value=V)], input_string=S)
    given = choose(0, 1, 2)
    arg = [others, [away], away][given]
    before = snapshot(others)
    m.crop(arg)
    check(changed(before) is None, "match-unchanged", ("cropped away", changed(before)))
    check(same_items(others[:1], [away]), "match-unchanged", "cropped away")
