# C30: holes() are exactly the parts of the range that no match covers.
from rebulk.match import Match, Matches, Markers
from common import M, NA, NB, same_items, has

CONFIG = {"*": {"max_paths": 6000, "seconds": 200}}

N = 5 if thorough() else 4
S = unknown("text", "str")
le(len(S), N)
le(N, len(S))
SEPS = unknown("separators", "str")
le(1, len(SEPS))


def span(first=0, last=N):
    s = first + choose(last - first)
    return s, s + 1 + choose(last - s)


def sequence(matches, text):
    """built in one of several ways, used before or not"""
    ms = Matches(input_string=text)
    how = choose(0, 1) if thorough() else 1
    if how == 0:
        ms.extend(matches)
    else:
        gone = M(0, 2, value=9)
        ms.append(gone)
        ms.extend(matches[:-1])
        ms.at_index(0)
        ms.starting(0)
        ms.extend(matches[-1:])
        ms.remove(gone)
    return ms


def covered(matches, i):
    for m in matches:
        if m.start <= i and i < m.end:
            return True
    return False


def exactly(holes, matches, a, b, text, label):
    """maximal runs of positions of [a, b) that are in no match, in order"""
    want = []
    i = a
    while i < b:
        if covered(matches, i):
            i += 1
            continue
        j = i
        while j < b and not covered(matches, j):
            j += 1
        want.append((i, j))
        i = j
    got = [h.span for h in holes]
    check(got == want, "holes", (label, "from", a, "to", b, "got", got, "expected", want))
    for h in holes:
        check(h.input_string is text, "hole-text", label)
        check(h.name is None and not h.private and len(h.children) == 0, "hole-text", (label, "attributes"))
        if text is not None:
            check(h.value == text[h.start:h.end], "hole-text", (label, "value"))


def ends(matches, text):
    last = N if text is not None else 0
    for m in matches:
        last = max(last, m.end)
    return last


def every_range(ms, matches, text, label, **kw):
    last = ends(matches, text)
    for a in range(last + 1):
        exactly(ms.holes(a, **kw), matches, a, last, text, label)
        for b in range(a, last + 2):
            exactly(ms.holes(a, b, **kw), matches, a, min(b, last), text, label)
            if a == 0:
                exactly(ms.holes(end=b, **kw), matches, 0, min(b, last), text, label)
    exactly(ms.holes(**kw), matches, 0, last, text, label)


def case_none():
    """no match at all"""
    text = choose(None, S)
    ms = choose(Matches, Markers)(input_string=text)
    every_range(ms, [], text, "no match")


def case_one():
    text = choose(None, S)
    m = M(*span(), input_string=S)
    every_range(sequence([m], text), [m], text, "one match")


def case_two():
    """two matches of every relative position"""
    text = choose(None, S) if thorough() else S
    matches = [M(*span(), input_string=S, value=1), M(*span(), input_string=S, value=2)]
    every_range(sequence(matches, text), matches, text, "two matches")


def case_three():
    """a long match, and others in it, before it and behind it"""
    a, b, c = choose([(0, 4), (1, 2), (2, 3)], [(0, 3), (0, 1), (3, 4)], [(2, 4), (0, 1), (1, 2)], [(1, 3), (0, 2), (2, 4)],
                     [(0, 1), (0, 1), (2, 3)], [(3, 4), (1, 2), (1, 4)])
    matches = [M(a[0], a[1], value=1), M(b[0], b[1], value=2), M(c[0], c[1], value=3)]
    every_range(sequence(matches, S), matches, S, "three matches")


def case_markers():
    m = M(*span(), input_string=S, marker=True)
    ms = choose(Markers(input_string=S), Matches(input_string=S).markers)
    ms.append(m)
    every_range(ms, [m], S, "markers")


def case_ignore():
    """ignored matches are as if they were not there"""
    matches = [M(*span(), input_string=S, value=1), M(*span(), input_string=S, value=2)]
    which = choose([0], [1], [0, 1], [])
    ms = sequence(matches, S)
    kept = [matches[i] for i in range(2) if i not in which]
    ignored = [matches[i] for i in which]
    last = N
    for a in range(last + 1):
        exactly(ms.holes(a, ignore=lambda m: has(ignored, m)), kept, a, last, S, ("ignored", len(which)))
    for b in range(last + 1):
        exactly(ms.holes(0, b, None, lambda m: "yes" if has(ignored, m) else None), kept, 0, b, S, ("ignored", len(which)))


def case_behind_text():
    """matches that end behind the text"""
    matches = [M(*span(N - 2, N + 2), value=1)]
    if choose(True, False):
        matches.append(M(*span(0, 2), value=2))
    every_range(sequence(matches, S), matches, S, "behind the text")


def case_formatter():
    calls = []
    token = unknown("formatted")

    def formatter(raw):
        calls.append(raw)
        return token

    m = M(*span(), input_string=S)
    holes = sequence([m], S).holes(**choose({"formatter": formatter}, {"formatter": formatter, "start": 1}, {"formatter": formatter, "seps": ""}, {"formatter": formatter, "seps": SEPS}))
    for h in holes:
        del calls[:]
        check(h.value is token, "hole-formatter", "value")
        check(calls == [S[h.start:h.end]], "hole-formatter", "argument")


def case_separators():
    """every uncovered character that is no separator is in one hole, and a hole ends at the next separator"""
    matches = [M(*span(), input_string=S)] if choose(True, False) else []
    ms = sequence(matches, S)
    for a, b in ((0, N), (0, 2), (1, N), (2, N), (1, 3), (3, N)):
        holes = ms.holes(a, b, seps=SEPS)
        last = a
        inside = []
        for h in holes:
            check(last <= h.start and h.start < h.end and h.end <= b, "holes", ("separators", a, b, "span", h.span))
            last = h.end
            for i in range(h.start, h.end):
                check(not covered(matches, i), "holes", ("separators", a, b, "covered position", i))
                check(i == h.start or S[i] not in SEPS, "hole-separators", (a, b, "separator in a hole at", i))
                inside.append(i)
            check(h.value == S[h.start:h.end], "hole-text", "separators")
        for i in range(a, b):
            if not covered(matches, i) and S[i] not in SEPS:
                check(i in inside, "holes", ("separators", a, b, "no hole at", i))
        # a hole ends at a match, at a separator or at the end of the range
        for h in holes:
            check(h.end == b or covered(matches, h.end) or S[h.end] in SEPS, "holes", ("separators", a, b, "end", h.end))


def case_separators_need_text():
    ms = Matches()
    ms.append(M(0, 2))
    failed = False
    try:
        ms.holes(seps="-")
    except AssertionError:
        failed = True
    check(failed, "hole-separators", "without a text")
