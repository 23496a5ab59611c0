# C24: overlaps, over unknown spans (range, crop) and every relative position at an unknown offset (conflicting, at_index).
from rebulk.match import Match, Matches, Markers
from common import M, NA, NB, dressed, same_items, has

CONFIG = {"*": {"max_paths": 6000, "seconds": 150}}


def span(label):
    """an unknown non-empty span"""
    s = unknown("start " + label, "int")
    e = unknown("end " + label, "int")
    le(0, s)
    lt(s, e)
    return s, e


def sequence(matches, text):
    ms = Matches(input_string=text)
    how = choose(0, 1)
    if how == 0:
        for m in matches:
            ms.append(m)
    else:
        # lookups are used before the last one is added, another one is removed again
        gone = M(0, 1, value=9)
        ms.append(gone)
        ms.extend(matches[:-1])
        ms.range(0, 1)
        ms.append(matches[-1])
        ms.remove(gone)
    return ms


def text_of(matches):
    """no text, or one that covers the matches or not"""
    if choose(0, 1) == 0:
        return None
    return unknown("text", "str")


def overlapping(found, all_matches, a, b, label):
    for m in all_matches:
        want = m.start < b and a < m.end
        n = 0
        for x in found:
            if x is m:
                n += 1
        check(n == (1 if want else 0), "overlap", label)
    check(len(found) <= len(all_matches), "overlap", (label, "something else"))
    for i in range(len(found) - 1):
        check(found[i].span <= found[i + 1].span, "sorted-by-span", label)


def case_range():
    spans = [span("a"), span("b")]
    matches = [M(s, e, value=1) for s, e in spans]
    dressed(*matches)
    ms = sequence(matches, text_of(matches))
    a, b = span("range")
    overlapping(ms.range(a, b), matches, a, b, "range(start, end)")


def case_range_three():
    """three matches in a range of known place"""
    spans = [span("a"), span("b"), span("c")]
    matches = [M(s, e) for s, e in spans]
    ms = Matches(matches)
    b = spans[2][1]
    if choose(True, False):
        overlapping(ms.range(0, b), matches, 0, b, "range(0, end)")
    else:
        overlapping(ms.range(0, 7), matches, 0, 7, "range(0, 7)")


def case_range_open():
    spans = [span("a"), span("b")]
    matches = [M(s, e) for s, e in spans]
    text = text_of(matches)
    ms = sequence(matches, text)
    end = spans[0][1] if spans[0][1] > spans[1][1] else spans[1][1]
    if text:
        end = len(text) if len(text) > end else end
    if choose(True, False):
        overlapping(ms.range(), matches, 0, end, "range()")
    else:
        a = unknown("start", "int")
        le(0, a)
        lt(a, end)
        overlapping(ms.range(a), matches, a, end, "range(start)")
        overlapping(ms.range(start=a, end=None), matches, a, end, "range(start, None)")


def case_range_markers():
    spans = [span("a"), span("b")]
    matches = [M(s, e, marker=True) for s, e in spans]
    dressed(*matches)
    ms = Matches(input_string=text_of(matches))
    ms.markers.extend(matches)
    a, b = span("range")
    overlapping(ms.markers.range(a, b), matches, a, b, "markers.range(start, end)")


def case_range_equal():
    """equal matches are different matches"""
    s, e = span("a")
    matches = [M(s, e, value=1), M(s, e, value=1), M(s, e, value=2)]
    ms = Matches(matches)
    a, b = span("range")
    overlapping(ms.range(a, b), matches, a, b, "equal matches")


# ---------------------------------------------------------------- positions
PLACES = [(i, j) for i in range(7) for j in range(i + 1, 8)]
SECOND = [(0, 7), (2, 5), (3, 4), (5, 6)]


def offset():
    o = unknown("offset", "int")
    le(0, o)
    return o


def share(a, b):
    return a[0] < b[1] and b[0] < a[1]


def case_conflicting():
    """a match against others of every relative position, equal or not"""
    o = offset()
    p = PLACES[choose(len(PLACES))]
    q = SECOND[choose(len(SECOND))]
    probe = M(o + 2, o + 5, value=1, name=NA)
    one = M(o + p[0], o + p[1], value=2)
    two = M(o + q[0], o + q[1], value=choose(1, 3), name=NA)
    inside = choose(0, 1, 2)
    ms = Matches([[one, two], [one, probe, two], [two, one, probe]][inside])
    found = ms.conflicting(probe)
    for m, place in ((one, p), (two, q)):
        if not m == probe:
            n = 0
            for x in found:
                if x is m or x == m:
                    n += 1
            want = share(place, (2, 5))
            check(n == (1 if want else 0), "conflict", ("relative position", place))
    for x in found:
        check(not x == probe, "conflict", "the match itself")
        check(has(ms, x), "conflict", "something else")


def case_conflicting_many():
    """several at once, nested, crossing, adjacent"""
    o = offset()
    places = [(0, 9), (1, 3), (2, 4), (4, 6), (3, 4), (6, 9), (3, 5)]
    matches = [M(o + s, o + e, value=s) for s, e in places]
    dressed(*matches)
    ms = Matches(matches if choose(True, False) else matches[::-1])
    for i in range(len(places)):
        found = ms.conflicting(matches[i])
        for j in range(len(places)):
            want = i != j and share(places[i], places[j])
            check(has(found, matches[j]) == want, "conflict", (places[i], places[j]))
        check(len(found) == len([q for q in places if q != places[i] and share(places[i], q)]), "conflict", "each once")


def case_conflicting_markers():
    o = offset()
    p = PLACES[choose(len(PLACES))]
    ms = Matches()
    mark = M(o + p[0], o + p[1], marker=True, value=4)
    ms.markers.append(mark)
    probe = M(o + 2, o + 5)
    check(has(ms.markers.conflicting(probe), mark) == share(p, (2, 5)), "conflict", ("markers", p))
    check(ms.conflicting(probe) == [], "conflict", "a marker among the matches")


def case_at_index():
    o = offset()
    p = PLACES[choose(len(PLACES))]
    q = SECOND[choose(len(SECOND))]
    one = M(o + p[0], o + p[1], value=choose(1, 2))
    two = M(o + q[0], o + q[1], value=1)
    dressed(one, two)
    ms = Matches([one])
    if choose(True, False):
        ms.at_index(o)
    ms.append(two)
    for i in range(9):
        found = ms.at_index(o + i)
        want = [m for m, place in ((one, p), (two, q)) if place[0] <= i and i < place[1]]
        check(same_items(found, want), "position", ("at_index", i, p))
    ms.remove(one)
    for i in range(9):
        found = ms.at_index(o + i)
        want = [two] if q[0] <= i and i < q[1] else []
        check(same_items(found, want), "position", ("at_index after a removal", i))


# ---------------------------------------------------------------- crop
def pieces(s, e, crops):
    """what remains of the span"""
    out = [(s, e)]
    for a, b in crops:
        left = []
        for x, y in out:
            end = a if a < y else y
            if x < end:
                left.append((x, end))
            start = b if b > x else x
            if start < y:
                left.append((start, y))
        out = left
    return out


def cropped(got, want, label):
    check(len(got) == len(want), "crop", (label, "number of pieces"))
    for m in got:
        check(m.start < m.end, "crop", (label, "an empty piece"))
        n = 0
        for x, y in want:
            if m.start == x and m.end == y:
                n += 1
        check(n == 1, "crop", (label, "a wrong piece"))


def case_crop():
    """one unknown span, in every form it can be given"""
    s, e = span("match")
    a, b = span("crop")
    m = dressed(M(s, e, name=NA))
    how = choose(0, 1, 2, 3, 4)
    arg = [(a, b), [(a, b)], M(a, b), [M(a, b)], Matches([M(a, b)])][how]
    cropped(m.crop(arg), pieces(s, e, [(a, b)]), ("one span", how))
    check(m.start == s and m.end == e, "crop", "the match itself")


def case_crop_two():
    s, e = span("match")
    c, d = span("crop"), span("second crop")
    m = dressed(M(s, e))
    arg = choose([c, d], [M(c[0], c[1]), d])
    cropped(m.crop(arg), pieces(s, e, [c, d]), "two spans")


def case_crop_three():
    """spans of known places"""
    s, e = 2, 9
    crops = [choose((0, 3), (3, 5), (8, 12)), choose((4, 6), (2, 3), (0, 20), (9, 10)), choose((7, 8), (0, 2), (5, 7), (3, 4))]
    m = dressed(M(s, e))
    cropped(m.crop(crops), pieces(s, e, crops), "three spans")
    cropped(m.crop([]), [(s, e)], "no span")
